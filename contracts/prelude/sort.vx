@raw
// slice::sort_by: needs a total preorder, yields a sorted permutation
pub open spec fn total_preorder<T>(le: spec_fn(T, T) -> bool) -> bool {
    (forall|a: T, b: T| #[trigger] le(a, b) || le(b, a)) && (forall|a: T, b: T, c: T| #[trigger] le(a, b) && #[trigger] le(b, c) ==> le(a, c))
}
#[verifier::external_body]
pub fn sort_by_spec<T>(v: &mut Vec<T>, le: Ghost<spec_fn(T, T) -> bool>)
    requires total_preorder(le@),
    ensures rearranged(old(v)@, final(v)@), forall|i: int, j: int| 0 <= i < j < final(v)@.len() ==> (le@)(#[trigger] final(v)@[i], #[trigger] final(v)@[j]),
{ unimplemented!() }
pub open spec fn int_range(n: int) -> Set<int>
    decreases n
{ if n <= 0 { Set::empty() } else { int_range(n - 1).insert(n - 1) } }
pub proof fn lem_int_range(n: int)
    requires 0 <= n
    ensures int_range(n).len() == n, forall|x: int| #[trigger] int_range(n).contains(x) <==> 0 <= x < n
    decreases n
{ if n > 0 { lem_int_range(n - 1); } }
pub proof fn lem_perm_surj(q: Seq<int>, n: int, x: int) -> (k: int)
    requires is_perm_map(q, n), 0 <= x < n
    ensures 0 <= k < n, q[k] == x
{
    lem_int_range(n);
    let ss = q.to_set();
    assert(q.no_duplicates());
    q.unique_seq_to_set();
    assert(ss.subset_of(int_range(n))) by { assert forall|y: int| ss.contains(y) implies int_range(n).contains(y) by { let i = choose|i: int| 0 <= i < q.len() && q[i] == y; assert(0 <= q[i] < n); } }
    vstd::set_lib::lemma_subset_equality(ss, int_range(n));
    assert(ss.contains(x));
    choose|k: int| 0 <= k < q.len() && q[k] == x
}
pub open spec fn is_inverse(q: Seq<int>, rank: Seq<int>) -> bool {
    &&& rank.len() == q.len()
    &&& forall|k: int| 0 <= k < q.len() ==> 0 <= #[trigger] q[k] < rank.len() && rank[q[k]] == k
    &&& forall|i: int| 0 <= i < rank.len() ==> 0 <= #[trigger] rank[i] < q.len() && q[rank[i]] == i
}
pub proof fn lem_perm_inverse(q: Seq<int>, n: int) -> (rank: Seq<int>)
    requires is_perm_map(q, n), n >= 0
    ensures is_inverse(q, rank), is_perm_map(rank, n)
{
    let rank = Seq::new(n as nat, |i: int| choose|k: int| 0 <= k < n && q[k] == i);
    assert forall|i: int| 0 <= i < rank.len() implies 0 <= #[trigger] rank[i] < q.len() && q[rank[i]] == i by { let k = lem_perm_surj(q, n, i); assert(0 <= k < n && q[k] == i); }
    assert forall|k: int| 0 <= k < q.len() implies 0 <= #[trigger] q[k] < rank.len() && rank[q[k]] == k by { let r = rank[q[k]]; assert(q[r] == q[k]); }
    rank
}
