@raw
// ---- giant tours: every customer 1..=n exactly once
pub open spec fn in_1n(x: usize, n: int) -> bool { 1 <= x <= n }
pub open spec fn nodup(s: Seq<usize>) -> bool { forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j ==> s[i] != s[j] }
pub open spec fn perm(s: Seq<usize>, n: int) -> bool { s.len() == n && nodup(s) && forall|i: int| 0 <= i < s.len() ==> in_1n(#[trigger] s[i], n) }
pub open spec fn range_set(n: int) -> Set<usize>
    decreases n
{ if n <= 0 { Set::empty() } else { range_set(n - 1).insert(n as usize) } }
pub proof fn lem_range_set(n: int)
    requires 0 <= n <= usize::MAX
    ensures range_set(n).len() == n, forall|x: usize| #[trigger] range_set(n).contains(x) <==> 1 <= x <= n
    decreases n
{ if n > 0 { lem_range_set(n - 1); } }
// pigeonhole: n distinct values out of 1..=n are all of them
pub proof fn lem_perm_covers(s: Seq<usize>, n: int, x: usize) -> (k: int)
    requires perm(s, n), 0 <= n <= usize::MAX, 1 <= x <= n
    ensures 0 <= k < n, s[k] == x
{
    lem_range_set(n);
    let ss = s.to_set();
    assert(s.no_duplicates());
    s.unique_seq_to_set();
    assert(ss.subset_of(range_set(n))) by { assert forall|y: usize| ss.contains(y) implies range_set(n).contains(y) by { let i = choose|i: int| 0 <= i < s.len() && s[i] == y; assert(in_1n(s[i], n)); } }
    vstd::set_lib::lemma_subset_equality(ss, range_set(n));
    assert(ss.contains(x));
    choose|k: int| 0 <= k < s.len() && s[k] == x
}
pub proof fn lem_set_bound(s: Set<usize>, n: int)
    requires 0 <= n <= usize::MAX, forall|x: usize| s.contains(x) ==> 1 <= x <= n
    ensures s.len() <= n
{
    lem_range_set(n);
    vstd::set_lib::lemma_len_subset(s, range_set(n));
}
