@raw
// ---- concatenation of the first k routes
pub open spec fn flat(s: Seq<Vec<usize>>, k: int) -> Seq<usize>
    decreases k
{ if k <= 0 { Seq::empty() } else { flat(s, k - 1) + s[k - 1]@ } }
pub open spec fn flat_all(s: Seq<Vec<usize>>) -> Seq<usize> { flat(s, s.len() as int) }
// occurrences on the first k routes
pub open spec fn locc(s: Seq<Vec<usize>>, k: int, x: usize) -> int
    decreases k
{ if k <= 0 { 0 } else { locc(s, k - 1, x) + occ(s[k - 1]@, x) } }
pub proof fn lem_flat_occ(s: Seq<Vec<usize>>, k: int, x: usize)
    requires 0 <= k <= s.len()
    ensures occ(flat(s, k), x) == locc(s, k, x)
    decreases k
{ if k > 0 { lem_flat_occ(s, k - 1, x); lem_occ_add(flat(s, k - 1), s[k - 1]@, x); } }
// the lists of b are those of a in another order
pub open spec fn lists_by(a: Seq<Vec<usize>>, b: Seq<Vec<usize>>, q: Seq<int>) -> bool {
    b.len() == a.len() && is_perm_map(q, a.len() as int) && forall|i: int| 0 <= i < b.len() ==> (#[trigger] b[i])@ == a[q[i]]@
}
pub open spec fn same_lists(a: Seq<Vec<usize>>, b: Seq<Vec<usize>>) -> bool { exists|q: Seq<int>| lists_by(a, b, q) }
pub open spec fn len_sum(s: Seq<Vec<usize>>, k: int) -> int
    decreases k
{ if k <= 0 { 0 } else { len_sum(s, k - 1) + s[k - 1]@.len() } }
pub proof fn lem_flat_len(s: Seq<Vec<usize>>, k: int)
    requires 0 <= k <= s.len()
    ensures flat(s, k).len() == len_sum(s, k)
    decreases k
{ if k > 0 { lem_flat_len(s, k - 1); } }
pub proof fn lem_flat_prefix(s: Seq<Vec<usize>>, k: int, m: int)
    requires 0 <= k <= m <= s.len()
    ensures flat(s, k).len() <= flat(s, m).len(), flat(s, m).take(flat(s, k).len() as int) == flat(s, k)
    decreases m
{ if k < m { lem_flat_prefix(s, k, m - 1); assert(flat(s, m).take(flat(s, k).len() as int) =~= flat(s, m - 1).take(flat(s, k).len() as int)); } else { assert(flat(s, m).take(flat(s, k).len() as int) =~= flat(s, k)); } }
// sums over lists do not depend on their order
pub proof fn lem_lists_locc(a: Seq<Vec<usize>>, b: Seq<Vec<usize>>, q: Seq<int>, x: usize)
    requires lists_by(a, b, q)
    ensures locc(a, a.len() as int, x) == locc(b, b.len() as int, x), len_sum(a, a.len() as int) == len_sum(b, b.len() as int)
    decreases b.len()
{
    if b.len() > 0 {
        let m = b.len() - 1; let p = q[m];
        assert(b[m]@ == a[q[m]]@);
        let a2 = a.remove(p); let b2 = b.drop_last();
        let q2 = Seq::new(m as nat, |i: int| if q[i] < p { q[i] } else { q[i] - 1 });
        assert(lists_by(a2, b2, q2)) by {
            assert forall|i: int| 0 <= i < m implies 0 <= #[trigger] q2[i] < m && b2[i]@ == a2[q2[i]]@ by { assert(q[i] != q[m]); assert(b[i]@ == a[q[i]]@); }
            assert forall|i: int, j: int| 0 <= i < m && 0 <= j < m && i != j implies q2[i] != q2[j] by { assert(q[i] != q[j] && q[i] != p && q[j] != p); }
            assert forall|i: int| 0 <= i < b2.len() implies (#[trigger] b2[i])@ == a2[q2[i]]@ by { assert(0 <= q2[i] < m && b2[i]@ == a2[q2[i]]@); }
        }
        lem_lists_locc(a2, b2, q2, x);
        lem_locc_remove(a, p, a.len() as int, x);
        lem_locc_frame(b, b2, m, x);
    }
}
pub proof fn lem_locc_frame(a: Seq<Vec<usize>>, b: Seq<Vec<usize>>, k: int, x: usize)
    requires 0 <= k <= a.len(), k <= b.len(), forall|i: int| 0 <= i < k ==> (#[trigger] a[i])@ == b[i]@
    ensures locc(a, k, x) == locc(b, k, x), len_sum(a, k) == len_sum(b, k)
    decreases k
{ if k > 0 { lem_locc_frame(a, b, k - 1, x); assert(a[k - 1]@ == b[k - 1]@); } }
pub proof fn lem_locc_remove(a: Seq<Vec<usize>>, p: int, k: int, x: usize)
    requires 0 <= p < a.len(), 0 <= k <= a.len()
    ensures k <= p ==> locc(a.remove(p), k, x) == locc(a, k, x) && len_sum(a.remove(p), k) == len_sum(a, k),
        k > p ==> locc(a.remove(p), k - 1, x) == locc(a, k, x) - occ(a[p]@, x) && len_sum(a.remove(p), k - 1) == len_sum(a, k) - a[p]@.len()
    decreases k
{ if k > 0 { lem_locc_remove(a, p, k - 1, x); } }
pub proof fn lem_locc_ge(s: Seq<Vec<usize>>, k: int, x: usize)
    requires 0 <= k <= s.len()
    ensures locc(s, k, x) >= 0, forall|r: int| 0 <= r < k ==> locc(s, k, x) >= occ((#[trigger] s[r])@, x)
    decreases k
{ if k > 0 { lem_locc_ge(s, k - 1, x); lem_occ_range(s[k - 1]@, x); } }
pub proof fn lem_locc_two(s: Seq<Vec<usize>>, k: int, r: int, q: int, x: usize)
    requires 0 <= r < q < k <= s.len()
    ensures locc(s, k, x) >= occ(s[r]@, x) + occ(s[q]@, x)
    decreases k
{ if q == k - 1 { lem_locc_ge(s, k - 1, x); } else { lem_locc_two(s, k - 1, r, q, x); lem_occ_range(s[k - 1]@, x); } }
// every customer exactly once
#[verifier::opaque]
pub open spec fn complete(n: int, s: Seq<Vec<usize>>) -> bool { forall|x: usize| #[trigger] locc(s, s.len() as int, x) == if 0 < x < n { 1int } else { 0int } }
pub proof fn lem_complete(n: int, s: Seq<Vec<usize>>)
    requires complete(n, s)
    ensures forall|r: int, i: int| 0 <= r < s.len() && 0 <= i < s[r]@.len() ==> 0 < #[trigger] s[r]@[i] < n,
{
    reveal(complete);
    assert forall|r: int, i: int| 0 <= r < s.len() && 0 <= i < s[r]@.len() implies 0 < #[trigger] s[r]@[i] < n by {
        let x = s[r]@[i]; lem_occ_pos(s[r]@, i); lem_locc_ge(s, s.len() as int, x); assert(occ(s[r]@, x) <= locc(s, s.len() as int, x));
    }
}
pub proof fn lem_complete_distinct(n: int, s: Seq<Vec<usize>>, r: int, i: int, q: int, j: int)
    requires complete(n, s), 0 <= r < s.len(), 0 <= q < s.len(), 0 <= i < s[r]@.len(), 0 <= j < s[q]@.len(), s[r]@[i] == s[q]@[j]
    ensures r == q, i == j
{
    reveal(complete);
    let x = s[r]@[i]; let m = s.len() as int;
    assert(locc(s, m, x) <= 1);
    lem_occ_pos(s[r]@, i); lem_occ_pos(s[q]@, j);
    if r < q { lem_locc_two(s, m, r, q, x); } else if q < r { lem_locc_two(s, m, q, r, x); }
    else { lem_locc_ge(s, m, x); if i < j { lem_occ_two(s[r]@, i, j); } else if j < i { lem_occ_two(s[r]@, j, i); } }
}
// the giant tour of a complete list of routes has n - 1 customers
pub proof fn lem_complete_len(n: int, s: Seq<Vec<usize>>)
    requires complete(n, s), 1 <= n <= usize::MAX
    ensures len_sum(s, s.len() as int) == n - 1, nodup(flat_all(s))
{
    let f = flat_all(s);
    lem_complete(n, s);
    lem_flat_len(s, s.len() as int);
    assert forall|x: usize| #[trigger] occ(f, x) == if 0 < x < n { 1int } else { 0int } by { reveal(complete); lem_flat_occ(s, s.len() as int, x); assert(locc(s, s.len() as int, x) == if 0 < x < n { 1int } else { 0int }); }
    assert forall|i: int| 0 <= i < f.len() implies in_1n(#[trigger] f[i], n - 1) by { lem_occ_pos(f, i); }
    lem_occ_len(f, n - 1);
    lem_occ_cover(f, n - 1);
}
// a sequence in which 1..=n all occur has at least n entries
pub proof fn lem_occ_cover(f: Seq<usize>, n: int)
    requires 0 <= n <= usize::MAX, forall|x: usize| 1 <= x <= n ==> #[trigger] occ(f, x) >= 1
    ensures f.len() >= n
    decreases n
{
    if n > 0 {
        let i = lem_occ_find(f, n as usize);
        let g = f.remove(i);
        assert forall|x: usize| 1 <= x <= n - 1 implies #[trigger] occ(g, x) >= 1 by { lem_occ_remove(f, i, x); assert(occ(f, x) >= 1); }
        lem_occ_cover(g, n - 1);
    }
}
