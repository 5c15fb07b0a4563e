@raw
// ---- how often a customer occurs
pub open spec fn occ(s: Seq<usize>, x: usize) -> int
    decreases s.len()
{ if s.len() == 0 { 0 } else { occ(s.drop_last(), x) + if s.last() == x { 1int } else { 0int } } }
pub proof fn lem_occ_push(s: Seq<usize>, v: usize, x: usize)
    ensures occ(s.push(v), x) == occ(s, x) + if v == x { 1int } else { 0int }
{ assert(s.push(v).drop_last() =~= s); }
pub proof fn lem_occ_range(s: Seq<usize>, x: usize)
    ensures 0 <= occ(s, x) <= s.len()
    decreases s.len()
{ if s.len() > 0 { lem_occ_range(s.drop_last(), x); } }
pub proof fn lem_occ_remove(s: Seq<usize>, i: int, x: usize)
    requires 0 <= i < s.len()
    ensures occ(s.remove(i), x) == occ(s, x) - if s[i] == x { 1int } else { 0int }
    decreases s.len()
{
    if i == s.len() - 1 { assert(s.remove(i) =~= s.drop_last()); }
    else {
        lem_occ_remove(s.drop_last(), i, x);
        assert(s.remove(i).drop_last() =~= s.drop_last().remove(i));
        assert(s.remove(i).last() == s.last());
    }
}
pub proof fn lem_occ_insert(s: Seq<usize>, i: int, v: usize, x: usize)
    requires 0 <= i <= s.len()
    ensures occ(s.insert(i, v), x) == occ(s, x) + if v == x { 1int } else { 0int }
{
    let t = s.insert(i, v);
    lem_occ_remove(t, i, x);
    assert(t.remove(i) =~= s);
}
pub proof fn lem_occ_pos(s: Seq<usize>, i: int)
    requires 0 <= i < s.len()
    ensures occ(s, s[i]) >= 1
{ lem_occ_remove(s, i, s[i]); lem_occ_range(s.remove(i), s[i]); }
pub proof fn lem_occ_two(s: Seq<usize>, i: int, j: int)
    requires 0 <= i < j < s.len(), s[i] == s[j]
    ensures occ(s, s[i]) >= 2
{ lem_occ_remove(s, j, s[i]); assert(s.remove(j)[i] == s[i]); lem_occ_pos(s.remove(j), i); }
pub proof fn lem_occ_find(s: Seq<usize>, x: usize) -> (i: int)
    requires occ(s, x) >= 1
    ensures 0 <= i < s.len(), s[i] == x
    decreases s.len()
{ if s.last() == x { s.len() - 1 } else { lem_occ_find(s.drop_last(), x) } }
pub proof fn lem_occ_add(s: Seq<usize>, t: Seq<usize>, x: usize)
    ensures occ(s + t, x) == occ(s, x) + occ(t, x)
    decreases t.len()
{ if t.len() == 0 { assert(s + t =~= s); } else { lem_occ_add(s, t.drop_last(), x); assert((s + t).drop_last() =~= s + t.drop_last()); } }
// a rearrangement keeps the number of occurrences
pub proof fn lem_occ_rearranged(a: Seq<usize>, b: Seq<usize>, q: Seq<int>, x: usize)
    requires permuted_by(a, b, q)
    ensures occ(a, x) == occ(b, x)
    decreases b.len()
{
    if b.len() > 0 {
        let m = b.len() - 1;
        let p = q[m];
        assert(b[m] == a[q[m]]);
        let a2 = a.remove(p); let b2 = b.drop_last();
        let q2 = Seq::new(m as nat, |i: int| if q[i] < p { q[i] } else { q[i] - 1 });
        assert(permuted_by(a2, b2, q2)) by {
            assert forall|i: int| 0 <= i < m implies 0 <= #[trigger] q2[i] < m && b2[i] == a2[q2[i]] by { assert(q[i] != q[m]); assert(b[i] == a[q[i]]); }
            assert forall|i: int, j: int| 0 <= i < m && 0 <= j < m && i != j implies q2[i] != q2[j] by { assert(q[i] != q[j] && q[i] != p && q[j] != p); }
        }
        lem_occ_rearranged(a2, b2, q2, x);
        lem_occ_remove(a, p, x);
    }
}
pub proof fn lem_occ_same(a: Seq<usize>, b: Seq<usize>)
    requires rearranged(a, b)
    ensures b.len() == a.len(), forall|x: usize| #[trigger] occ(b, x) == occ(a, x)
{
    let q = choose|q: Seq<int>| permuted_by(a, b, q);
    assert forall|x: usize| #[trigger] occ(b, x) == occ(a, x) by { lem_occ_rearranged(a, b, q, x); }
}
// at most once each, all in range: no more entries than customers
pub proof fn lem_occ_len(s: Seq<usize>, n: int)
    requires 0 <= n <= usize::MAX, forall|i: int| 0 <= i < s.len() ==> in_1n(#[trigger] s[i], n), forall|x: usize| #[trigger] occ(s, x) <= 1
    ensures s.len() <= n, nodup(s)
{
    assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j implies s[i] != s[j] by {
        if s[i] == s[j] { if i < j { lem_occ_two(s, i, j); } else { lem_occ_two(s, j, i); } assert(occ(s, s[i]) <= 1); }
    }
    assert(s.no_duplicates());
    s.unique_seq_to_set();
    assert forall|x: usize| s.to_set().contains(x) implies 1 <= x <= n by { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(in_1n(s[i], n)); }
    lem_set_bound(s.to_set(), n);
}
