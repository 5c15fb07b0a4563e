@raw
// ---- reversing part of a route, link by link
pub open spec fn in_part(s: Tour, lo: int, hi: int, q: Ptr) -> bool { exists|i: int| lo <= i < hi && s[i] == q }
// s[m+1..=k] turned backwards; s[1] is followed by `last`
pub open spec fn rev_back(a: &LocalSearch, b: &LocalSearch, s: Tour, m: int, k: int, last: Ptr) -> bool {
    &&& same_but_nodes(*a, *b) && b.routes@ == a.routes@ && links_differ(a, b)
    &&& rev_back_at(a, b, s, m, k, last) && rev_back_rest(a, b, s, m, k, last)
}
#[verifier::opaque]
pub open spec fn rev_back_at(a: &LocalSearch, b: &LocalSearch, s: Tour, m: int, k: int, last: Ptr) -> bool {
    &&& (forall|i: int| m < i <= k ==> (#[trigger] b.nd(s[i])).successor == (if i == 1 { last } else { s[i - 1] }))
    &&& (forall|i: int| m <= i < k && 0 < i ==> (#[trigger] b.nd(s[i])).predecessor == s[i + 1])
    &&& (m == 0 ==> b.nd(last).predecessor == s[1])
}
#[verifier::opaque]
pub open spec fn rev_back_rest(a: &LocalSearch, b: &LocalSearch, s: Tour, m: int, k: int, last: Ptr) -> bool {
    &&& (forall|q: Ptr| a.live(q) && !in_part(s, m + 1, k + 1, q) ==> (#[trigger] b.nd(q)).successor == a.nd(q).successor)
    &&& (forall|q: Ptr| a.live(q) && !in_part(s, if m == 0 { 1 } else { m }, k, q) && !(m == 0 && q == last) ==> (#[trigger] b.nd(q)).predecessor == a.nd(q).predecessor)
}
pub open spec fn back_run(h: &LocalSearch, s: Tour, k: int) -> bool {
    &&& 0 < k < s.len() && distinct(s) && (forall|i: int| 0 <= i <= k ==> h.live(#[trigger] s[i]) && h.nd(s[i]).number == num(s[i]))
    &&& (forall|i: int| 0 < i <= k ==> customer(#[trigger] s[i], h.n()) && h.pred(s[i]) == s[i - 1]) && h.pred(s[0]) == Ptr::Null
}
pub proof fn lem_rev_back_start(a: &LocalSearch, s: Tour, k: int, last: Ptr)
    requires back_run(a, s, k)
    ensures rev_back(a, a, s, k, k, last)
{ reveal(rev_back_at); reveal(rev_back_rest); }
pub open spec fn off_part(s: Tour, k: int, last: Ptr) -> bool { forall|i: int| 0 <= i <= k ==> #[trigger] s[i] != last }
pub proof fn lem_rev_back_step(a: &LocalSearch, b: &LocalSearch, c: &LocalSearch, s: Tour, m: int, k: int, last: Ptr)
    requires back_run(a, s, k), 0 < m <= k, rev_back(a, b, s, m, k, last), m == 1 ==> a.live(last) && off_part(s, k, last),
        linked(*b, *c, s[m], if m == 1 { last } else { s[m - 1] })
    ensures rev_back(a, c, s, m - 1, k, last)
{
    reveal(distinct);
    assert forall|q: Ptr| a.live(q) implies (#[trigger] c.nd(q)) == (LinkNode { successor: c.nd(q).successor, predecessor: c.nd(q).predecessor, ..a.nd(q) }) by { assert(b.nd(q) == (LinkNode { successor: b.nd(q).successor, predecessor: b.nd(q).predecessor, ..a.nd(q) })); }
    assert(rev_back_at(a, c, s, m - 1, k, last)) by {
        reveal(rev_back_at);
        assert forall|i: int| m - 1 < i <= k implies (#[trigger] c.nd(s[i])).successor == (if i == 1 { last } else { s[i - 1] }) by { assert(a.live(s[i])); if i > m { assert(s[i] != s[m]); assert(b.nd(s[i]).successor == s[i - 1]); } }
        assert forall|i: int| m - 1 <= i < k && 0 < i implies (#[trigger] c.nd(s[i])).predecessor == s[i + 1] by { assert(a.live(s[i])); if i >= m { if m > 1 { assert(s[i] != s[m - 1]); } assert(b.nd(s[i]).predecessor == s[i + 1]); } }
    }
    assert(rev_back_rest(a, c, s, m - 1, k, last)) by {
        reveal(rev_back_rest);
        assert forall|q: Ptr| a.live(q) && !in_part(s, m, k + 1, q) implies (#[trigger] c.nd(q)).successor == a.nd(q).successor by {
            assert(s[m] != q); assert(!in_part(s, m + 1, k + 1, q)); assert(b.nd(q).successor == a.nd(q).successor);
        }
        let lo = if m == 1 { 1 } else { m - 1 };
        assert forall|q: Ptr| a.live(q) && !in_part(s, lo, k, q) && !(m == 1 && q == last) implies (#[trigger] c.nd(q)).predecessor == a.nd(q).predecessor by {
            assert(!in_part(s, m, k, q)); assert(b.nd(q).predecessor == a.nd(q).predecessor); if m > 1 { assert(s[m - 1] != q); }
        }
    }
}
// while walking back, what is ahead is untouched
pub proof fn lem_rev_back_ahead(a: &LocalSearch, b: &LocalSearch, s: Tour, m: int, k: int, last: Ptr)
    requires back_run(a, s, k), 0 <= m <= k, rev_back(a, b, s, m, k, last)
    ensures m > 0 ==> b.live(s[m - 1]) && (m > 1 ==> b.pred(s[m - 1]) == s[m - 2]) && (m == 1 ==> b.pred(s[0]) == Ptr::Null) && b.nd(s[m - 1]).number == num(s[m - 1]),
        b.live(s[m]) && (m > 0 ==> customer(s[m], a.n())), m == k ==> b.pred(s[m]) == a.pred(s[m])
{
    reveal(distinct); reveal(rev_back_rest);
    if m > 0 {
        let q = s[m - 1];
        assert(a.live(q));
        assert(!in_part(s, m, k, q));
        assert(b.nd(q).predecessor == a.nd(q).predecessor);
        assert(b.nd(q) == (LinkNode { successor: b.nd(q).successor, predecessor: b.nd(q).predecessor, ..a.nd(q) }));
        if m > 1 { assert(customer(q, a.n())); }
        assert(customer(s[m], a.n()));
    }
    assert(a.live(s[m]));
    if m == k { assert(!in_part(s, m, k, s[m])); assert(b.nd(s[m]).predecessor == a.nd(s[m]).predecessor); }
}
// s[k..m] turned backwards; s[n-2] is preceded by `first`
pub open spec fn rev_fwd(a: &LocalSearch, b: &LocalSearch, s: Tour, k: int, m: int, first: Ptr) -> bool {
    &&& same_but_nodes(*a, *b) && b.routes@ == a.routes@ && links_differ(a, b)
    &&& rev_fwd_at(a, b, s, k, m, first) && rev_fwd_rest(a, b, s, k, m, first)
}
#[verifier::opaque]
pub open spec fn rev_fwd_at(a: &LocalSearch, b: &LocalSearch, s: Tour, k: int, m: int, first: Ptr) -> bool {
    &&& (forall|i: int| k <= i < m ==> (#[trigger] b.nd(s[i])).predecessor == (if i == s.len() - 2 { first } else { s[i + 1] }))
    &&& (forall|i: int| k < i <= m && i < s.len() - 1 ==> (#[trigger] b.nd(s[i])).successor == s[i - 1])
    &&& (m == s.len() - 1 ==> b.nd(first).successor == s[s.len() - 2])
}
#[verifier::opaque]
pub open spec fn rev_fwd_rest(a: &LocalSearch, b: &LocalSearch, s: Tour, k: int, m: int, first: Ptr) -> bool {
    &&& (forall|q: Ptr| a.live(q) && !in_part(s, k, m, q) ==> (#[trigger] b.nd(q)).predecessor == a.nd(q).predecessor)
    &&& (forall|q: Ptr| a.live(q) && !in_part(s, k + 1, if m == s.len() - 1 { m } else { m + 1 }, q) && !(m == s.len() - 1 && q == first) ==> (#[trigger] b.nd(q)).successor == a.nd(q).successor)
}
pub open spec fn fwd_run(h: &LocalSearch, s: Tour, k: int) -> bool {
    &&& 0 < k < s.len() - 1 && distinct(s) && (forall|i: int| k <= i < s.len() ==> h.live(#[trigger] s[i]) && h.nd(s[i]).number == num(s[i]) && h.succ(s[i]) == node_at(s, i + 1) && s[i] != Ptr::Null)
}
pub proof fn lem_rev_fwd_start(a: &LocalSearch, s: Tour, k: int, first: Ptr)
    requires fwd_run(a, s, k)
    ensures rev_fwd(a, a, s, k, k, first)
{ reveal(rev_fwd_at); reveal(rev_fwd_rest); }
pub open spec fn off_from(s: Tour, k: int, p: Ptr) -> bool { forall|i: int| k <= i < s.len() ==> #[trigger] s[i] != p }
pub proof fn lem_rev_fwd_step(a: &LocalSearch, b: &LocalSearch, c: &LocalSearch, s: Tour, k: int, m: int, first: Ptr)
    requires fwd_run(a, s, k), k <= m < s.len() - 1, rev_fwd(a, b, s, k, m, first), m == s.len() - 2 ==> a.live(first) && off_from(s, k, first),
        linked(*b, *c, if m == s.len() - 2 { first } else { s[m + 1] }, s[m])
    ensures rev_fwd(a, c, s, k, m + 1, first)
{
    reveal(distinct);
    let n = s.len();
    assert forall|q: Ptr| a.live(q) implies (#[trigger] c.nd(q)) == (LinkNode { successor: c.nd(q).successor, predecessor: c.nd(q).predecessor, ..a.nd(q) }) by { assert(b.nd(q) == (LinkNode { successor: b.nd(q).successor, predecessor: b.nd(q).predecessor, ..a.nd(q) })); }
    assert(rev_fwd_at(a, c, s, k, m + 1, first)) by {
        reveal(rev_fwd_at);
        assert forall|i: int| k <= i < m + 1 implies (#[trigger] c.nd(s[i])).predecessor == (if i == n - 2 { first } else { s[i + 1] }) by { assert(a.live(s[i])); if i < m { assert(s[i] != s[m]); assert(b.nd(s[i]).predecessor == s[i + 1]); } }
        assert forall|i: int| k < i <= m + 1 && i < n - 1 implies (#[trigger] c.nd(s[i])).successor == s[i - 1] by { assert(a.live(s[i])); if i <= m { if m < n - 2 { assert(s[i] != s[m + 1]); } assert(b.nd(s[i]).successor == s[i - 1]); } }
    }
    assert(rev_fwd_rest(a, c, s, k, m + 1, first)) by {
        reveal(rev_fwd_rest);
        assert forall|q: Ptr| a.live(q) && !in_part(s, k, m + 1, q) implies (#[trigger] c.nd(q)).predecessor == a.nd(q).predecessor by {
            assert(s[m] != q); assert(!in_part(s, k, m, q)); assert(b.nd(q).predecessor == a.nd(q).predecessor);
        }
        let hi = if m + 1 == n - 1 { m + 1 } else { m + 2 };
        assert forall|q: Ptr| a.live(q) && !in_part(s, k + 1, hi, q) && !(m + 1 == n - 1 && q == first) implies (#[trigger] c.nd(q)).successor == a.nd(q).successor by {
            assert(!in_part(s, k + 1, m + 1, q)); assert(b.nd(q).successor == a.nd(q).successor); if m < n - 2 { assert(s[m + 1] != q); }
        }
    }
}
pub proof fn lem_rev_fwd_ahead(a: &LocalSearch, b: &LocalSearch, s: Tour, k: int, m: int, first: Ptr)
    requires fwd_run(a, s, k), k <= m < s.len(), rev_fwd(a, b, s, k, m, first), m == s.len() - 1 ==> off_from(s, k, first)
    ensures b.live(s[m]) && s[m] != Ptr::Null, m < s.len() - 1 ==> b.live(s[m + 1]) && s[m + 1] != Ptr::Null && b.succ(s[m + 1]) == node_at(s, m + 2) && b.nd(s[m + 1]).number == num(s[m + 1]),
        m == k ==> b.succ(s[m]) == s[m + 1], m + 2 < s.len() ==> s[m + 2] != Ptr::Null
{
    reveal(distinct); reveal(rev_fwd_rest);
    assert(a.live(s[m]));
    if m < s.len() - 1 {
        let q = s[m + 1];
        assert(a.live(q));
        assert(!in_part(s, k + 1, m + 1, q));
        assert(b.nd(q).successor == a.nd(q).successor);
        assert(b.nd(q) == (LinkNode { successor: b.nd(q).successor, predecessor: b.nd(q).predecessor, ..a.nd(q) }));
        if m + 2 < s.len() { assert(s[m + 2] != Ptr::Null); }
    }
    if m == k { assert(!in_part(s, k + 1, k + 1, s[m])); assert(b.nd(s[m]).successor == a.nd(s[m]).successor); }
}
