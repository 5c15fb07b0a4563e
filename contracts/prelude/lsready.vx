@raw
// ---- the links spell out the new tours
pub open spec fn path(b: &LocalSearch, s: Tour) -> bool { forall|k: int| 0 <= k < s.len() - 1 ==> b.succ(#[trigger] s[k]) == s[k + 1] && b.pred(s[k + 1]) == s[k] }
pub open spec fn joined(b: &LocalSearch, p: Ptr, q: Ptr) -> bool { b.succ(p) == q && b.pred(q) == p }
pub open spec fn joined_via(b: &LocalSearch, p: Ptr, g: Tour, q: Ptr) -> bool { if g.len() == 0 { joined(b, p, q) } else { joined(b, p, g[0]) && joined(b, g[g.len() - 1], q) && path(b, g) } }
pub proof fn lem_path_cat(b: &LocalSearch, p: Tour, q: Tour)
    requires path(b, p), path(b, q), p.len() > 0, q.len() > 0, joined(b, p[p.len() - 1], q[0])
    ensures path(b, p + q)
{
    let s = p + q;
    assert forall|k: int| 0 <= k < s.len() - 1 implies b.succ(#[trigger] s[k]) == s[k + 1] && b.pred(s[k + 1]) == s[k] by {
        if k < p.len() - 1 { assert(s[k] == p[k] && s[k + 1] == p[k + 1]); }
        else if k == p.len() - 1 { assert(s[k] == p[k] && s[k + 1] == q[0]); }
        else { let z = k - p.len(); assert(s[k] == q[z] && s[k + 1] == q[z + 1]); }
    }
}
pub proof fn lem_path_via(b: &LocalSearch, p: Tour, g: Tour, q: Tour)
    requires path(b, p), path(b, q), p.len() > 0, q.len() > 0, joined_via(b, p[p.len() - 1], g, q[0])
    ensures path(b, p + g + q)
{
    if g.len() == 0 { assert(p + g =~= p); lem_path_cat(b, p, q); }
    else { lem_path_cat(b, p, g); assert((p + g)[(p + g).len() - 1] == g[g.len() - 1]); lem_path_cat(b, p + g, q); }
}
// a stretch of an old tour is still linked, if none of its inner links was changed
pub open spec fn kept_in(a: &LocalSearch, b: &LocalSearch, s: Tour, lo: int, hi: int) -> bool {
    forall|k: int| lo <= k < hi ==> (k < hi - 1 ==> b.succ(#[trigger] s[k]) == a.succ(s[k])) && (k > lo ==> b.pred(s[k]) == a.pred(s[k]))
}
pub proof fn lem_path_sub(a: &LocalSearch, b: &LocalSearch, t: Tours, r: int, lo: int, hi: int)
    requires repr(a, t), 0 <= r < t.len(), 0 <= lo <= hi <= t[r].len(), kept_in(a, b, t[r], lo, hi)
    ensures path(b, t[r].subrange(lo, hi))
{
    let s = t[r].subrange(lo, hi);
    assert forall|k: int| 0 <= k < s.len() - 1 implies b.succ(#[trigger] s[k]) == s[k + 1] && b.pred(s[k + 1]) == s[k] by {
        lem_pos(a, t, r, lo + k); lem_pos(a, t, r, lo + k + 1);
        assert(s[k] == t[r][lo + k] && s[k + 1] == t[r][lo + k + 1]);
        let z = t[r][lo + k + 1];
    }
}
pub proof fn lem_path_chain(b: &LocalSearch, s: Tour)
    requires path(b, s), s.len() > 0, b.succ(s[s.len() - 1]) == Ptr::Null, b.pred(s[0]) == Ptr::Null
    ensures b.chained(s), b.back(s)
{
    reveal(LocalSearch::chained); reveal(LocalSearch::back);
    assert forall|i: int| 0 < i < s.len() implies b.pred(#[trigger] s[i]) == s[i - 1] by { let z = s[i - 1]; }
}
pub open spec fn ready_for(a: LocalSearch, b: LocalSearch, t: Tours, x: Xch) -> bool {
    xch_ok(t, x) && links_only(a, b, t[x.r1], t[x.r2]) && b.chain(x.r1, new1(t, x)) && b.back(new1(t, x))
    && (x.r1 != x.r2 ==> b.chain(x.r2, new2(t, x)) && b.back(new2(t, x)))
}
pub open spec fn first_of(g: Tour, q: Ptr) -> Ptr { if g.len() > 0 { g[0] } else { q } }
pub open spec fn final_of(p: Ptr, g: Tour) -> Ptr { if g.len() > 0 { g[g.len() - 1] } else { p } }
// the pieces of the new tour
pub proof fn lem_swap_parts(t1: Tour, a1: int, b1: int, a2: int, b2: int, s1: Tour, s2: Tour)
    requires 0 < a1 <= b1 <= a2 <= b2 < t1.len(), s1.len() == b1 - a1, s2.len() == b2 - a2
    ensures splice(splice(t1, a2, b2, s1), a1, b1, s2) == t1.subrange(0, a1) + s2 + (t1.subrange(b1, a2) + s1 + t1.subrange(b2, t1.len() as int))
{
    let m1 = splice(t1, a2, b2, s1);
    let w = t1.subrange(b1, a2) + s1 + t1.subrange(b2, t1.len() as int);
    assert(m1.subrange(0, a1) =~= t1.subrange(0, a1));
    assert(m1.subrange(b1, m1.len() as int) =~= w);
}
pub proof fn lem_ends(p: Tour, g: Tour, q: Tour)
    requires p.len() > 0, q.len() > 0
    ensures (p + g + q).len() == p.len() + g.len() + q.len(), (p + g + q)[0] == p[0], (p + g + q)[(p + g + q).len() - 1] == q[q.len() - 1]
{ }
pub proof fn lem_part_ends(t1: Tour, a: int, b: int)
    requires 0 <= a < b <= t1.len()
    ensures t1.subrange(a, b).len() == b - a, t1.subrange(a, b)[0] == t1[a], t1.subrange(a, b)[b - a - 1] == t1[b - 1]
{ }
pub proof fn lem_rv_len(s: Tour, f: bool) ensures rv(s, f).len() == s.len() { }
// two tours exchange stretches
pub proof fn lem_ready_half(a: &LocalSearch, b: &LocalSearch, t: Tours, r: int, lo: int, hi: int, g: Tour)
    requires repr(a, t), 0 <= r < t.len(), 0 < lo <= hi < t[r].len(), kept_in(a, b, t[r], 0, lo), kept_in(a, b, t[r], hi, t[r].len() as int),
        joined_via(b, t[r][lo - 1], g, t[r][hi]), b.pred(t[r][0]) == Ptr::Null, b.succ(t[r][t[r].len() - 1]) == Ptr::Null
    ensures b.chained(splice(t[r], lo, hi, g)), b.back(splice(t[r], lo, hi, g))
{
    let s = t[r]; let l = s.len() as int;
    lem_path_sub(a, b, t, r, 0, lo); lem_path_sub(a, b, t, r, hi, l);
    let p = s.subrange(0, lo); let q = s.subrange(hi, l);
    lem_part_ends(s, 0, lo); lem_part_ends(s, hi, l);
    lem_path_via(b, p, g, q);
    lem_ends(p, g, q);
    lem_path_chain(b, p + g + q);
}
pub proof fn lem_ready_inter(a: LocalSearch, b: LocalSearch, t: Tours, x: Xch)
    requires repr(&a, t), xch_ok(t, x), x.r1 != x.r2, links_only(a, b, t[x.r1], t[x.r2]),
        kept_in(&a, &b, t[x.r1], 0, x.a1), kept_in(&a, &b, t[x.r1], x.b1, t[x.r1].len() as int),
        kept_in(&a, &b, t[x.r2], 0, x.a2), kept_in(&a, &b, t[x.r2], x.b2, t[x.r2].len() as int),
        joined_via(&b, t[x.r1][x.a1 - 1], seg2(t, x), t[x.r1][x.b1]), joined_via(&b, t[x.r2][x.a2 - 1], seg1(t, x), t[x.r2][x.b2]),
        b.pred(t[x.r1][0]) == Ptr::Null, b.pred(t[x.r2][0]) == Ptr::Null,
        b.succ(t[x.r1][t[x.r1].len() - 1]) == Ptr::Null, b.succ(t[x.r2][t[x.r2].len() - 1]) == Ptr::Null,
    ensures ready_for(a, b, t, x)
{
    lem_xch_inter(&a, t, x);
    lem_ready_half(&a, &b, t, x.r1, x.a1, x.b1, seg2(t, x));
    lem_ready_half(&a, &b, t, x.r2, x.a2, x.b2, seg1(t, x));
}
// two stretches of one tour change places
pub proof fn lem_ready_intra(a: LocalSearch, b: LocalSearch, t: Tours, x: Xch)
    requires repr(&a, t), xch_ok(t, x), x.r1 == x.r2, x.b1 < x.a2, links_only(a, b, t[x.r1], t[x.r1]),
        kept_in(&a, &b, t[x.r1], 0, x.a1), kept_in(&a, &b, t[x.r1], x.b1, x.a2), kept_in(&a, &b, t[x.r1], x.b2, t[x.r1].len() as int),
        joined_via(&b, t[x.r1][x.a1 - 1], seg2(t, x), t[x.r1][x.b1]), joined_via(&b, t[x.r1][x.a2 - 1], seg1(t, x), t[x.r1][x.b2]),
        b.pred(t[x.r1][0]) == Ptr::Null, b.succ(t[x.r1][t[x.r1].len() - 1]) == Ptr::Null,
    ensures ready_for(a, b, t, x)
{
    lem_xch_intra(&a, t, x);
    let t1 = t[x.r1]; let l = t1.len() as int;
    let (s1, s2) = (seg1(t, x), seg2(t, x));
    lem_rv_len(t1.subrange(x.a1, x.b1), x.rev); lem_rv_len(t1.subrange(x.a2, x.b2), x.rev);
    lem_path_sub(&a, &b, t, x.r1, 0, x.a1); lem_path_sub(&a, &b, t, x.r1, x.b1, x.a2); lem_path_sub(&a, &b, t, x.r1, x.b2, l);
    let p = t1.subrange(0, x.a1); let m = t1.subrange(x.b1, x.a2); let q = t1.subrange(x.b2, l);
    lem_part_ends(t1, 0, x.a1); lem_part_ends(t1, x.b1, x.a2); lem_part_ends(t1, x.b2, l);
    let w = m + s1 + q;
    lem_path_via(&b, m, s1, q);
    lem_ends(m, s1, q);
    lem_path_via(&b, p, s2, w);
    lem_ends(p, s2, w);
    lem_swap_parts(t1, x.a1, x.b1, x.a2, x.b2, s1, s2);
    lem_path_chain(&b, p + s2 + w);
    lem_pos(&a, t, x.r1, 0);
}
pub proof fn lem_flip_parts(t1: Tour, a1: int, b1: int, s1: Tour, s2: Tour)
    requires 0 < a1 <= b1 < t1.len(), s1.len() == b1 - a1, s2.len() == 0
    ensures splice(splice(t1, b1, b1, s1), a1, b1, s2) == t1.subrange(0, a1) + s1 + t1.subrange(b1, t1.len() as int)
{
    let m1 = splice(t1, b1, b1, s1);
    assert(m1.subrange(0, a1) =~= t1.subrange(0, a1));
    assert(m1.subrange(b1, m1.len() as int) =~= s1 + t1.subrange(b1, t1.len() as int));
    assert(t1.subrange(0, a1) + s2 =~= t1.subrange(0, a1));
    assert(t1.subrange(0, a1) + (s1 + t1.subrange(b1, t1.len() as int)) =~= t1.subrange(0, a1) + s1 + t1.subrange(b1, t1.len() as int));
}
// one stretch is reversed
pub proof fn lem_ready_flip(a: LocalSearch, b: LocalSearch, t: Tours, x: Xch)
    requires repr(&a, t), xch_ok(t, x), x.r1 == x.r2, x.b1 == x.a2, x.b2 == x.a2, x.rev, x.a1 < x.b1, links_only(a, b, t[x.r1], t[x.r1]),
        kept_in(&a, &b, t[x.r1], 0, x.a1), kept_in(&a, &b, t[x.r1], x.b2, t[x.r1].len() as int),
        joined_via(&b, t[x.r1][x.a1 - 1], seg1(t, x), t[x.r1][x.b1]),
        b.pred(t[x.r1][0]) == Ptr::Null, b.succ(t[x.r1][t[x.r1].len() - 1]) == Ptr::Null,
    ensures ready_for(a, b, t, x), new1(t, x) == splice(t[x.r1], x.a1, x.b1, seg1(t, x))
{
    lem_xch_intra(&a, t, x);
    let t1 = t[x.r1]; let l = t1.len() as int;
    let (s1, s2) = (seg1(t, x), seg2(t, x));
    lem_rv_len(t1.subrange(x.a1, x.b1), x.rev); lem_rv_len(t1.subrange(x.a2, x.b2), x.rev);
    lem_path_sub(&a, &b, t, x.r1, 0, x.a1); lem_path_sub(&a, &b, t, x.r1, x.b2, l);
    let p = t1.subrange(0, x.a1); let q = t1.subrange(x.b2, l);
    lem_part_ends(t1, 0, x.a1); lem_part_ends(t1, x.b2, l);
    lem_path_via(&b, p, s1, q);
    lem_ends(p, s1, q);
    lem_flip_parts(t1, x.a1, x.b1, s1, s2);
    lem_path_chain(&b, p + s1 + q);
    lem_pos(&a, t, x.r1, 0);
}
