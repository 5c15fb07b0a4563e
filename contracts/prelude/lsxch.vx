@raw
// ---- moves that exchange two stretches by relinking their ends
pub open spec fn is_p(q: Ptr, a: Ptr, b: Ptr, c: Ptr, d: Ptr) -> bool { q == a || q == b || q == c || q == d }
pub open spec fn links_differ(a: &LocalSearch, b: &LocalSearch) -> bool {
    forall|q: Ptr| a.live(q) ==> (#[trigger] b.nd(q)) == (LinkNode { successor: b.nd(q).successor, predecessor: b.nd(q).predecessor, ..a.nd(q) })
}
#[verifier::opaque]
pub open spec fn only_succ(a: &LocalSearch, b: &LocalSearch, t: Tours, x: Xch) -> bool {
    forall|q: Ptr| a.live(q) && !is_p(q, t[x.r1][x.a1 - 1], t[x.r2][x.a2 - 1], final_of(t[x.r1][x.a1 - 1], seg2(t, x)), final_of(t[x.r2][x.a2 - 1], seg1(t, x)))
        && !(x.rev && (seg1(t, x).contains(q) || seg2(t, x).contains(q))) ==> (#[trigger] b.nd(q)).successor == a.nd(q).successor
}
#[verifier::opaque]
pub open spec fn only_pred(a: &LocalSearch, b: &LocalSearch, t: Tours, x: Xch) -> bool {
    forall|q: Ptr| a.live(q) && !is_p(q, t[x.r1][x.b1], t[x.r2][x.b2], first_of(seg2(t, x), t[x.r1][x.b1]), first_of(seg1(t, x), t[x.r2][x.b2]))
        && !(x.rev && (seg1(t, x).contains(q) || seg2(t, x).contains(q))) ==> (#[trigger] b.nd(q)).predecessor == a.nd(q).predecessor
}
pub open spec fn rewired(a: &LocalSearch, b: &LocalSearch, t: Tours, x: Xch) -> bool {
    &&& same_but_nodes(*a, *b) && b.routes@ == a.routes@ && links_differ(a, b) && only_succ(a, b, t, x) && only_pred(a, b, t, x)
    &&& joined(b, t[x.r1][x.a1 - 1], first_of(seg2(t, x), t[x.r1][x.b1])) && joined(b, final_of(t[x.r1][x.a1 - 1], seg2(t, x)), t[x.r1][x.b1])
    &&& joined(b, t[x.r2][x.a2 - 1], first_of(seg1(t, x), t[x.r2][x.b2])) && joined(b, final_of(t[x.r2][x.a2 - 1], seg1(t, x)), t[x.r2][x.b2])
    &&& (x.rev ==> path(b, seg1(t, x)) && path(b, seg2(t, x)))
}
pub proof fn lem_in_rv(s: Tour, f: bool, q: Ptr)
    ensures rv(s, f).contains(q) == s.contains(q)
{
    if f {
        if s.contains(q) { let i = choose|i: int| 0 <= i < s.len() && s[i] == q; assert(s.reverse()[s.len() - 1 - i] == q); }
        if s.reverse().contains(q) { let i = choose|i: int| 0 <= i < s.len() && s.reverse()[i] == q; assert(s[s.len() - 1 - i] == q); }
    }
}
// where the nodes of a stretch are
pub open spec fn within(h: &LocalSearch, q: Ptr, r: int, lo: int, hi: int) -> bool { h.live(q) && rt(h, q) == r && lo <= ps(h, q) < hi }
pub proof fn lem_within(h: &LocalSearch, t: Tours, r: int, a: int, b: int, f: bool)
    requires repr(h, t), 0 <= r < t.len(), 0 <= a <= b <= t[r].len()
    ensures rv(t[r].subrange(a, b), f).len() == b - a,
        forall|k: int| 0 <= k < b - a ==> within(h, #[trigger] rv(t[r].subrange(a, b), f)[k], r, a, b),
        forall|q: Ptr| #[trigger] rv(t[r].subrange(a, b), f).contains(q) ==> within(h, q, r, a, b),
        a < b && !f ==> rv(t[r].subrange(a, b), f)[0] == t[r][a] && rv(t[r].subrange(a, b), f)[b - a - 1] == t[r][b - 1],
        a < b && f ==> rv(t[r].subrange(a, b), f)[0] == t[r][b - 1] && rv(t[r].subrange(a, b), f)[b - a - 1] == t[r][a],
{
    let s = t[r].subrange(a, b); let g = rv(s, f);
    assert forall|k: int| 0 <= k < b - a implies within(h, #[trigger] g[k], r, a, b) by {
        let j = if f { b - 1 - k } else { a + k };
        assert(g[k] == t[r][j]); lem_pos(h, t, r, j);
    }
    assert forall|q: Ptr| #[trigger] g.contains(q) implies within(h, q, r, a, b) by { let k = choose|k: int| 0 <= k < g.len() && g[k] == q; assert(within(h, g[k], r, a, b)); }
}
pub open spec fn outside(x: Xch, r: int, lo: int, hi: int) -> bool {
    (r == x.r1 ==> (hi <= x.a1 || x.b1 <= lo)) && (r == x.r2 ==> (hi <= x.a2 || x.b2 <= lo))
}
pub open spec fn end_in(h: &LocalSearch, e: Ptr, d: Ptr, r: int, lo: int, hi: int) -> bool { e == d || within(h, e, r, lo, hi) }
pub proof fn lem_first_final(h: &LocalSearch, t: Tours, r: int, a: int, b: int, f: bool, p: Ptr, n: Ptr)
    requires repr(h, t), 0 <= r < t.len(), 0 <= a <= b <= t[r].len()
    ensures end_in(h, first_of(rv(t[r].subrange(a, b), f), n), n, r, a, b), end_in(h, final_of(p, rv(t[r].subrange(a, b), f)), p, r, a, b)
{ lem_within(h, t, r, a, b, f); let g = rv(t[r].subrange(a, b), f); if a < b { assert(within(h, g[0], r, a, b)); assert(within(h, g[b - a - 1], r, a, b)); } }
pub proof fn lem_not_in_seg(h: &LocalSearch, t: Tours, r: int, a: int, b: int, f: bool, q: Ptr)
    requires repr(h, t), 0 <= r < t.len(), 0 <= a <= b <= t[r].len(), !within(h, q, r, a, b)
    ensures !rv(t[r].subrange(a, b), f).contains(q)
{ lem_within(h, t, r, a, b, f); }
// the first and the last node of a stretch, against a node q of known position
pub proof fn lem_first_final_at(h: &LocalSearch, t: Tours, r: int, a: int, b: int, f: bool, p: Ptr, n: Ptr, q: Ptr)
    requires repr(h, t), 0 <= r < t.len(), 0 <= a <= b <= t[r].len()
    ensures ({ let g = rv(t[r].subrange(a, b), f); let (lo, hi) = if f { (b - 1, a) } else { (a, b - 1) };
        (first_of(g, n) == q ==> q == n || (within(h, q, r, a, b) && ps(h, q) == lo)) && (final_of(p, g) == q ==> q == p || (within(h, q, r, a, b) && ps(h, q) == hi)) })
{ lem_within(h, t, r, a, b, f); let g = rv(t[r].subrange(a, b), f); if a < b { lem_pos(h, t, r, a); lem_pos(h, t, r, b - 1); assert(within(h, g[0], r, a, b)); assert(within(h, g[b - a - 1], r, a, b)); } }
pub proof fn lem_kept_at(a: &LocalSearch, b: &LocalSearch, t: Tours, x: Xch, r: int, k: int)
    requires repr(a, t), xch_ok(t, x), rewired(a, b, t, x), 0 <= r < t.len(), 0 <= k < t[r].len(), x.r1 == x.r2 ==> x.b1 < x.a2
    ensures
        (r == x.r1 ==> k < x.a1 - 1 || x.b1 <= k) && (r == x.r2 ==> k < x.a2 - 1 || x.b2 <= k) ==> b.succ(t[r][k]) == a.succ(t[r][k]),
        (r == x.r1 ==> k < x.a1 || x.b1 < k) && (r == x.r2 ==> k < x.a2 || x.b2 < k) ==> b.pred(t[r][k]) == a.pred(t[r][k]),
        !x.rev && (r == x.r1 ==> k < x.a1 - 1 || x.a1 <= k < x.b1 - 1 || x.b1 <= k) && (r == x.r2 ==> k < x.a2 - 1 || x.a2 <= k < x.b2 - 1 || x.b2 <= k) ==> b.succ(t[r][k]) == a.succ(t[r][k]),
        !x.rev && (r == x.r1 ==> k < x.a1 || x.a1 < k < x.b1 || x.b1 < k) && (r == x.r2 ==> k < x.a2 || x.a2 < k < x.b2 || x.b2 < k) ==> b.pred(t[r][k]) == a.pred(t[r][k]),
{
    let (t1, t2, q) = (t[x.r1], t[x.r2], t[r][k]);
    lem_pos(a, t, r, k);
    lem_pos(a, t, x.r1, x.a1 - 1); lem_pos(a, t, x.r1, x.b1); lem_pos(a, t, x.r2, x.a2 - 1); lem_pos(a, t, x.r2, x.b2);
    lem_first_final_at(a, t, x.r1, x.a1, x.b1, x.rev, t2[x.a2 - 1], t2[x.b2], q);
    lem_first_final_at(a, t, x.r2, x.a2, x.b2, x.rev, t1[x.a1 - 1], t1[x.b1], q);
    if !within(a, q, x.r1, x.a1, x.b1) { lem_not_in_seg(a, t, x.r1, x.a1, x.b1, x.rev, q); }
    if !within(a, q, x.r2, x.a2, x.b2) { lem_not_in_seg(a, t, x.r2, x.a2, x.b2, x.rev, q); }
    if !is_p(q, t1[x.a1 - 1], t2[x.a2 - 1], final_of(t1[x.a1 - 1], seg2(t, x)), final_of(t2[x.a2 - 1], seg1(t, x))) && !(x.rev && (seg1(t, x).contains(q) || seg2(t, x).contains(q))) {
        assert(b.nd(q).successor == a.nd(q).successor) by { reveal(only_succ); }
    }
    if !is_p(q, t1[x.b1], t2[x.b2], first_of(seg2(t, x), t1[x.b1]), first_of(seg1(t, x), t2[x.b2])) && !(x.rev && (seg1(t, x).contains(q) || seg2(t, x).contains(q))) {
        assert(b.nd(q).predecessor == a.nd(q).predecessor) by { reveal(only_pred); }
    }
}
pub proof fn lem_kept_piece(a: &LocalSearch, b: &LocalSearch, t: Tours, x: Xch, r: int, lo: int, hi: int)
    requires repr(a, t), xch_ok(t, x), rewired(a, b, t, x), 0 <= r < t.len(), 0 <= lo <= hi <= t[r].len(), outside(x, r, lo, hi),
        x.r1 == x.r2 ==> x.b1 < x.a2
    ensures kept_in(a, b, t[r], lo, hi)
{
    let s = t[r];
    assert forall|k: int| lo <= k < hi implies (k < hi - 1 ==> b.succ(#[trigger] s[k]) == a.succ(s[k])) && (k > lo ==> b.pred(s[k]) == a.pred(s[k])) by { lem_kept_at(a, b, t, x, r, k); }
}
pub proof fn lem_end_links(a: &LocalSearch, b: &LocalSearch, t: Tours, x: Xch, r: int)
    requires repr(a, t), xch_ok(t, x), rewired(a, b, t, x), r == x.r1 || r == x.r2
    ensures b.pred(t[r][0]) == Ptr::Null, b.succ(t[r][t[r].len() - 1]) == Ptr::Null
{
    let s = t[r]; let l = s.len() - 1;
    let (t1, t2) = (t[x.r1], t[x.r2]);
    lem_pos(a, t, x.r1, x.a1 - 1); lem_pos(a, t, x.r1, x.b1); lem_pos(a, t, x.r2, x.a2 - 1); lem_pos(a, t, x.r2, x.b2);
    lem_route(a, t, r);
    lem_pos(a, t, r, 0); lem_pos(a, t, r, l);
    lem_first_final(a, t, x.r1, x.a1, x.b1, x.rev, t2[x.a2 - 1], t2[x.b2]);
    lem_first_final(a, t, x.r2, x.a2, x.b2, x.rev, t1[x.a1 - 1], t1[x.b1]);
    lem_not_in_seg(a, t, x.r1, x.a1, x.b1, x.rev, s[0]); lem_not_in_seg(a, t, x.r2, x.a2, x.b2, x.rev, s[0]);
    lem_not_in_seg(a, t, x.r1, x.a1, x.b1, x.rev, s[l]); lem_not_in_seg(a, t, x.r2, x.a2, x.b2, x.rev, s[l]);
    assert(b.nd(s[0]).predecessor == a.nd(s[0]).predecessor) by { reveal(only_pred); }
    assert(b.nd(s[l]).successor == a.nd(s[l]).successor) by { reveal(only_succ); }
}
// an unreversed stretch keeps its inner links
pub proof fn lem_seg_path(a: &LocalSearch, b: &LocalSearch, t: Tours, x: Xch, first: bool)
    requires repr(a, t), xch_ok(t, x), rewired(a, b, t, x), !x.rev, x.r1 == x.r2 ==> x.b1 < x.a2
    ensures first ==> path(b, seg1(t, x)), !first ==> path(b, seg2(t, x))
{
    let (r, lo, hi) = if first { (x.r1, x.a1, x.b1) } else { (x.r2, x.a2, x.b2) };
    let s = t[r];
    assert forall|k: int| lo <= k < hi implies (k < hi - 1 ==> b.succ(#[trigger] s[k]) == a.succ(s[k])) && (k > lo ==> b.pred(s[k]) == a.pred(s[k])) by { lem_kept_at(a, b, t, x, r, k); }
    lem_path_sub(a, b, t, r, lo, hi);
}
pub proof fn lem_links_only(a: &LocalSearch, b: &LocalSearch, t: Tours, x: Xch)
    requires repr(a, t), xch_ok(t, x), rewired(a, b, t, x)
    ensures links_only(*a, *b, t[x.r1], t[x.r2])
{
    lem_shape_linked(*a, *b);
    let (t1, t2) = (t[x.r1], t[x.r2]);
    lem_pos(a, t, x.r1, x.a1 - 1); lem_pos(a, t, x.r1, x.b1); lem_pos(a, t, x.r2, x.a2 - 1); lem_pos(a, t, x.r2, x.b2);
    let (s1, s2) = (t1.subrange(x.a1, x.b1), t2.subrange(x.a2, x.b2));
    assert forall|q: Ptr| #[trigger] s1.contains(q) implies t1.contains(q) by { let k = choose|k: int| 0 <= k < s1.len() && s1[k] == q; assert(t1[x.a1 + k] == q); }
    assert forall|q: Ptr| #[trigger] s2.contains(q) implies t2.contains(q) by { let k = choose|k: int| 0 <= k < s2.len() && s2[k] == q; assert(t2[x.a2 + k] == q); }
    assert(relinked(*a, *b, t1, t2)) by {
        reveal(relinked);
        assert forall|q: Ptr| a.live(q) implies (#[trigger] b.nd(q) == LinkNode { successor: b.nd(q).successor, predecessor: b.nd(q).predecessor, ..a.nd(q) })
            && (!t1.contains(q) && !t2.contains(q) ==> b.nd(q) == a.nd(q)) by {
            if !t1.contains(q) && !t2.contains(q) {
                lem_in_rv(s1, x.rev, q); lem_in_rv(s2, x.rev, q);
                assert(t1.contains(t1[x.a1 - 1]) && t1.contains(t1[x.b1]) && t2.contains(t2[x.a2 - 1]) && t2.contains(t2[x.b2]));
                lem_not_ends(seg1(t, x), q, t1[x.b1]); lem_not_ends(seg2(t, x), q, t1[x.b1]);
                assert(!is_p(q, t1[x.a1 - 1], t2[x.a2 - 1], final_of(t1[x.a1 - 1], seg2(t, x)), final_of(t2[x.a2 - 1], seg1(t, x))));
                assert(!is_p(q, t1[x.b1], t2[x.b2], first_of(seg2(t, x), t1[x.b1]), first_of(seg1(t, x), t2[x.b2])));
                reveal(only_succ); reveal(only_pred);
            }
        }
    }
}
pub proof fn lem_not_ends(g: Tour, q: Ptr, d: Ptr)
    requires !g.contains(q)
    ensures g.len() > 0 ==> g[0] != q && g[g.len() - 1] != q
{ if g.len() > 0 { assert(g.contains(g[0])); assert(g.contains(g[g.len() - 1])); } }
pub proof fn lem_rewired(a: &LocalSearch, b: &LocalSearch, t: Tours, x: Xch)
    requires repr(a, t), xch_ok(t, x), rewired(a, b, t, x), x.r1 == x.r2 ==> x.b1 < x.a2
    ensures ready_for(*a, *b, t, x)
{
    lem_links_only(a, b, t, x);
    lem_end_links(a, b, t, x, x.r1); lem_end_links(a, b, t, x, x.r2);
    if !x.rev { lem_seg_path(a, b, t, x, true); lem_seg_path(a, b, t, x, false); }
    let (l1, l2) = (t[x.r1].len() as int, t[x.r2].len() as int);
    lem_kept_piece(a, b, t, x, x.r1, 0, x.a1);
    lem_kept_piece(a, b, t, x, x.r2, x.b2, l2);
    if x.r1 != x.r2 {
        lem_kept_piece(a, b, t, x, x.r1, x.b1, l1);
        lem_kept_piece(a, b, t, x, x.r2, 0, x.a2);
        lem_ready_inter(*a, *b, t, x);
    } else {
        lem_kept_piece(a, b, t, x, x.r1, x.b1, x.a2);
        lem_ready_intra(*a, *b, t, x);
    }
}
// ---- what an exchange costs
pub proof fn lem_xch_sums(h: &LocalSearch, t: Tours, x: Xch)
    requires xch_ok(t, x)
    ensures ({ let ctx = &h.ctx; let (t1, t2) = (t[x.r1], t[x.r2]); let (o1, o2) = (t1.subrange(x.a1, x.b1), t2.subrange(x.a2, x.b2));
        let d1 = hop(ctx, t1[x.a1 - 1], seg2(t, x), t1[x.b1]) - hop(ctx, t1[x.a1 - 1], o1, t1[x.b1]);
        let d2 = hop(ctx, t2[x.a2 - 1], seg1(t, x), t2[x.b2]) - hop(ctx, t2[x.a2 - 1], o2, t2[x.b2]);
        (x.r1 != x.r2 ==> tlen(ctx, new1(t, x)) == tlen(ctx, t1) + d1 && tlen(ctx, new2(t, x)) == tlen(ctx, t2) + d2
            && tload(ctx, new1(t, x)) == tload(ctx, t1) - tload(ctx, o1) + tload(ctx, seg2(t, x)) && tload(ctx, new2(t, x)) == tload(ctx, t2) - tload(ctx, o2) + tload(ctx, seg1(t, x)))
        && (x.r1 == x.r2 && x.b1 < x.a2 ==> tlen(ctx, new1(t, x)) == tlen(ctx, t1) + d1 + d2
            && tload(ctx, new1(t, x)) == tload(ctx, t1) - tload(ctx, o1) + tload(ctx, seg2(t, x)) - tload(ctx, o2) + tload(ctx, seg1(t, x))) })
{
    let ctx = &h.ctx; let (t1, t2) = (t[x.r1], t[x.r2]);
    if x.r1 != x.r2 { lem_splice(ctx, t1, x.a1, x.b1, seg2(t, x)); lem_splice(ctx, t2, x.a2, x.b2, seg1(t, x)); }
    else if x.b1 < x.a2 {
        let m = splice(t1, x.a2, x.b2, seg1(t, x));
        lem_splice(ctx, t1, x.a2, x.b2, seg1(t, x));
        lem_splice(ctx, m, x.a1, x.b1, seg2(t, x));
        assert(m.subrange(x.a1, x.b1) =~= t1.subrange(x.a1, x.b1));
        assert(m[x.b1] == t1[x.b1] && m[x.a1 - 1] == t1[x.a1 - 1]);
    }
}
