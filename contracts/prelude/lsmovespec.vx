@raw
// ---- what each move means
pub open spec fn at_of(t: Tours, r: int, k: int) -> Ptr { t[r][k] }
// the pair of nodes a move is tried on
pub open spec fn pair(h: &LocalSearch, t: Tours, u: Ptr, v: Ptr) -> bool {
    repr(h, t) && customer(u, h.n()) && u != v && (customer(v, h.n()) || exists|r: usize| r < h.m() && v == Ptr::Start(r))
}
pub proof fn lem_pair(h: &LocalSearch, t: Tours, u: Ptr, v: Ptr)
    requires pair(h, t, u, v)
    ensures on(h, t, u), on(h, t, v), 0 < ps(h, u) < t[rt(h, u)].len() - 1, 0 <= ps(h, v) < t[rt(h, v)].len() - 1,
        pos_facts(h, t, rt(h, u), ps(h, u)), pos_facts(h, t, rt(h, v), ps(h, v)), route_facts(h, t, rt(h, u)), route_facts(h, t, rt(h, v)),
        rt(h, u) == rt(h, v) ==> ps(h, u) != ps(h, v), customer(v, h.n()) == (ps(h, v) > 0), num(u) > 0
{
    lem_cust(h, t, u); lem_pos(h, t, rt(h, u), ps(h, u));
    if customer(v, h.n()) { lem_cust(h, t, v); lem_pos(h, t, rt(h, v), ps(h, v)); }
    else { let r = choose|r: usize| r < h.m() && v == Ptr::Start(r); lem_start(h, t, r as int); lem_pos(h, t, r as int, 0); }
}
pub open spec fn swap_xch(h: &LocalSearch, u: Ptr, v: Ptr, w1: int, w2: int) -> Xch {
    let (r1, i, r2, j) = (rt(h, u), ps(h, u), rt(h, v), ps(h, v));
    if r1 != r2 || i < j { Xch { r1: r1, a1: i, b1: i + w1, r2: r2, a2: j, b2: j + w2, rev: false } }
    else { Xch { r1: r2, a1: j, b1: j + w2, r2: r1, a2: i, b2: i + w1, rev: false } }
}
// w1 nodes from u on change places with w2 nodes from v on
pub open spec fn swap_ok(h: &LocalSearch, t: Tours, u: Ptr, v: Ptr, w1: int, w2: int) -> bool {
    let (r1, i, r2, j) = (rt(h, u), ps(h, u), rt(h, v), ps(h, v));
    i + w1 < t[r1].len() && j + w2 < t[r2].len() && 0 < j && (r1 == r2 ==> i + w1 < j || j + w2 < i)
}
// w nodes from u on move behind v
pub open spec fn reloc_xch(h: &LocalSearch, u: Ptr, v: Ptr, w: int, rev: bool) -> Xch {
    let (r1, i, r2, j) = (rt(h, u), ps(h, u), rt(h, v), ps(h, v));
    if r1 != r2 || i < j { Xch { r1: r1, a1: i, b1: i + w, r2: r2, a2: j + 1, b2: j + 1, rev: rev } }
    else { Xch { r1: r2, a1: j + 1, b1: j + 1, r2: r1, a2: i, b2: i + w, rev: rev } }
}
pub open spec fn reloc_ok(h: &LocalSearch, t: Tours, u: Ptr, v: Ptr, w: int) -> bool {
    let (r1, i, r2, j) = (rt(h, u), ps(h, u), rt(h, v), ps(h, v));
    i + w < t[r1].len() && (r1 == r2 ==> j + 1 < i || i + w <= j)
}
// one of the link sequences of a move: four times `p.successor = q; q.predecessor = p`
pub open spec fn set4(q: Ptr, p1: Ptr, q1: Ptr, p2: Ptr, q2: Ptr, p3: Ptr, q3: Ptr, p4: Ptr, q4: Ptr, d: Ptr) -> Ptr {
    if q == p4 { q4 } else if q == p3 { q3 } else if q == p2 { q2 } else if q == p1 { q1 } else { d }
}
pub open spec fn relinks(a: &LocalSearch, b: &LocalSearch, p1: Ptr, q1: Ptr, p2: Ptr, q2: Ptr, p3: Ptr, q3: Ptr, p4: Ptr, q4: Ptr) -> bool {
    same_but_nodes(*a, *b) && b.routes@ == a.routes@ && forall|q: Ptr| a.live(q) ==> (#[trigger] b.nd(q)) ==
        (LinkNode { successor: set4(q, p1, q1, p2, q2, p3, q3, p4, q4, a.nd(q).successor), predecessor: set4(q, q1, p1, q2, p2, q3, p3, q4, p4, a.nd(q).predecessor), ..a.nd(q) })
}
// short stretches, node by node
pub proof fn lem_seg(t: Tours, r: int, a: int, b: int, f: bool)
    requires 0 <= r < t.len(), 0 <= a <= b < t[r].len()
    ensures ({ let s = rv(t[r].subrange(a, b), f);
        s.len() == b - a && (b - a == 0 ==> s == Seq::<Ptr>::empty()) && (b - a == 1 ==> s == seq![t[r][a]]) && (b - a == 2 ==> s == (if f { seq![t[r][a + 1], t[r][a]] } else { seq![t[r][a], t[r][a + 1]] })) })
{
    let s = rv(t[r].subrange(a, b), f);
    if b - a == 0 { assert(s =~= Seq::<Ptr>::empty()); }
    if b - a == 1 { assert(s =~= seq![t[r][a]]); }
    if b - a == 2 { assert(s =~= (if f { seq![t[r][a + 1], t[r][a]] } else { seq![t[r][a], t[r][a + 1]] })); }
}
pub proof fn lem_sums(ctx: &Context, s: Tour)
    ensures s.len() == 0 ==> tload(ctx, s) == 0real,
        s.len() == 1 ==> tload(ctx, s) == ctx.demand(num(s[0])) && tlen(ctx, s) == 0real,
        s.len() == 2 ==> tload(ctx, s) == ctx.demand(num(s[0])) + ctx.demand(num(s[1])) && tlen(ctx, s) == ctx.d(num(s[0]), num(s[1])),
{ reveal_with_fuel(pload, 3); reveal_with_fuel(plen, 3); }
// a path of at most two nodes
pub proof fn lem_path2(b: &LocalSearch, s: Tour)
    requires s.len() <= 2, s.len() == 2 ==> joined(b, s[0], s[1])
    ensures path(b, s)
{ }
pub proof fn lem_only(a: &LocalSearch, b: &LocalSearch, t: Tours, x: Xch)
    requires
        forall|q: Ptr| a.live(q) && !is_p(q, t[x.r1][x.a1 - 1], t[x.r2][x.a2 - 1], final_of(t[x.r1][x.a1 - 1], seg2(t, x)), final_of(t[x.r2][x.a2 - 1], seg1(t, x)))
            && !(x.rev && (seg1(t, x).contains(q) || seg2(t, x).contains(q))) ==> (#[trigger] b.nd(q)).successor == a.nd(q).successor,
        forall|q: Ptr| a.live(q) && !is_p(q, t[x.r1][x.b1], t[x.r2][x.b2], first_of(seg2(t, x), t[x.r1][x.b1]), first_of(seg1(t, x), t[x.r2][x.b2]))
            && !(x.rev && (seg1(t, x).contains(q) || seg2(t, x).contains(q))) ==> (#[trigger] b.nd(q)).predecessor == a.nd(q).predecessor
    ensures only_succ(a, b, t, x), only_pred(a, b, t, x)
{ reveal(only_succ); reveal(only_pred); }
#[verifier::spinoff_prover]
pub proof fn lem_swap_rewired(a: &LocalSearch, b: &LocalSearch, t: Tours, u: Ptr, v: Ptr, w1: int, w2: int)
    requires pair(a, t, u, v), 1 <= w1 <= 2, 1 <= w2 <= 2, swap_ok(a, t, u, v, w1, w2),
        ({ let (r1, i, r2, j) = (rt(a, u), ps(a, u), rt(a, v), ps(a, v));
           relinks(a, b, t[r1][i - 1], v, t[r2][j + w2 - 1], t[r1][i + w1], t[r2][j - 1], u, t[r1][i + w1 - 1], t[r2][j + w2]) })
    ensures ready_for(*a, *b, t, swap_xch(a, u, v, w1, w2)), xch_ok(t, swap_xch(a, u, v, w1, w2))
{
    lem_pair(a, t, u, v);
    let (r1, i, r2, j) = (rt(a, u), ps(a, u), rt(a, v), ps(a, v));
    let x = swap_xch(a, u, v, w1, w2);
    lem_seg(t, x.r1, x.a1, x.b1, false); lem_seg(t, x.r2, x.a2, x.b2, false);
    lem_pos(a, t, r1, i - 1); lem_pos(a, t, r1, i); lem_pos(a, t, r1, i + w1 - 1); lem_pos(a, t, r1, i + w1);
    lem_pos(a, t, r2, j - 1); lem_pos(a, t, r2, j); lem_pos(a, t, r2, j + w2 - 1); lem_pos(a, t, r2, j + w2);
    lem_only(a, b, t, x);
    lem_rewired(a, b, t, x);
}
#[verifier::spinoff_prover]
pub proof fn lem_reloc_rewired(a: &LocalSearch, b: &LocalSearch, t: Tours, u: Ptr, v: Ptr, w: int, rev: bool)
    requires pair(a, t, u, v), 1 <= w <= 2, reloc_ok(a, t, u, v, w),
        ({ let (r1, i, r2, j) = (rt(a, u), ps(a, u), rt(a, v), ps(a, v)); let l = t[r1][i + w - 1];
           if rev { relinks(a, b, t[r1][i - 1], t[r1][i + w], v, l, l, u, u, t[r2][j + 1]) && w == 2 } else { relinks(a, b, t[r1][i - 1], t[r1][i + w], v, u, l, t[r2][j + 1], l, t[r2][j + 1]) } })
    ensures ready_for(*a, *b, t, reloc_xch(a, u, v, w, rev)), xch_ok(t, reloc_xch(a, u, v, w, rev))
{
    lem_pair(a, t, u, v);
    let (r1, i, r2, j) = (rt(a, u), ps(a, u), rt(a, v), ps(a, v));
    let x = reloc_xch(a, u, v, w, rev);
    lem_seg(t, x.r1, x.a1, x.b1, rev); lem_seg(t, x.r2, x.a2, x.b2, rev);
    lem_pos(a, t, r1, i - 1); lem_pos(a, t, r1, i); lem_pos(a, t, r1, i + w - 1); lem_pos(a, t, r1, i + w);
    lem_pos(a, t, r2, j); lem_pos(a, t, r2, j + 1);
    if rev {
        assert(seg1(t, x).len() + seg2(t, x).len() == 2);
        let g = if seg1(t, x).len() == 2 { seg1(t, x) } else { seg2(t, x) };
        assert(g.contains(g[0]) && g.contains(g[1]));
        lem_path2(b, seg1(t, x)); lem_path2(b, seg2(t, x));
    }
    lem_only(a, b, t, x);
    lem_rewired(a, b, t, x);
}
// what is known about u, v and their neighbours
pub open spec fn around(h: &LocalSearch, t: Tours, u: Ptr) -> bool {
    let (r, i) = (rt(h, u), ps(h, u));
    pos_facts(h, t, r, i) && route_facts(h, t, r) && (i > 0 ==> pos_facts(h, t, r, i - 1)) && (i + 1 < t[r].len() ==> pos_facts(h, t, r, i + 1)) && (i + 2 < t[r].len() ==> pos_facts(h, t, r, i + 2))
}
pub proof fn lem_around(h: &LocalSearch, t: Tours, u: Ptr)
    requires repr(h, t), on(h, t, u)
    ensures around(h, t, u)
{
    let (r, i) = (rt(h, u), ps(h, u));
    lem_pos(h, t, r, i);
    if i > 0 { lem_pos(h, t, r, i - 1); }
    if i + 1 < t[r].len() { lem_pos(h, t, r, i + 1); }
    if i + 2 < t[r].len() { lem_pos(h, t, r, i + 2); }
}
pub proof fn lem_first_update(a: &LocalSearch, b: &LocalSearch, t: Tours, x: Xch)
    requires repr(a, t), ready_for(*a, *b, t, x)
    ensures b.shape(), b.chain(x.r1, new1(t, x)), x.r1 != x.r2 ==> b.chain(x.r2, new2(t, x))
{ }
// the two routes may be brought up to date in either order
pub open spec fn one_renewed(b: LocalSearch, c: LocalSearch, t: Tours, x: Xch) -> bool { renewed(b, c, x.r1, new1(t, x)) || (x.r1 != x.r2 && renewed(b, c, x.r2, new2(t, x))) }
pub open spec fn both_renewed(b: LocalSearch, c: LocalSearch, d: LocalSearch, t: Tours, x: Xch) -> bool { either_order(b, c, d, x.r1, new1(t, x), x.r2, new2(t, x)) }
pub proof fn lem_second_update(a: &LocalSearch, b: &LocalSearch, c: &LocalSearch, t: Tours, x: Xch)
    requires repr(a, t), ready_for(*a, *b, t, x), b.shape(), b.chain(x.r1, new1(t, x)), x.r1 != x.r2 && b.chain(x.r2, new2(t, x)), one_renewed(*b, *c, t, x)
    ensures c.shape(), renewed(*b, *c, x.r1, new1(t, x)) ==> c.chain(x.r2, new2(t, x)) && c.back(new2(t, x)),
        renewed(*b, *c, x.r2, new2(t, x)) ==> c.chain(x.r1, new1(t, x)) && c.back(new1(t, x))
{
    if renewed(*b, *c, x.r1, new1(t, x)) { lem_back_after(b, c, x.r1, x.r2, new2(t, x)); }
    if renewed(*b, *c, x.r2, new2(t, x)) { lem_back_after(b, c, x.r2, x.r1, new1(t, x)); }
}
pub proof fn lem_finish(a: &LocalSearch, b: &LocalSearch, c: &LocalSearch, d: &LocalSearch, t: Tours, x: Xch)
    requires repr(a, t), ready_for(*a, *b, t, x),
        x.r1 == x.r2 ==> renewed(*b, *d, x.r1, new1(t, x)),
        x.r1 != x.r2 ==> both_renewed(*b, *c, *d, t, x)
    ensures finished(*a, *d, exchanged(t, x), x.r1, x.r2)
{ if x.r1 == x.r2 { lem_done_intra(*a, *b, *d, t, x); } else { lem_done_inter(*a, *b, *c, *d, t, x); } }
pub proof fn lem_indices(h: &LocalSearch, r1: int, r2: int)
    requires h.shape(), 0 <= r1 < h.m(), 0 <= r2 < h.m()
    ensures h.routes@[r1].index == r1, h.routes@[r2].index == r2
{ reveal(LocalSearch::routes_ok); }
