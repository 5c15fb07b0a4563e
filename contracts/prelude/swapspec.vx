@raw
// ---- the exchanges SWAP* considers: u at i of r1 goes behind place k of r2, v at j of r2 behind place l of r1 (i or j is 0: nobody)
pub struct Deal { pub i: int, pub k: int, pub j: int, pub l: int }
pub open spec fn deal_ok(t: Tours, r1: int, r2: int, m: Deal) -> bool {
    let (a, b) = (t[r1], t[r2]);
    &&& 0 <= r1 < t.len() && 0 <= r2 < t.len() && r1 != r2 && (m.i > 0 || m.j > 0) && m.i >= 0 && m.j >= 0
    &&& (m.i > 0 ==> m.i < a.len() - 1 && 0 <= m.k < b.len() - 1 && (m.j > 0 ==> m.k != m.j))
    &&& (m.j > 0 ==> m.j < b.len() - 1 && 0 <= m.l < a.len() - 1 && (m.i > 0 ==> m.l != m.i))
}
// tour s without its place i (0: nothing leaves), with p behind its place l (Null: nobody comes)
pub open spec fn half(s: Tour, i: int, l: int, p: Ptr) -> Tour {
    let w = if i > 0 { drop_at(s, i) } else { s };
    if p == Ptr::Null { w } else { put_after(w, if i > 0 && l > i { l - 1 } else { l }, p) }
}
pub open spec fn goer(s: Tour, i: int) -> Ptr { if i > 0 { s[i] } else { Ptr::Null } }
pub open spec fn deal1(t: Tours, r1: int, r2: int, m: Deal) -> Tour { half(t[r1], m.i, m.l, goer(t[r2], m.j)) }
pub open spec fn deal2(t: Tours, r1: int, r2: int, m: Deal) -> Tour { half(t[r2], m.j, m.k, goer(t[r1], m.i)) }
pub open spec fn dealt(t: Tours, r1: int, r2: int, m: Deal) -> Tours { t.update(r1, deal1(t, r1, r2, m)).update(r2, deal2(t, r1, r2, m)) }
// its cost
pub open spec fn half_way(ctx: &Context, s: Tour, i: int, l: int, p: Ptr) -> real {
    (if i > 0 { removal(ctx, s, i) } else { 0real }) + (if p == Ptr::Null { 0real } else if i > 0 { land_cost(ctx, s, num(p), i, l) } else { ins_cost(ctx, s, num(p), l) })
}
pub open spec fn dem(ctx: &Context, p: Ptr) -> real { if p == Ptr::Null { 0real } else { ctx.demand(num(p)) } }
pub open spec fn pen_d(h: &LocalSearch, s: Tour, q: real) -> real { rmax(0real, tover(&h.ctx, s) + q) * h.penalty_capacity@ - rmax(0real, tover(&h.ctx, s)) * h.penalty_capacity@ }
pub proof fn lem_pen_forms(h: &LocalSearch, s: Tour, q: real)
ensures pen_d(h, s, q) == h.penalty_capacity@ * (rmax(0real, tover(&h.ctx, s) + q) - rmax(0real, tover(&h.ctx, s))),
    pen_d(h, s, q) == (rmax(0real, tover(&h.ctx, s) + q) - rmax(0real, tover(&h.ctx, s))) * h.penalty_capacity@,
    pen_d(h, s, q) == h.penalty_capacity@ * rmax(0real, tover(&h.ctx, s) + q) - h.penalty_capacity@ * rmax(0real, tover(&h.ctx, s)),
{
    let a = rmax(0real, tover(&h.ctx, s) + q); let b = rmax(0real, tover(&h.ctx, s)); let p = h.penalty_capacity@;
    assert(p * (a - b) == p * a - p * b) by (nonlinear_arith);
    assert((a - b) * p == a * p - b * p) by (nonlinear_arith);
    assert(p * a == a * p) by (nonlinear_arith);
    assert(p * b == b * p) by (nonlinear_arith);
}
pub open spec fn gain(h: &LocalSearch, t: Tours, r1: int, r2: int, m: Deal) -> real {
    let (u, v) = (goer(t[r1], m.i), goer(t[r2], m.j)); let q = dem(&h.ctx, v) - dem(&h.ctx, u);
    half_way(&h.ctx, t[r1], m.i, m.l, v) + half_way(&h.ctx, t[r2], m.j, m.k, u) + pen_d(h, t[r1], q) + pen_d(h, t[r2], -q)
}
pub proof fn lem_half(ctx: &Context, s: Tour, i: int, l: int, p: Ptr)
    requires s.len() >= 2, 0 <= i < s.len() - 1, p != Ptr::Null ==> 0 <= l < s.len() - 1 && (i > 0 ==> l != i)
    ensures tlen(ctx, half(s, i, l, p)) == tlen(ctx, s) + half_way(ctx, s, i, l, p),
        tload(ctx, half(s, i, l, p)) == tload(ctx, s) - (if i > 0 { ctx.demand(num(s[i])) } else { 0real }) + dem(ctx, p),
{
    let w = if i > 0 { drop_at(s, i) } else { s };
    let none = Seq::<Ptr>::empty();
    if i > 0 {
        assert(w =~= splice(s, i, i + 1, none));
        lem_splice(ctx, s, i, i + 1, none); lem_short(ctx, s, i, i + 1);
        assert(s.subrange(i, i + 1) =~= seq![s[i]]);
    }
    if p != Ptr::Null {
        let z = if i > 0 && l > i { l - 1 } else { l };
        let one = seq![p];
        assert(put_after(w, z, p) =~= splice(w, z + 1, z + 1, one));
        lem_splice(ctx, w, z + 1, z + 1, one);
        assert(one.subrange(0, 1) =~= one); lem_short(ctx, one, 0, 1);
        assert(w.subrange(z + 1, z + 1) =~= none);
        assert(w[z] == s[l]);
        assert(w[z + 1] == if i > 0 && l == i - 1 { s[i + 1] } else { s[l + 1] });
    }
    assert(tload(ctx, none) == 0real);
}
pub proof fn lem_deal_cost(h: &LocalSearch, t: Tours, r1: int, r2: int, m: Deal)
    requires repr(h, t), deal_ok(t, r1, r2, m)
    ensures cost_of(h, dealt(t, r1, r2, m)) == cost_of(h, t) + gain(h, t, r1, r2, m)
{
    let (ctx, pen, k) = (&h.ctx, h.penalty_capacity@, t.len() as int);
    let (u, v) = (goer(t[r1], m.i), goer(t[r2], m.j));
    lem_route(h, t, r1); lem_route(h, t, r2);
    if m.i > 0 { lem_pos(h, t, r1, m.i); }
    if m.j > 0 { lem_pos(h, t, r2, m.j); }
    lem_half(ctx, t[r1], m.i, m.l, v); lem_half(ctx, t[r2], m.j, m.k, u);
    lem_total_update(ctx, pen, t, r1, deal1(t, r1, r2, m), k);
    lem_total_update(ctx, pen, t.update(r1, deal1(t, r1, r2, m)), r2, deal2(t, r1, r2, m), k);
    let q = dem(ctx, v) - dem(ctx, u);
    lem_mul_swap(pen, rmax(0real, tover(ctx, t[r1]) + q)); lem_mul_swap(pen, rmax(0real, tover(ctx, t[r1])));
    lem_mul_swap(pen, rmax(0real, tover(ctx, t[r2]) - q)); lem_mul_swap(pen, rmax(0real, tover(ctx, t[r2])));
    assert(tover(ctx, deal1(t, r1, r2, m)) == tover(ctx, t[r1]) + q);
    assert(tover(ctx, deal2(t, r1, r2, m)) == tover(ctx, t[r2]) - q);
}
pub proof fn lem_mul_swap(a: real, b: real) ensures a * b == b * a { assert(a * b == b * a) by(nonlinear_arith); }
// ---- what preprocessing left behind
#[verifier::opaque]
pub open spec fn primed(h: &LocalSearch, t: Tours, r1: int, r2: int) -> bool {
    forall|i: int| 0 < i < t[r1].len() - 1 ==> h.nd(#[trigger] t[r1][i]).delta_removal@ == removal(&h.ctx, t[r1], i) && best3(bi(h, r2, num(t[r1][i])), all_places(&h.ctx, t[r2], num(t[r1][i])))
}
pub proof fn lem_primed(a: &LocalSearch, b: &LocalSearch, c: &LocalSearch, t: Tours, r1: int, r2: int)
    requires repr(a, t), 0 <= r1 < t.len(), 0 <= r2 < t.len(), r1 != r2, prepared(a, b, t, r1, r2, t[r1].len() - 1), repr(b, t), prepared(b, c, t, r2, r1, t[r2].len() - 1), repr(c, t)
    ensures primed(c, t, r1, r2), primed(c, t, r2, r1)
{
    reveal(primed);
    assert forall|i: int| 0 < i < t[r1].len() - 1 implies c.nd(#[trigger] t[r1][i]).delta_removal@ == removal(&c.ctx, t[r1], i) && best3(bi(c, r2, num(t[r1][i])), all_places(&c.ctx, t[r2], num(t[r1][i]))) by {
        lem_pos(a, t, r1, i); lem_pos(b, t, r1, i); reveal(prep_nodes); reveal(prep_entries);
        let p = t[r1][i]; let x = num(p); assert(Ptr::Node(x as usize) == p);
        assert(at_in(a, t, p, r1, 1, t[r1].len() - 1)); assert(b.nd(p).delta_removal@ == removal(&a.ctx, t[r1], i));
        assert(!at_in(b, t, p, r2, 1, t[r2].len() - 1)); assert(c.nd(p) == b.nd(p)); assert(bi(c, r2, x) == bi(b, r2, x));
    }
    assert forall|i: int| 0 < i < t[r2].len() - 1 implies c.nd(#[trigger] t[r2][i]).delta_removal@ == removal(&c.ctx, t[r2], i) && best3(bi(c, r1, num(t[r2][i])), all_places(&c.ctx, t[r1], num(t[r2][i]))) by {
        lem_pos(b, t, r2, i); reveal(prep_nodes); reveal(prep_entries);
        let p = t[r2][i]; let x = num(p); assert(Ptr::Node(x as usize) == p);
        assert(at_in(b, t, p, r2, 1, t[r2].len() - 1)); let z = bi(c, r1, x);
    }
}
pub proof fn lem_primed_at(h: &LocalSearch, t: Tours, r1: int, r2: int, i: int)
    requires repr(h, t), 0 <= r1 < t.len(), 0 <= r2 < t.len(), r1 != r2, primed(h, t, r1, r2), 0 < i < t[r1].len() - 1
    ensures h.nd(t[r1][i]).delta_removal@ == removal(&h.ctx, t[r1], i), ({ let b = bi(h, r2, num(t[r1][i])); let l = all_places(&h.ctx, t[r2], num(t[r1][i])); best3(b, l) }),
        ({ let b = bi(h, r2, num(t[r1][i])); exists|k: int| first_is(h, t, r1, r2, i, b, k) }),
{
    reveal(primed);
    let c = num(t[r1][i]); let b = bi(h, r2, c); let l = all_places(&h.ctx, t[r2], c); let s = t[r2];
    assert(best3(b, l));
    let q = choose|q: Seq<int>| picks(b, l, q);
    lem_route(h, t, r2);
    let k = q[0];
    assert(place_of(b.locations@[0]) == l[k]);
    assert forall|x: int| 0 <= x < s.len() - 1 implies b.locations@[0].cost@ <= #[trigger] ins_cost(&h.ctx, s, c, x) by {
        assert(l[x].cost == ins_cost(&h.ctx, s, c, x));
        if q.contains(x) { let y = choose|y: int| 0 <= y < q.len() && q[y] == x; assert(y == 0 || y == 1 || y == 2); assert(place_of(b.locations@[y]) == l[q[y]]); }
    }
    assert(first_is(h, t, r1, r2, i, b, k));
}
// the first place kept is place k of the other tour, and none is cheaper
pub open spec fn first_is(h: &LocalSearch, t: Tours, r1: int, r2: int, i: int, b: ThreeBestInserts, k: int) -> bool {
    let (s, c) = (t[r2], num(t[r1][i]));
    0 <= k < s.len() - 1 && b.locations@[0].node == s[k] && b.locations@[0].cost@ == ins_cost(&h.ctx, s, c, k) && forall|x: int| 0 <= x < s.len() - 1 ==> b.locations@[0].cost@ <= #[trigger] ins_cost(&h.ctx, s, c, x)
}
// ---- the best exchange so far
pub open spec fn bm_is(h: &LocalSearch, t: Tours, r1: int, r2: int, b: BestSwapStar, m: Deal) -> bool {
    &&& deal_ok(t, r1, r2, m) && b.cost@ == gain(h, t, r1, r2, m)
    &&& (if m.i > 0 { b.u == t[r1][m.i] && b.pos_u == t[r2][m.k] && b.pos_u != Ptr::Null } else { b.pos_u == Ptr::Null })
    &&& (if m.j > 0 { b.v == t[r2][m.j] && b.pos_v == t[r1][m.l] && b.pos_v != Ptr::Null } else { b.pos_v == Ptr::Null })
}
pub open spec fn bm_ok(h: &LocalSearch, t: Tours, r1: int, r2: int, b: BestSwapStar) -> bool { b.cost@ == inf_spec() || exists|m: Deal| bm_is(h, t, r1, r2, b, m) }
// pairs of customers passing the filter
pub open spec fn worth(h: &LocalSearch, t: Tours, r1: int, r2: int, i: int, j: int) -> bool {
    let q = h.ctx.demand(num(t[r2][j])) - h.ctx.demand(num(t[r1][i]));
    removal(&h.ctx, t[r1], i) + removal(&h.ctx, t[r2], j) + pen_d(h, t[r1], q) + pen_d(h, t[r2], -q) < EPSILON_spec()
}
pub open spec fn came_before(a: int, b: int, i: int, j: int) -> bool { a < i || (a == i && b < j) }
#[verifier::opaque]
pub open spec fn pairs_done(h: &LocalSearch, t: Tours, r1: int, r2: int, c: real, i: int, j: int) -> bool {
    forall|m: Deal| #[trigger] deal_ok(t, r1, r2, m) && m.i > 0 && m.j > 0 && came_before(m.i, m.j, i, j) && worth(h, t, r1, r2, m.i, m.j) ==> c <= gain(h, t, r1, r2, m) + 2real * EPSILON_spec()
}
#[verifier::opaque]
pub open spec fn left_done(h: &LocalSearch, t: Tours, r1: int, r2: int, c: real, i: int) -> bool {
    forall|m: Deal| #[trigger] deal_ok(t, r1, r2, m) && 0 < m.i < i && m.j == 0 ==> c <= gain(h, t, r1, r2, m) + EPSILON_spec()
}
#[verifier::opaque]
pub open spec fn right_done(h: &LocalSearch, t: Tours, r1: int, r2: int, c: real, j: int) -> bool {
    forall|m: Deal| #[trigger] deal_ok(t, r1, r2, m) && 0 < m.j < j && m.i == 0 ==> c <= gain(h, t, r1, r2, m) + EPSILON_spec()
}
pub proof fn lem_done_start(h: &LocalSearch, t: Tours, r1: int, r2: int, c: real)
    ensures pairs_done(h, t, r1, r2, c, 1, 1), left_done(h, t, r1, r2, c, 1), right_done(h, t, r1, r2, c, 1)
{ reveal(pairs_done); reveal(left_done); reveal(right_done); }
pub proof fn lem_done_lower(h: &LocalSearch, t: Tours, r1: int, r2: int, c: real, d: real, i: int, j: int)
    requires d <= c
    ensures pairs_done(h, t, r1, r2, c, i, j) ==> pairs_done(h, t, r1, r2, d, i, j), left_done(h, t, r1, r2, c, i) ==> left_done(h, t, r1, r2, d, i), right_done(h, t, r1, r2, c, j) ==> right_done(h, t, r1, r2, d, j)
{ reveal(pairs_done); reveal(left_done); reveal(right_done); }
pub proof fn lem_row_done(h: &LocalSearch, t: Tours, r1: int, r2: int, c: real, i: int)
    requires pairs_done(h, t, r1, r2, c, i, t[r2].len() - 1)
    ensures pairs_done(h, t, r1, r2, c, i + 1, 1)
{ reveal(pairs_done); }
// the exchange of u at i and v at j with the places found
#[verifier::spinoff_prover]
pub proof fn lem_pair_deal(h: &LocalSearch, t: Tours, r1: int, r2: int, i: int, j: int, b: BestSwapStar, x: (Ptr, R), y: (Ptr, R), p1: real, p2: real)
    requires repr(h, t), 0 <= r1 < t.len(), 0 <= r2 < t.len(), r1 != r2, 0 < i < t[r1].len() - 1, 0 < j < t[r2].len() - 1,
        lands(&h.ctx, t[r2], num(t[r1][i]), j, x), lands(&h.ctx, t[r1], num(t[r2][j]), i, y),
        p1 == pen_d(h, t[r1], h.ctx.demand(num(t[r2][j])) - h.ctx.demand(num(t[r1][i]))), p2 == pen_d(h, t[r2], h.ctx.demand(num(t[r1][i])) - h.ctx.demand(num(t[r2][j]))),
        b.u == t[r1][i], b.v == t[r2][j], b.pos_u == x.0, b.pos_v == y.0, b.cost@ == removal(&h.ctx, t[r1], i) + p1 + x.1@ + removal(&h.ctx, t[r2], j) + p2 + y.1@,
    ensures bm_ok(h, t, r1, r2, b), forall|m: Deal| #[trigger] deal_ok(t, r1, r2, m) && m.i == i && m.j == j ==> b.cost@ <= gain(h, t, r1, r2, m) + 2real * EPSILON_spec(),
{
    let k = choose|k: int| lands_at(&h.ctx, t[r2], num(t[r1][i]), j, x, k);
    let l = choose|l: int| lands_at(&h.ctx, t[r1], num(t[r2][j]), i, y, l);
    lem_pos(h, t, r1, i); lem_pos(h, t, r2, j); lem_pos(h, t, r2, k); lem_pos(h, t, r1, l);
    assert(bm_is(h, t, r1, r2, b, Deal { i, k, j, l }));
    assert forall|m: Deal| #[trigger] deal_ok(t, r1, r2, m) && m.i == i && m.j == j implies b.cost@ <= gain(h, t, r1, r2, m) + 2real * EPSILON_spec() by {
        assert(fits(t[r2], j, m.k) && fits(t[r1], i, m.l));
        assert(x.1@ <= land_cost(&h.ctx, t[r2], num(t[r1][i]), j, m.k) + EPSILON_spec());
        assert(y.1@ <= land_cost(&h.ctx, t[r1], num(t[r2][j]), i, m.l) + EPSILON_spec());
    }
}
pub proof fn lem_pair_step(h: &LocalSearch, t: Tours, r1: int, r2: int, i: int, j: int, c: real, d: real)
    requires pairs_done(h, t, r1, r2, c, i, j), d <= c, worth(h, t, r1, r2, i, j) ==> forall|m: Deal| #[trigger] deal_ok(t, r1, r2, m) && m.i == i && m.j == j ==> d <= gain(h, t, r1, r2, m) + 2real * EPSILON_spec(),
    ensures pairs_done(h, t, r1, r2, d, i, j + 1)
{ reveal(pairs_done); }
// u at i alone moves to the first place kept
#[verifier::spinoff_prover]
pub proof fn lem_left_deal(h: &LocalSearch, t: Tours, r1: int, r2: int, i: int, b: BestSwapStar, e: ThreeBestInserts, k: int)
    requires repr(h, t), 0 <= r1 < t.len(), 0 <= r2 < t.len(), r1 != r2, 0 < i < t[r1].len() - 1, first_is(h, t, r1, r2, i, e, k),
        b.u == t[r1][i], b.pos_u == e.locations@[0].node, b.pos_v == Ptr::Null,
        b.cost@ == removal(&h.ctx, t[r1], i) + e.locations@[0].cost@ + pen_d(h, t[r1], -h.ctx.demand(num(t[r1][i]))) + pen_d(h, t[r2], h.ctx.demand(num(t[r1][i]))),
    ensures bm_ok(h, t, r1, r2, b), forall|m: Deal| #[trigger] deal_ok(t, r1, r2, m) && m.i == i && m.j == 0 ==> b.cost@ <= gain(h, t, r1, r2, m)
{
    lem_pos(h, t, r1, i); lem_pos(h, t, r2, k);
    assert(bm_is(h, t, r1, r2, b, Deal { i, k, j: 0, l: 0 }));
    assert forall|m: Deal| #[trigger] deal_ok(t, r1, r2, m) && m.i == i && m.j == 0 implies b.cost@ <= gain(h, t, r1, r2, m) by { assert(e.locations@[0].cost@ <= ins_cost(&h.ctx, t[r2], num(t[r1][i]), m.k)); }
}
#[verifier::spinoff_prover]
pub proof fn lem_right_deal(h: &LocalSearch, t: Tours, r1: int, r2: int, j: int, b: BestSwapStar, e: ThreeBestInserts, l: int)
    requires repr(h, t), 0 <= r1 < t.len(), 0 <= r2 < t.len(), r1 != r2, 0 < j < t[r2].len() - 1, first_is(h, t, r2, r1, j, e, l),
        b.v == t[r2][j], b.pos_v == e.locations@[0].node, b.pos_u == Ptr::Null,
        b.cost@ == removal(&h.ctx, t[r2], j) + e.locations@[0].cost@ + pen_d(h, t[r1], h.ctx.demand(num(t[r2][j]))) + pen_d(h, t[r2], -h.ctx.demand(num(t[r2][j]))),
    ensures bm_ok(h, t, r1, r2, b), forall|m: Deal| #[trigger] deal_ok(t, r1, r2, m) && m.j == j && m.i == 0 ==> b.cost@ <= gain(h, t, r1, r2, m)
{
    lem_pos(h, t, r2, j); lem_pos(h, t, r1, l);
    assert(bm_is(h, t, r1, r2, b, Deal { i: 0, k: 0, j, l }));
    assert forall|m: Deal| #[trigger] deal_ok(t, r1, r2, m) && m.j == j && m.i == 0 implies b.cost@ <= gain(h, t, r1, r2, m) by { assert(e.locations@[0].cost@ <= ins_cost(&h.ctx, t[r1], num(t[r2][j]), m.l)); }
}
pub proof fn lem_one_step(h: &LocalSearch, t: Tours, r1: int, r2: int, i: int, c: real, d: real)
    requires d <= c
    ensures left_done(h, t, r1, r2, c, i) && (forall|m: Deal| #[trigger] deal_ok(t, r1, r2, m) && m.i == i && m.j == 0 ==> d <= gain(h, t, r1, r2, m) + EPSILON_spec()) ==> left_done(h, t, r1, r2, d, i + 1),
        right_done(h, t, r1, r2, c, i) && (forall|m: Deal| #[trigger] deal_ok(t, r1, r2, m) && m.j == i && m.i == 0 ==> d <= gain(h, t, r1, r2, m) + EPSILON_spec()) ==> right_done(h, t, r1, r2, d, i + 1),
{ reveal(left_done); reveal(right_done); }
// what SWAP* considers: pairs passing the filter with any places, and single customers with any place
pub open spec fn considered(h: &LocalSearch, t: Tours, r1: int, r2: int, m: Deal) -> bool { deal_ok(t, r1, r2, m) && (m.i > 0 && m.j > 0 ==> worth(h, t, r1, r2, m.i, m.j)) }
pub open spec fn none_below(h: &LocalSearch, t: Tours, r1: int, r2: int, c: real) -> bool { forall|m: Deal| #[trigger] considered(h, t, r1, r2, m) ==> c <= gain(h, t, r1, r2, m) + 2real * EPSILON_spec() }
pub proof fn lem_none_below(h: &LocalSearch, t: Tours, r1: int, r2: int, c: real)
    requires pairs_done(h, t, r1, r2, c, t[r1].len() - 1, 1), left_done(h, t, r1, r2, c, t[r1].len() - 1), right_done(h, t, r1, r2, c, t[r2].len() - 1), EPSILON_spec() >= 0real
    ensures none_below(h, t, r1, r2, c)
{ reveal(pairs_done); reveal(left_done); reveal(right_done); assert forall|m: Deal| #[trigger] considered(h, t, r1, r2, m) implies c <= gain(h, t, r1, r2, m) + 2real * EPSILON_spec() by { assert(deal_ok(t, r1, r2, m)); } }
// ---- the outcome
pub open spec fn star_done(a: &LocalSearch, b: &LocalSearch, t: Tours, r1: int, r2: int, m: Deal) -> bool {
    &&& deal_ok(t, r1, r2, m) && gain(a, t, r1, r2, m) <= -EPSILON_spec() && none_below(a, t, r1, r2, gain(a, t, r1, r2, m))
    &&& repr(b, dealt(t, r1, r2, m)) && cost_of(b, dealt(t, r1, r2, m)) == cost_of(a, t) + gain(a, t, r1, r2, m)
    &&& entries_ok(b, dealt(t, r1, r2, m)) && same_setup(a, b) && empties_kept(*a, *b) && b.move_count == a.move_count + 1
}
pub proof fn lem_same_bm(h: &LocalSearch, t: Tours, r1: int, r2: int, b: BestSwapStar, c: BestSwapStar)
    requires bm_ok(h, t, r1, r2, b), c.cost@ == b.cost@, c.u == b.u, c.v == b.v, c.pos_u == b.pos_u, c.pos_v == b.pos_v
    ensures bm_ok(h, t, r1, r2, c)
{ if b.cost@ != inf_spec() { let m = choose|m: Deal| bm_is(h, t, r1, r2, b, m); assert(bm_is(h, t, r1, r2, c, m)); } }
pub open spec fn bumped(h: LocalSearch) -> LocalSearch { LocalSearch { move_count: (h.move_count + 1) as i32, ..h } }
pub proof fn lem_bumped(h: &LocalSearch, t: Tours)
    requires repr(h, t)
    ensures repr(&bumped(*h), t), quiet(h, &bumped(*h))
{
    let b = bumped(*h);
    assert(quiet_nodes(h, &b)) by { reveal(quiet_nodes); assert forall|q: Ptr| h.live(q) implies (#[trigger] b.nd(q)) == (LinkNode { last_tested: b.nd(q).last_tested, delta_removal: b.nd(q).delta_removal, ..h.nd(q) }) by { assert(b.nd(q) == h.nd(q)); } }
    assert(quiet_routes(h, &b)) by { reveal(quiet_routes); }
    lem_quiet(h, &b, t);
}
// the first node moved: the tours in between
pub proof fn lem_deal_first(h: &LocalSearch, t: Tours, r1: int, r2: int, m: Deal, b: BestSwapStar)
    requires repr(h, t), bm_is(h, t, r1, r2, b, m)
    ensures two_chains(h, r1, t[r1], r2, t[r2]), m.i > 0 ==> ins_ok(h, Ins { r1, s1: t[r1], i: m.i, r2, s2: t[r2], k: m.k }, b.u, b.pos_u),
        m.i > 0 ==> t[r1][m.i] != Ptr::Null, m.j > 0 ==> t[r2][m.j] != Ptr::Null
{
    lem_route(h, t, r1); lem_route(h, t, r2);
    if m.i > 0 { lem_pos(h, t, r1, m.i); } if m.j > 0 { lem_pos(h, t, r2, m.j); }
    assert forall|q: Ptr| #[trigger] t[r1].contains(q) implies !t[r2].contains(q) by { let x = choose|x: int| 0 <= x < t[r1].len() && t[r1][x] == q; lem_elsewhere(h, t, r1, x, r2); }
}
pub open spec fn mid1(t: Tours, r1: int, m: Deal) -> Tour { if m.i > 0 { drop_at(t[r1], m.i) } else { t[r1] } }
pub open spec fn mid2(t: Tours, r1: int, r2: int, m: Deal) -> Tour { if m.i > 0 { put_after(t[r2], m.k, t[r1][m.i]) } else { t[r2] } }
pub open spec fn second_ins(t: Tours, r1: int, r2: int, m: Deal) -> Ins {
    Ins { r1: r2, s1: mid2(t, r1, r2, m), i: if m.i > 0 && m.j > m.k { m.j + 1 } else { m.j }, r2: r1, s2: mid1(t, r1, m), k: if m.i > 0 && m.l > m.i { m.l - 1 } else { m.l } }
}
pub proof fn lem_deal_second(h: &LocalSearch, t: Tours, r1: int, r2: int, m: Deal, b: BestSwapStar, h2: &LocalSearch)
    requires bm_is(h, t, r1, r2, b, m), m.j > 0, two_chains(h2, r1, mid1(t, r1, m), r2, mid2(t, r1, r2, m))
    ensures ins_ok(h2, second_ins(t, r1, r2, m), b.v, b.pos_v)
{
    let (x, y) = (mid1(t, r1, m), mid2(t, r1, r2, m));
    assert forall|q: Ptr| #[trigger] y.contains(q) implies !x.contains(q) by { }
    let g = second_ins(t, r1, r2, m);
    assert(g.s1[g.i] == t[r2][m.j]); assert(g.s2[g.k] == t[r1][m.l]);
}
pub proof fn lem_deal_tours(t: Tours, r1: int, r2: int, m: Deal)
    requires deal_ok(t, r1, r2, m), m.i > 0 ==> t[r1][m.i] != Ptr::Null, m.j > 0 ==> t[r2][m.j] != Ptr::Null
    ensures ({ let g = second_ins(t, r1, r2, m);
        deal1(t, r1, r2, m) == (if m.j > 0 { put_after(g.s2, g.k, g.s1[g.i]) } else { g.s2 }) && deal2(t, r1, r2, m) == (if m.j > 0 { drop_at(g.s1, g.i) } else { g.s1 }) })
{
    let g = second_ins(t, r1, r2, m);
    assert(m.j > 0 ==> g.s1[g.i] == t[r2][m.j]);
    assert(deal1(t, r1, r2, m) =~= (if m.j > 0 { put_after(g.s2, g.k, g.s1[g.i]) } else { g.s2 }));
    assert(deal2(t, r1, r2, m) =~= (if m.j > 0 { drop_at(g.s1, g.i) } else { g.s1 }));
}
pub open spec fn woven(h: &LocalSearch, b: &LocalSearch, t: Tours, r1: int, r2: int, n1: Tour, n2: Tour) -> bool {
    two_chains(b, r1, n1, r2, n2) && links_only(*h, *b, t[r1], t[r2]) && same_union(t[r1], t[r2], n1, n2)
}
pub proof fn lem_woven_none(h: &LocalSearch, t: Tours, r1: int, r2: int)
    requires two_chains(h, r1, t[r1], r2, t[r2])
    ensures woven(h, h, t, r1, r2, t[r1], t[r2])
{ reveal(relinked); }
pub proof fn lem_woven_second(h: &LocalSearch, b: &LocalSearch, c: &LocalSearch, t: Tours, r1: int, r2: int, m: Deal)
    requires woven(h, b, t, r1, r2, mid1(t, r1, m), mid2(t, r1, r2, m)), ins_done(b, c, second_ins(t, r1, r2, m)), deal_ok(t, r1, r2, m), m.j > 0,
        m.i > 0 ==> t[r1][m.i] != Ptr::Null, m.j > 0 ==> t[r2][m.j] != Ptr::Null
    ensures woven(h, c, t, r1, r2, deal1(t, r1, r2, m), deal2(t, r1, r2, m))
{
    let g = second_ins(t, r1, r2, m);
    lem_deal_tours(t, r1, r2, m);
    let (n1, n2) = (deal1(t, r1, r2, m), deal2(t, r1, r2, m));
    assert forall|q: Ptr| #[trigger] n1.contains(q) implies !n2.contains(q) by { }
    assert(same_union(t[r1], t[r2], n1, n2)) by { assert forall|q: Ptr| (#[trigger] t[r1].contains(q) || t[r2].contains(q)) == (n1.contains(q) || n2.contains(q)) by { assert((g.s1.contains(q) || g.s2.contains(q)) == (n2.contains(q) || n1.contains(q))); } }
    lem_links_two(*h, *b, *c, t[r1], t[r2], g.s2, g.s1);
}
pub proof fn lem_star_done(h0: &LocalSearch, h2: &LocalSearch, b: &LocalSearch, c: &LocalSearch, d: &LocalSearch, t: Tours, r1: int, r2: int, m: Deal)
    requires repr(h0, t), repr(h2, t), entries_ok(h2, t), quiet(h0, h2), h2.customers == h0.customers, h2.correlation == h0.correlation, h2.move_count == h0.move_count, h2.move_count < i32::MAX, deal_ok(t, r1, r2, m), gain(h2, t, r1, r2, m) <= -EPSILON_spec(), none_below(h2, t, r1, r2, gain(h2, t, r1, r2, m)),
        woven(&bumped(*h2), b, t, r1, r2, deal1(t, r1, r2, m), deal2(t, r1, r2, m)), either_order(*b, *c, *d, r1, deal1(t, r1, r2, m), r2, deal2(t, r1, r2, m)),
    ensures star_done(h0, d, t, r1, r2, m)
{
    let h3 = bumped(*h2); let u = dealt(t, r1, r2, m);
    lem_bumped(h2, t);
    lem_done_both(h3, *b, *c, *d, t, r1, r2, deal1(t, r1, r2, m), deal2(t, r1, r2, m));
    lem_deal_cost(h2, t, r1, r2, m);
    lem_quiet(h0, h2, t);
    lem_entries_kept(h2, &h3, d, t, u, r1, r2);
    assert forall|x: Deal| #[trigger] considered(h0, t, r1, r2, x) implies gain(h2, t, r1, r2, m) <= gain(h0, t, r1, r2, x) + 2real * EPSILON_spec() by { assert(considered(h2, t, r1, r2, x)); }
}
