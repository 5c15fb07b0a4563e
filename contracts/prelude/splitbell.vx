@raw
// ---- Bellman split: routes within the capacity factor
pub open spec fn lw(t: Tour, i: int, j: int) -> real { t.cl[j]@ - t.cl[i]@ }
pub open spec fn cap_limit(ctx: &Context) -> real { ctx.cap() * ctx.config.split_capacity_factor@ }
#[verifier::opaque]
pub open spec fn heavier(t: Tour) -> bool { forall|i: int, j: int| 0 <= i <= j < tl(t) ==> #[trigger] t.cl[i]@ <= #[trigger] t.cl[j]@ }
// every route of the cut stays within the capacity factor
pub open spec fn fine_route(ctx: &Context, g: Seq<usize>, i: int, j: int) -> bool { route_load(ctx, g.subrange(i, j)) <= cap_limit(ctx) }
pub open spec fn light(ctx: &Context, g: Seq<usize>, c: Seq<int>) -> bool { forall|i: int| 0 <= i < c.len() - 1 ==> fine_route(ctx, g, #[trigger] c[i], c[i + 1]) }
// no cut within the capacity factor has a lower cost
pub open spec fn cheapest_light(ctx: &Context, g: Seq<usize>, cost: real, max: int) -> bool {
    forall|c: Seq<int>| #[trigger] cut_at(c, g.len() as int) && c.len() - 1 <= max && light(ctx, g, c) ==> cost <= cutcost(ctx, g, c) + reps(sc(ctx.pen(), EPSILON_spec()), max)
}
#[verifier::opaque]
pub open spec fn nolight(ctx: &Context, g: Seq<usize>, max: int) -> bool { forall|c: Seq<int>| #[trigger] cut_at(c, g.len() as int) && c.len() - 1 <= max ==> !light(ctx, g, c) }
// the costs are those of the paths, up to the tolerance for the capacity
#[verifier::opaque]
pub open spec fn near(t: Tour, p: Seq<R>, q: Seq<R>, d: Seq<usize>) -> bool { forall|y: int| 1 <= y < q.len() && #[trigger] q[y]@ <= reach() ==> fx(t, p, d[y] as int, y) <= q[y]@ + slop(t) }
// no path over one of the starts before f (or over f to an end before e) is cheaper
#[verifier::opaque]
pub open spec fn beats(t: Tour, p: Seq<R>, q: Seq<R>, k: int, lim: real, all: bool, f: int, e: int) -> bool {
    forall|c: int, y: int| k <= c < y < tl(t) && (c < f || c == f && y < e) && lw(t, c, y) <= lim && (all || p[c]@ <= reach()) ==> #[trigger] q[y]@ <= #[trigger] fx(t, p, c, y)
}
// entries of reachable ends are small and their last route is within the capacity factor
#[verifier::opaque]
pub open spec fn modest(t: Tour, q: Seq<R>, d: Seq<usize>, lim: real, v: real) -> bool { forall|y: int| 1 <= y < q.len() && #[trigger] q[y]@ <= reach() ==> q[y]@ <= v && lw(t, d[y] as int, y) <= lim }
#[verifier::opaque]
pub open spec fn lowp(p: Seq<R>, k: int, v: real) -> bool { forall|y: int| k <= y < p.len() && #[trigger] p[y]@ <= reach() ==> p[y]@ <= v }
// the reachable ends of row k are k, k + 1, ... up to some end
#[verifier::opaque]
pub open spec fn solid(t: Tour, p: Seq<R>, lim: real, k: int) -> bool {
    &&& forall|x: int, y: int| k <= x < y < tl(t) && #[trigger] p[y]@ <= reach() ==> #[trigger] p[x]@ <= reach()
    &&& k >= 1 ==> forall|y: int| k <= y < tl(t) && #[trigger] p[y]@ <= reach() ==> lw(t, y - 1, y) <= lim
}
pub open spec fn row_bell(t: Tour, m: Seq<Seq<R>>, d: Seq<Seq<usize>>, lim: real, b: real, r: int) -> bool {
    near(t, m[r], m[r + 1], d[r + 1]) && modest(t, m[r + 1], d[r + 1], lim, reps(b, r + 1)) && beats(t, m[r], m[r + 1], r, lim, false, tl(t), 0)
}
#[verifier::opaque]
pub open spec fn all_bell(t: Tour, m: Seq<Seq<R>>, d: Seq<Seq<usize>>, lim: real, b: real, k: int) -> bool { forall|r: int| 0 <= r < k ==> #[trigger] row_bell(t, m, d, lim, b, r) }
pub proof fn lem_heavier(ctx: &Context, g: Seq<usize>, t: Tour) requires matches(ctx, g, t), tour_nodes(ctx, g), plain(ctx) ensures heavier(t)
{ reveal(heavier); assert forall|i: int, j: int| 0 <= i <= j < tl(t) implies #[trigger] t.cl[i]@ <= #[trigger] t.cl[j]@ by { lem_rise(ctx, g, t, i, j); } }
// what the loop adds up for the route from i to j
pub proof fn lem_bell_cost(ctx: &Context, g: Seq<usize>, t: Tour, i: int, j: int, load: real, cost: real, extra: real)
    requires matches(ctx, g, t), tour_nodes(ctx, g), plain(ctx), 0 <= i < j < tl(t), load == lw(t, i, j), cost == t.cd[j]@ - t.cd[i + 1]@ + ctx.d(0, g[i] as int),
        extra == 0real && load - ctx.cap() <= EPSILON_spec() || extra == (load - ctx.cap()) * ctx.pen() && load - ctx.cap() >= 0real,
    ensures sg(t, i, j) - slop(t) <= cost + ctx.d(g[j - 1] as int, 0) + extra <= sg(t, i, j)
{
    assert(tl(t) == g.len() + 1 && t.pen == ctx.pen() && t.cap == ctx.cap()) by { reveal(matches); }
    assert(dep(t, i + 1) == ctx.d(0, g[i] as int)) by { reveal(matches); assert(t.nodes[i + 1].distance_depot@ == ctx.d(g[i] as int, 0)); assert(0 < g[i] < ctx.n()); assert(ctx.d(g[i] as int, 0) == ctx.d(0, g[i] as int)); }
    assert(dep(t, j) == ctx.d(g[j - 1] as int, 0)) by { reveal(matches); assert(t.nodes[j].distance_depot@ == ctx.d(g[j - 1] as int, 0)); }
    lem_sc_max(t.pen, t.cl[j]@, t.cl[i]@, t.cap);
    lem_slop(t);
    let x = t.cl[j]@ - t.cl[i]@ - t.cap;
    if x <= EPSILON_spec() { lem_sc_mono(t.pen, x, EPSILON_spec()); assert(t.pen * x <= slop(t)) by { reveal(sc); } }
    if x < 0real { lem_sc_mono(t.pen, x, 0real); assert(t.pen * x <= 0real) by { reveal(sc); assert(t.pen * 0real == 0real) by (nonlinear_arith); } } else { lem_sc_mono(t.pen, 0real, x); assert(t.pen * x >= 0real) by { reveal(sc); assert(t.pen * 0real == 0real) by (nonlinear_arith); } }
}
pub proof fn lem_slop(t: Tour) requires t.pen >= 0real ensures slop(t) >= 0real { lem_sc_mono(t.pen, 0real, EPSILON_spec()); reveal(sc); assert(t.pen * 0real == 0real) by (nonlinear_arith); }
pub proof fn lem_near_fresh(t: Tour, p: Seq<R>, q: Seq<R>, d: Seq<usize>, lim: real, v: real) requires fresh(q) ensures near(t, p, q, d), modest(t, q, d, lim, v)
{ reveal(near); reveal(modest); reveal(fresh); assert forall|y: int| 1 <= y < q.len() && #[trigger] q[y]@ <= reach() implies false by { assert(q[y]@ == big()); } }
pub proof fn lem_near_set(t: Tour, p: Seq<R>, q: Seq<R>, d: Seq<usize>, q2: Seq<R>, d2: Seq<usize>, lim: real, v: real, to: int, from: int)
    requires near(t, p, q, d), modest(t, q, d, lim, v), 1 <= to < q.len(), q.len() == d.len(), q2 == q.update(to, q2[to]), d2 == d.update(to, d2[to]), d2[to] == from, fx(t, p, from, to) <= q2[to]@ + slop(t), q2[to]@ <= v, lw(t, from, to) <= lim
    ensures near(t, p, q2, d2), modest(t, q2, d2, lim, v)
{ reveal(near); reveal(modest);
  assert forall|y: int| 1 <= y < q2.len() && #[trigger] q2[y]@ <= reach() implies fx(t, p, d2[y] as int, y) <= q2[y]@ + slop(t) by { if y != to { assert(q[y] == q2[y] && d2[y] == d[y]); assert(q[y]@ <= reach()); } }
  assert forall|y: int| 1 <= y < q2.len() && #[trigger] q2[y]@ <= reach() implies q2[y]@ <= v && lw(t, d2[y] as int, y) <= lim by { if y != to { assert(q[y] == q2[y] && d2[y] == d[y]); assert(q[y]@ <= reach()); } } }
pub proof fn lem_near_self(t: Tour, p: Seq<R>, d: Seq<usize>, p2: Seq<R>, d2: Seq<usize>, to: int, from: int)
    requires near(t, p, p, d), linked(p, p, d, 0), 1 <= to < p.len(), p.len() == d.len(), p2 == p.update(to, p2[to]), d2 == d.update(to, d2[to]), d2[to] == from, 0 <= from < to, p2[to]@ <= p[to]@, fx(t, p, from, to) <= p2[to]@ + slop(t)
    ensures near(t, p2, p2, d2)
{ reveal(near); reveal(linked);
  assert forall|y: int| 1 <= y < p2.len() && #[trigger] p2[y]@ <= reach() implies fx(t, p2, d2[y] as int, y) <= p2[y]@ + slop(t) by {
      if y != to { assert(p[y] == p2[y] && d2[y] == d[y]); assert(p[y]@ <= reach()); assert(0 <= d[y] < y); assert(p2[d[y] as int]@ <= p[d[y] as int]@); } else { assert(p2[from] == p[from]); } } }
pub proof fn lem_beats_start(t: Tour, p: Seq<R>, q: Seq<R>, k: int, lim: real, all: bool) requires 0 <= k ensures beats(t, p, q, k, lim, all, k, 0) { reveal(beats); }
pub proof fn lem_beats_first(t: Tour, p: Seq<R>, q: Seq<R>, k: int, lim: real, all: bool, f: int) requires beats(t, p, q, k, lim, all, f, 0) ensures beats(t, p, q, k, lim, all, f, f + 1) { reveal(beats); }
pub proof fn lem_beats_end(t: Tour, p: Seq<R>, q: Seq<R>, k: int, lim: real, all: bool, f: int) requires beats(t, p, q, k, lim, all, f, 0), f >= tl(t) - 1 ensures beats(t, p, q, k, lim, all, tl(t), 0) { reveal(beats); }
pub proof fn lem_beats_set(t: Tour, p: Seq<R>, q: Seq<R>, q2: Seq<R>, k: int, lim: real, f: int, e: int)
    requires beats(t, p, q, k, lim, false, f, e), k <= f < e < tl(t), q.len() == tl(t), q2 == q.update(e, q2[e]), q2[e]@ <= q[e]@, q2[e]@ <= fx(t, p, f, e)
    ensures beats(t, p, q2, k, lim, false, f, e + 1)
{ reveal(beats); assert forall|c: int, y: int| k <= c < y < tl(t) && (c < f || c == f && y < e + 1) && lw(t, c, y) <= lim && p[c]@ <= reach() implies #[trigger] q2[y]@ <= #[trigger] fx(t, p, c, y) by {
    if y == e && c == f { } else if y == e { assert(q[y]@ <= fx(t, p, c, y)); } else { assert(q2[y] == q[y]); assert(q[y]@ <= fx(t, p, c, y)); } } }
pub proof fn lem_beats_self(t: Tour, p: Seq<R>, p2: Seq<R>, lim: real, f: int, e: int)
    requires beats(t, p, p, 0, lim, true, f, e), 0 <= f < e < tl(t), p.len() == tl(t), p2 == p.update(e, p2[e]), p2[e]@ <= p[e]@, p2[e]@ <= fx(t, p, f, e)
    ensures beats(t, p2, p2, 0, lim, true, f, e + 1)
{ reveal(beats); assert forall|c: int, y: int| 0 <= c < y < tl(t) && (c < f || c == f && y < e + 1) && lw(t, c, y) <= lim implies #[trigger] p2[y]@ <= #[trigger] fx(t, p2, c, y) by {
    assert(p2[c] == p[c]); assert(fx(t, p, c, y) == fx(t, p2, c, y));
    if y == e && c == f { } else if y == e { assert(p[y]@ <= fx(t, p, c, y)); } else { assert(p2[y] == p[y]); assert(p[y]@ <= fx(t, p, c, y)); } } }
pub proof fn lem_beats_row(t: Tour, p: Seq<R>, q: Seq<R>, k: int, lim: real, all: bool, f: int, e: int)
    requires beats(t, p, q, k, lim, all, f, e), 0 <= k <= f < e <= tl(t), heavier(t), e < tl(t) ==> lw(t, f, e) > lim
    ensures beats(t, p, q, k, lim, all, f + 1, 0)
{ reveal(beats); reveal(heavier); assert forall|c: int, y: int| k <= c < y < tl(t) && (c < f + 1 || c == f + 1 && y < 0) && lw(t, c, y) <= lim && (all || p[c]@ <= reach()) implies #[trigger] q[y]@ <= #[trigger] fx(t, p, c, y) by {
    if c == f && y >= e { assert(t.cl[e]@ <= t.cl[y]@); assert(false); } } }
pub proof fn lem_beats_stop(t: Tour, p: Seq<R>, q: Seq<R>, k: int, lim: real, f: int)
    requires beats(t, p, q, k, lim, false, f, 0), solid(t, p, lim, k), 0 <= k <= f < tl(t), p[f]@ > reach()
    ensures beats(t, p, q, k, lim, false, tl(t), 0)
{ reveal(beats); reveal(solid); assert forall|c: int, y: int| k <= c < y < tl(t) && (c < tl(t) || c == tl(t) && y < 0) && lw(t, c, y) <= lim && p[c]@ <= reach() implies #[trigger] q[y]@ <= #[trigger] fx(t, p, c, y) by {
    if c >= f { if c > f { assert(p[f]@ <= reach()); } assert(false); } } }
pub proof fn lem_solid_step(t: Tour, p: Seq<R>, q: Seq<R>, d: Seq<usize>, k: int, lim: real, b: real)
    requires solid(t, p, lim, k), lowp(p, k, reps(b, k)), linked(p, q, d, k), modest(t, q, d, lim, reps(b, k + 1)), beats(t, p, q, k, lim, false, tl(t), 0), bounded(t, b), heavier(t), 0 <= k, k == 0 ==> fresh(p), p.len() == tl(t), q.len() == tl(t)
    ensures solid(t, q, lim, k + 1), lowp(q, k + 1, reps(b, k + 1))
{
    reveal(lowp); reveal(modest);
    assert forall|y: int| k + 1 <= y < q.len() && #[trigger] q[y]@ <= reach() implies q[y]@ <= reps(b, k + 1) by {}
    reveal(solid);
    assert forall|y: int| k + 1 <= y < tl(t) && #[trigger] q[y]@ <= reach() implies lw(t, y - 1, y) <= lim by {
        lem_linked_at(p, q, d, k, y); reveal(heavier); assert(t.cl[d[y] as int]@ <= t.cl[y - 1]@); assert(lw(t, d[y] as int, y) <= lim);
    }
    assert forall|x: int, y: int| k + 1 <= x < y < tl(t) && #[trigger] q[y]@ <= reach() implies #[trigger] q[x]@ <= reach() by { lem_solid_down(t, p, q, d, k, lim, b, x, y); }
}
pub proof fn lem_solid_down(t: Tour, p: Seq<R>, q: Seq<R>, d: Seq<usize>, k: int, lim: real, b: real, x: int, y: int)
    requires solid(t, p, lim, k), lowp(p, k, reps(b, k)), linked(p, q, d, k), modest(t, q, d, lim, reps(b, k + 1)), beats(t, p, q, k, lim, false, tl(t), 0), bounded(t, b), heavier(t), 0 <= k, k == 0 ==> fresh(p), p.len() == tl(t), q.len() == tl(t),
        k + 1 <= x < y < tl(t), q[y]@ <= reach()
    ensures q[x]@ <= reach()
    decreases y - x
{
    let c = d[y] as int; let z = y - 1;
    lem_linked_at(p, q, d, k, y);
    assert(lw(t, c, y) <= lim) by { reveal(modest); }
    if c < z {
        assert(lw(t, c, z) <= lim) by { reveal(heavier); assert(t.cl[z]@ <= t.cl[y]@); }
        lem_hop(t, p, q, k, lim, b, c, z);
    } else {
        assert(p[c - 1]@ <= reach() && lw(t, c - 1, c) <= lim) by { if k == 0 { lem_fresh_at(p, c); } reveal(solid); assert(p[c]@ <= reach()); assert(p[c - 1]@ <= reach()); }
        lem_hop(t, p, q, k, lim, b, c - 1, c);
    }
    if x < z { lem_solid_down(t, p, q, d, k, lim, b, x, z); }
}
pub proof fn lem_hop(t: Tour, p: Seq<R>, q: Seq<R>, k: int, lim: real, b: real, c: int, y: int)
    requires lowp(p, k, reps(b, k)), beats(t, p, q, k, lim, false, tl(t), 0), bounded(t, b), 0 <= k <= c < y < tl(t), p.len() == tl(t), p[c]@ <= reach(), lw(t, c, y) <= lim
    ensures q[y]@ <= fx(t, p, c, y) <= reps(b, k + 1) <= reach()
{
    reveal(lowp); reveal(bounded); reveal(beats); assert(p[c]@ <= reps(b, k)); assert(sg(t, c, y) <= b); assert(q[y]@ <= fx(t, p, c, y)); assert(reps(b, k + 1) == reps(b, k) + b); lem_reps(b, k + 1, tl(t));
}
pub proof fn lem_bell_first(t: Tour, m: Seq<Seq<R>>, d: Seq<Seq<usize>>, lim: real, b: real)
    requires m.len() >= 1, m[0].len() >= 1, m[0][0]@ == 0real, fresh(m[0]), tl(t) == m[0].len()
    ensures all_bell(t, m, d, lim, b, 0), solid(t, m[0], lim, 0), lowp(m[0], 0, reps(b, 0))
{
    reveal(all_bell); reveal(solid); reveal(lowp); assert(reps(b, 0) == 0real);
    assert forall|x: int, y: int| 0 <= x < y < tl(t) && #[trigger] m[0][y]@ <= reach() implies #[trigger] m[0][x]@ <= reach() by { lem_fresh_at(m[0], y); }
    assert forall|y: int| 0 <= y < m[0].len() && #[trigger] m[0][y]@ <= reach() implies m[0][y]@ <= reps(b, 0) by { if y > 0 { lem_fresh_at(m[0], y); } }
}
pub proof fn lem_bell_done(t: Tour, m: Seq<Seq<R>>, d: Seq<Seq<usize>>, m2: Seq<Seq<R>>, d2: Seq<Seq<usize>>, lim: real, b: real, k: int)
    requires all_bell(t, m, d, lim, b, k), solid(t, m[k], lim, k), lowp(m[k], k, reps(b, k)), same_but(m, m2, k + 1), same_but(d, d2, k + 1), 0 <= k, k + 1 < m.len(), m.len() == d.len(), fresh(m[0]), bounded(t, b), heavier(t),
        m[k].len() == tl(t), m2[k + 1].len() == tl(t), linked(m[k], m2[k + 1], d2[k + 1], k),
        near(t, m[k], m2[k + 1], d2[k + 1]), modest(t, m2[k + 1], d2[k + 1], lim, reps(b, k + 1)), beats(t, m[k], m2[k + 1], k, lim, false, tl(t), 0)
    ensures all_bell(t, m2, d2, lim, b, k + 1), solid(t, m2[k + 1], lim, k + 1), lowp(m2[k + 1], k + 1, reps(b, k + 1))
{
    assert(m[k] == m2[k]); lem_solid_step(t, m[k], m2[k + 1], d2[k + 1], k, lim, b);
    reveal(all_bell);
    assert forall|r: int| 0 <= r < k + 1 implies #[trigger] row_bell(t, m2, d2, lim, b, r) by { if r < k { assert(row_bell(t, m, d, lim, b, r)); assert(m[r] == m2[r] && m[r + 1] == m2[r + 1] && d[r + 1] == d2[r + 1]); } }
}
pub proof fn lem_light_last(ctx: &Context, g: Seq<usize>, t: Tour, c: Seq<int>, y: int)
    requires matches(ctx, g, t), cut_at(c, y), c.len() > 1, y <= g.len(), light(ctx, g, c)
    ensures light(ctx, g, c.drop_last()), lw(t, c[c.len() - 2], y) <= cap_limit(ctx)
{
    let b = c.drop_last(); let i = c.len() - 2;
    assert forall|j: int| 0 <= j < b.len() - 1 implies fine_route(ctx, g, #[trigger] b[j], b[j + 1]) by { assert(fine_route(ctx, g, c[j], c[j + 1])); }
    assert(fine_route(ctx, g, c[i], c[i + 1])); assert(0 <= c[i] < c[i + 1]); assert(c[i + 1] == y);
    lem_seg_prefix(ctx, g, t, c[i], y, y - c[i]);
}
pub proof fn lem_bell_row(ctx: &Context, g: Seq<usize>, t: Tour, p: Seq<R>, c: Seq<int>, y: int)
    requires matches(ctx, g, t), tour_nodes(ctx, g), round_trip(ctx), ctx.pen() >= 0real, beats(t, p, p, 0, cap_limit(ctx), true, tl(t), 0), p[0]@ == 0real, cut_at(c, y), light(ctx, g, c), 0 <= y <= g.len()
    ensures p[y]@ <= cutcost(ctx, g, c)
    decreases c.len()
{
    if c.len() > 1 {
        let x = c[c.len() - 2];
        lem_cut_prefix(c, y); lem_light_last(ctx, g, t, c, y);
        assert(0 <= x) by { assert(0 <= c[c.len() - 2] < c[c.len() - 2 + 1]); }
        lem_bell_row(ctx, g, t, p, c.drop_last(), x);
        assert(tl(t) == g.len() + 1) by { reveal(matches); }
        lem_seg(ctx, g, t, x, y);
        assert(p[y]@ <= fx(t, p, x, y)) by { reveal(beats); }
    }
}
pub proof fn lem_bell_rows(ctx: &Context, g: Seq<usize>, t: Tour, m: Seq<Seq<R>>, d: Seq<Seq<usize>>, b: real, c: Seq<int>, y: int, k: int)
    requires matches(ctx, g, t), tour_nodes(ctx, g), round_trip(ctx), ctx.pen() >= 0real, bounded(t, b), all_bell(t, m, d, cap_limit(ctx), b, k), m[0][0]@ == 0real, cut_at(c, y), light(ctx, g, c), 0 <= y <= g.len(), c.len() - 1 <= k
    ensures m[c.len() - 1][y]@ <= cutcost(ctx, g, c), m[c.len() - 1][y]@ <= reps(b, c.len() - 1) <= reach()
    decreases c.len()
{
    assert(tl(t) == g.len() + 1) by { reveal(matches); }
    if c.len() > 1 {
        let x = c[c.len() - 2]; let r = c.len() - 2;
        lem_cut_prefix(c, y); lem_light_last(ctx, g, t, c, y);
        assert(0 <= x) by { assert(0 <= c[c.len() - 2] < c[c.len() - 2 + 1]); }
        lem_bell_rows(ctx, g, t, m, d, b, c.drop_last(), x, k);
        lem_seg(ctx, g, t, x, y);
        assert(row_bell(t, m, d, cap_limit(ctx), b, r)) by { reveal(all_bell); }
        assert(m[r + 1][y]@ <= fx(t, m[r], x, y)) by { reveal(beats); assert(m[r][x]@ <= reach()); }
        assert(sg(t, x, y) <= b && b >= 0real && reps(b, tl(t)) <= reach()) by { reveal(bounded); }
        assert(reps(b, r + 1) == reps(b, r) + b); lem_reps(b, r + 1, tl(t));
    } else { assert(reps(b, 0) == 0real); }
}
pub proof fn lem_no_light(ctx: &Context, g: Seq<usize>, s: Seq<Vec<usize>>, max: int)
    requires nolight(ctx, g, max), splits(ctx, g, s, max, true)
    ensures splits(ctx, g, s, max, false)
{
    let (cnt, cost) = choose|cnt: real, cost: real| split_done(ctx, g, s, max, true, cnt, cost);
    assert(cheapest_light(ctx, g, cost, max)) by { reveal(nolight); }
    assert(split_done(ctx, g, s, max, false, cnt, cost));
}
pub proof fn lem_near_at(t: Tour, p: Seq<R>, q: Seq<R>, d: Seq<usize>, y: int) requires near(t, p, q, d), 1 <= y < q.len(), q[y]@ <= reach() ensures fx(t, p, d[y] as int, y) <= q[y]@ + slop(t) { reveal(near); }
pub proof fn lem_bell_at(t: Tour, m: Seq<Seq<R>>, d: Seq<Seq<usize>>, lim: real, b: real, k: int, w: int, e: int) requires all_bell(t, m, d, lim, b, k), 1 <= w <= k, 1 <= e < m[w].len(), m[w][e]@ <= reach() ensures fx(t, m[w - 1], d[w][e] as int, e) <= m[w][e]@ + slop(t)
{ reveal(all_bell); assert(row_bell(t, m, d, lim, b, w - 1)); lem_near_at(t, m[w - 1], m[w], d[w], e); }
pub proof fn lem_tour_step(ctx: &Context, g: Seq<usize>, t: Tour, j: int) requires matches(ctx, g, t), 1 <= j < ctx.n() ensures t.cl[j]@ == t.cl[j - 1]@ + ctx.demand(g[j - 1] as int), j >= 2 ==> t.cd[j]@ == t.cd[j - 1]@ + ctx.d(g[j - 2] as int, g[j - 1] as int) { reveal(matches); }
pub proof fn lem_low_reach(t: Tour, p: Seq<R>, k: int, b: real, c: int, y: int) requires lowp(p, k, reps(b, k)), bounded(t, b), 0 <= k <= c < y < tl(t), p.len() == tl(t), p[c]@ <= reach() ensures fx(t, p, c, y) <= reps(b, k + 1)
{ reveal(lowp); reveal(bounded); assert(p[c]@ <= reps(b, k)); assert(sg(t, c, y) <= b); assert(reps(b, k + 1) == reps(b, k) + b); }
