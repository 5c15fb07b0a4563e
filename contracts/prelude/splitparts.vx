@raw
// ---- sums over the routes of a solution
pub open spec fn sumf(f: spec_fn(Seq<usize>) -> real, s: Seq<Vec<usize>>, k: int) -> real
    decreases k
{ if k <= 0 { 0real } else { sumf(f, s, k - 1) + f(s[k - 1]@) } }
pub proof fn lem_sumf_frame(f: spec_fn(Seq<usize>) -> real, a: Seq<Vec<usize>>, b: Seq<Vec<usize>>, k: int)
    requires 0 <= k <= a.len(), k <= b.len(), forall|i: int| 0 <= i < k ==> (#[trigger] a[i])@ == b[i]@
    ensures sumf(f, a, k) == sumf(f, b, k)
    decreases k
{ if k > 0 { lem_sumf_frame(f, a, b, k - 1); assert(a[k - 1]@ == b[k - 1]@); } }
pub proof fn lem_sumf_remove(f: spec_fn(Seq<usize>) -> real, a: Seq<Vec<usize>>, p: int, k: int)
    requires 0 <= p < a.len(), 0 <= k <= a.len()
    ensures k <= p ==> sumf(f, a.remove(p), k) == sumf(f, a, k), k > p ==> sumf(f, a.remove(p), k - 1) == sumf(f, a, k) - f(a[p]@)
    decreases k
{ if k > 0 { lem_sumf_remove(f, a, p, k - 1); } }
pub proof fn lem_sumf_lists(f: spec_fn(Seq<usize>) -> real, a: Seq<Vec<usize>>, b: Seq<Vec<usize>>, q: Seq<int>)
    requires lists_by(a, b, q)
    ensures sumf(f, a, a.len() as int) == sumf(f, b, b.len() as int)
    decreases b.len()
{
    if b.len() > 0 {
        let m = b.len() - 1; let p = q[m];
        assert(b[m]@ == a[q[m]]@);
        let a2 = a.remove(p); let b2 = b.drop_last();
        let q2 = Seq::new(m as nat, |i: int| if q[i] < p { q[i] } else { q[i] - 1 });
        assert(lists_by(a2, b2, q2)) by {
            assert forall|i: int| 0 <= i < m implies 0 <= #[trigger] q2[i] < m && b2[i]@ == a2[q2[i]]@ by { assert(q[i] != q[m]); assert(b[i]@ == a[q[i]]@); }
            assert forall|i: int, j: int| 0 <= i < m && 0 <= j < m && i != j implies q2[i] != q2[j] by { assert(q[i] != q[j] && q[i] != p && q[j] != p); }
            assert forall|i: int| 0 <= i < b2.len() implies (#[trigger] b2[i])@ == a2[q2[i]]@ by { assert(0 <= q2[i] < m && b2[i]@ == a2[q2[i]]@); }
        }
        lem_sumf_lists(f, a2, b2, q2);
        lem_sumf_remove(f, a, p, a.len() as int);
        lem_sumf_frame(f, b, b2, m);
    }
}
pub open spec fn usedf() -> spec_fn(Seq<usize>) -> real { |r: Seq<usize>| if r.len() > 0 { 1real } else { 0real } }
pub open spec fn costf(ctx: &Context) -> spec_fn(Seq<usize>) -> real { |r: Seq<usize>| route_pcost(ctx, r) }
// number of routes that visit a customer
pub open spec fn used(s: Seq<Vec<usize>>) -> real { sumf(usedf(), s, s.len() as int) }
pub proof fn lem_costf(ctx: &Context, s: Seq<Vec<usize>>, k: int)
    ensures sumf(costf(ctx), s, k) == total_cost(ctx, s, k)
    decreases k
{ if k > 0 { lem_costf(ctx, s, k - 1); } }
// ---- the giant tour cut into routes from its end, `end` customers are left
pub open spec fn run_of(g: Seq<usize>, r: Seq<usize>) -> bool { exists|a: int, b: int| 0 <= a <= b <= g.len() && r == #[trigger] g.subrange(a, b) }
#[verifier::opaque]
pub open spec fn runs(g: Seq<usize>, s: Seq<Vec<usize>>) -> bool { forall|r: int| 0 <= r < s.len() ==> run_of(g, (#[trigger] s[r])@) }
pub open spec fn parts(ctx: &Context, g: Seq<usize>, s: Seq<Vec<usize>>, end: int, cnt: real, cost: real) -> bool {
    &&& runs(g, s) && 0 <= end <= g.len() && used(s) == cnt && sumf(costf(ctx), s, s.len() as int) == cost
    &&& covers(g, s, end)
}
#[verifier::opaque]
pub open spec fn covers(g: Seq<usize>, s: Seq<Vec<usize>>, end: int) -> bool { forall|x: usize| #[trigger] locc(s, s.len() as int, x) + occ(g.take(end), x) == occ(g, x) }
pub proof fn lem_parts_start(ctx: &Context, g: Seq<usize>)
    ensures forall|s: Seq<Vec<usize>>| s.len() == 0 ==> #[trigger] parts(ctx, g, s, g.len() as int, 0real, 0real)
{ reveal(runs); reveal(covers); assert(g.take(g.len() as int) =~= g); }
pub proof fn lem_cut(g: Seq<usize>, begin: int, end: int, x: usize)
    requires 0 <= begin <= end <= g.len()
    ensures occ(g.take(end), x) == occ(g.take(begin), x) + occ(g.subrange(begin, end), x)
{ assert(g.take(end) =~= g.take(begin) + g.subrange(begin, end)); lem_occ_add(g.take(begin), g.subrange(begin, end), x); }
pub proof fn lem_parts_push(ctx: &Context, g: Seq<usize>, s: Seq<Vec<usize>>, v: Vec<usize>, begin: int, end: int, cnt: real, cost: real)
    requires parts(ctx, g, s, end, cnt, cost), 0 <= begin <= end, v@ == g.subrange(begin, end)
    ensures parts(ctx, g, s.push(v), begin, if begin < end { cnt + 1real } else { cnt }, cost + route_pcost(ctx, g.subrange(begin, end)))
{
    let z = s.push(v); let m = s.len() as int;
    assert(runs(g, z)) by { reveal(runs); assert forall|r: int| 0 <= r < z.len() implies run_of(g, (#[trigger] z[r])@) by { if r < m { assert(run_of(g, s[r]@)); } } }
    lem_sumf_frame(usedf(), s, z, m); lem_sumf_frame(costf(ctx), s, z, m);
    assert(covers(g, z, begin)) by { reveal(covers); assert forall|x: usize| #[trigger] locc(z, z.len() as int, x) + occ(g.take(begin), x) == occ(g, x) by { lem_cut(g, begin, end, x); lem_locc_frame(s, z, m, x); assert(locc(s, m, x) + occ(g.take(end), x) == occ(g, x)); } }
    assert(z[m]@ == v@);
    assert(sumf(usedf(), z, m + 1) == sumf(usedf(), z, m) + usedf()(v@)); assert(sumf(costf(ctx), z, m + 1) == sumf(costf(ctx), z, m) + costf(ctx)(v@));
}
pub proof fn lem_parts_insert(ctx: &Context, g: Seq<usize>, s: Seq<Vec<usize>>, v: Vec<usize>, begin: int, end: int, cnt: real, cost: real)
    requires parts(ctx, g, s, end, cnt, cost), 0 <= begin <= end, v@ == g.subrange(begin, end)
    ensures parts(ctx, g, s.insert(0, v), begin, if begin < end { cnt + 1real } else { cnt }, cost + route_pcost(ctx, g.subrange(begin, end)))
{
    let z = s.insert(0, v); let m = s.len() as int;
    assert(z.remove(0) =~= s); assert(z[0] == v);
    assert(runs(g, z)) by { reveal(runs); assert forall|r: int| 0 <= r < z.len() implies run_of(g, (#[trigger] z[r])@) by { if r > 0 { assert(z[r] == s[r - 1]); assert(run_of(g, s[r - 1]@)); } } }
    lem_sumf_remove(usedf(), z, 0, m + 1); lem_sumf_remove(costf(ctx), z, 0, m + 1);
    assert(covers(g, z, begin)) by { reveal(covers); assert forall|x: usize| #[trigger] locc(z, z.len() as int, x) + occ(g.take(begin), x) == occ(g, x) by { lem_cut(g, begin, end, x); lem_locc_remove(z, 0, m + 1, x); assert(locc(s, m, x) + occ(g.take(end), x) == occ(g, x)); } }
    assert(usedf()(v@) == if begin < end { 1real } else { 0real });
    assert(costf(ctx)(v@) == route_pcost(ctx, v@));
}
pub proof fn lem_parts_pad(ctx: &Context, g: Seq<usize>, s: Seq<Vec<usize>>, v: Vec<usize>, end: int, cnt: real, cost: real)
    requires parts(ctx, g, s, end, cnt, cost), v@.len() == 0, ctx.cap() >= 0real, ctx.d(0, 0) == 0real
    ensures parts(ctx, g, s.push(v), end, cnt, cost)
{ assert(v@ =~= g.subrange(end, end)); lem_parts_push(ctx, g, s, v, end, end, cnt, cost);
  let e = g.subrange(end, end); assert(e.len() == 0);
  assert(route_pcost(ctx, e) == 0real) by { assert(prefix_load(ctx, e, 0) == 0real); assert(prefix_dist(ctx, e, 0) == 0real); assert(ctx.pen() * 0real == 0real) by (nonlinear_arith); } }
// a giant tour of all customers
pub open spec fn giant(n: int, g: Seq<usize>) -> bool { perm(g, n - 1) }
pub proof fn lem_parts_end(ctx: &Context, n: int, g: Seq<usize>, s: Seq<Vec<usize>>, cnt: real, cost: real)
    requires parts(ctx, g, s, 0, cnt, cost), giant(n, g), 1 <= n <= usize::MAX
    ensures complete(n, s), nodes_within(n, s), len_sum(s, s.len() as int) == n - 1
{
    reveal(covers); reveal(complete);
    assert forall|x: usize| #[trigger] locc(s, s.len() as int, x) == if 0 < x < n { 1int } else { 0int } by {
        assert(g.take(0) =~= Seq::empty()); lem_occ_range(g.take(0), x); assert(occ(g.take(0), x) == 0);
        assert(locc(s, s.len() as int, x) + occ(g.take(0), x) == occ(g, x)); lem_giant_occ(n, g, x);
    }
    lem_complete(n, s); lem_complete_len(n, s);
}
pub open spec fn nodes_within(n: int, s: Seq<Vec<usize>>) -> bool { forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s[i]@.len() ==> 0 < #[trigger] s[i]@[j] < n }
pub proof fn lem_giant_occ(n: int, g: Seq<usize>, x: usize)
    requires giant(n, g), 1 <= n <= usize::MAX
    ensures occ(g, x) == if 0 < x < n { 1int } else { 0int }
{
    lem_occ_range(g, x);
    if 0 < x < n {
        let k = lem_perm_covers(g, n - 1, x); lem_occ_pos(g, k);
        if occ(g, x) > 1 { lem_occ_twice(g, x); }
    } else if occ(g, x) > 0 { let k = lem_occ_find(g, x); assert(in_1n(g[k], n - 1)); }
}
pub proof fn lem_occ_twice(g: Seq<usize>, x: usize)
    requires nodup(g)
    ensures occ(g, x) <= 1
{
    if occ(g, x) > 1 {
        let i = lem_occ_find(g, x); lem_occ_remove(g, i, x);
        let h = g.remove(i); let j = lem_occ_find(h, x);
        if j < i { assert(h[j] == g[j]); } else { assert(h[j] == g[j + 1]); }
    }
}
// ---- other ways to cut the giant tour: c are the positions, from 0 to the end
pub open spec fn cut_at(c: Seq<int>, y: int) -> bool { c.len() >= 1 && c[0] == 0 && c.last() == y && forall|i: int| 0 <= i < c.len() - 1 ==> 0 <= (#[trigger] c[i]) < c[i + 1] }
pub open spec fn cutcost(ctx: &Context, g: Seq<usize>, c: Seq<int>) -> real
    decreases c.len()
{ if c.len() <= 1 { 0real } else { cutcost(ctx, g, c.drop_last()) + route_pcost(ctx, g.subrange(c[c.len() - 2], c.last())) } }
pub proof fn lem_cut_prefix(c: Seq<int>, y: int)
    requires cut_at(c, y), c.len() > 1
    ensures cut_at(c.drop_last(), c[c.len() - 2]), c[c.len() - 2] < y, c[c.len() - 2] >= c.len() - 2
    decreases c.len()
{ let b = c.drop_last(); assert forall|i: int| 0 <= i < b.len() - 1 implies 0 <= (#[trigger] b[i]) < b[i + 1] by { assert(0 <= c[i] < c[i + 1]); } assert(0 <= c[c.len() - 2] < c[c.len() - 2 + 1]); assert(c[c.len() - 2] >= c.len() - 2) by { if c.len() > 2 { lem_cut_prefix(b, c[c.len() - 2]); } } }
// the costs of the tour are those of the routes
pub proof fn lem_seg_prefix(ctx: &Context, g: Seq<usize>, t: Tour, i: int, j: int, k: int)
    requires matches(ctx, g, t), 0 <= i < j <= g.len(), 0 <= k <= j - i
    ensures prefix_load(ctx, g.subrange(i, j), k) == t.cl[i + k]@ - t.cl[i]@, k >= 1 ==> prefix_dist(ctx, g.subrange(i, j), k) == ctx.d(0, g[i] as int) + t.cd[i + k]@ - t.cd[i + 1]@
    decreases k
{
    reveal(matches);
    if k > 0 {
        lem_seg_prefix(ctx, g, t, i, j, k - 1);
        assert(t.cl[i + k]@ == t.cl[i + k - 1]@ + ctx.demand(g[i + k - 1] as int));
        if k > 1 { assert(t.cd[i + k]@ == t.cd[i + k - 1]@ + ctx.d(g[i + k - 2] as int, g[i + k - 1] as int)); }
        else { assert(prefix_dist(ctx, g.subrange(i, j), 0) == 0real); }
    }
}
pub open spec fn round_trip(ctx: &Context) -> bool { forall|x: int| 0 <= x < ctx.n() ==> #[trigger] ctx.d(x, 0) == ctx.d(0, x) }
pub proof fn lem_seg(ctx: &Context, g: Seq<usize>, t: Tour, i: int, j: int)
    requires matches(ctx, g, t), tour_nodes(ctx, g), round_trip(ctx), ctx.pen() >= 0real, 0 <= i < j <= g.len()
    ensures sg(t, i, j) == route_pcost(ctx, g.subrange(i, j))
{
    let r = g.subrange(i, j);
    lem_seg_prefix(ctx, g, t, i, j, j - i);
    assert(dep(t, i + 1) == ctx.d(0, g[i] as int)) by { reveal(matches); assert(t.nodes[i + 1].distance_depot@ == ctx.d(g[i] as int, 0)); assert(0 < g[i] < ctx.n()); assert(ctx.d(g[i] as int, 0) == ctx.d(0, g[i] as int)); }
    assert(dep(t, j) == ctx.d(g[j - 1] as int, 0)) by { reveal(matches); assert(t.nodes[j].distance_depot@ == ctx.d(g[j - 1] as int, 0)); }
    assert(last_of(r, r.len() as int) == g[j - 1]);
    assert(t.pen == ctx.pen() && t.cap == ctx.cap()) by { reveal(matches); }
    lem_sc_max(t.pen, t.cl[j]@, t.cl[i]@, t.cap);
    assert(route_over(ctx, r) == t.cl[j]@ - t.cl[i]@ - t.cap);
}
// instances whose routes are far cheaper than the mark of the unreachable
pub open spec fn route_at_most(ctx: &Context, g: Seq<usize>, b: real, i: int, j: int) -> bool { 0real <= route_pcost(ctx, g.subrange(i, j)) <= b }
pub open spec fn moderate(ctx: &Context, g: Seq<usize>, b: real) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j <= g.len() ==> #[trigger] route_at_most(ctx, g, b, i, j)
    &&& b >= 0real && reps(b, ctx.n()) <= reach() && ctx.pen() * ctx.cap() <= reach()
}
pub open spec fn plain(ctx: &Context) -> bool {
    &&& round_trip(ctx) && ctx.d(0, 0) == 0real && ctx.pen() >= 0real && ctx.cap() >= 0real
    &&& forall|i: int| 0 <= i < ctx.n() ==> #[trigger] ctx.demand(i) >= 0real
    &&& forall|i: int, j: int| 0 <= i < ctx.n() && 0 <= j < ctx.n() ==> #[trigger] ctx.d(i, j) >= 0real
}
// the penalty for the demand of every customer exceeds the comparison tolerance
pub open spec fn weighty(ctx: &Context) -> bool { forall|i: int| 0 < i < ctx.n() ==> ctx.pen() * #[trigger] ctx.demand(i) >= EPSILON_spec() }
pub proof fn lem_calm(ctx: &Context, g: Seq<usize>, t: Tour, b: real)
    requires matches(ctx, g, t), tour_nodes(ctx, g), plain(ctx), moderate(ctx, g, b)
    ensures bounded(t, b)
{
    reveal(bounded);
    assert(tl(t) == ctx.n() && t.cap == ctx.cap() && t.pen == ctx.pen()) by { reveal(matches); }
    assert forall|i: int, j: int| 0 <= i < j < tl(t) implies 0real <= #[trigger] sg(t, i, j) <= b by { lem_seg(ctx, g, t, i, j); assert(route_at_most(ctx, g, b, i, j)); }
    assert(scap(t) <= reach()) by { reveal(sc); }
    assert forall|i: int| 1 <= i < tl(t) implies #[trigger] dep(t, i) >= 0real by { reveal(matches); assert(0 < g[i - 1] < ctx.n()); assert(t.nodes[i].distance_depot@ == ctx.d(g[i - 1] as int, 0)); assert(ctx.d(g[i - 1] as int, 0) >= 0real); }
}
pub proof fn lem_rise(ctx: &Context, g: Seq<usize>, t: Tour, i: int, j: int)
    requires matches(ctx, g, t), tour_nodes(ctx, g), plain(ctx), 0 <= i <= j < tl(t)
    ensures scl(t, i) <= scl(t, j), t.cl[i]@ <= t.cl[j]@, weighty(ctx) && i < j ==> scl(t, i) + EPSILON_spec() <= scl(t, j)
    decreases j - i
{
    reveal(matches);
    if i < j {
        lem_rise(ctx, g, t, i, j - 1);
        let x = g[j - 1] as int; assert(0 < g[j - 1] < ctx.n()); assert(ctx.demand(x) >= 0real);
        assert(t.cl[j]@ == t.cl[j - 1]@ + ctx.demand(x));
        lem_sc_sub(t.pen, t.cl[j]@, t.cl[j - 1]@); lem_sc_mono(t.pen, t.cl[j - 1]@, t.cl[j]@);
        assert(t.pen * (t.cl[j]@ - t.cl[j - 1]@) == ctx.pen() * ctx.demand(x));
    }
}
pub proof fn lem_rising(ctx: &Context, g: Seq<usize>, t: Tour)
    requires matches(ctx, g, t), tour_nodes(ctx, g), plain(ctx)
    ensures rising(t), weighty(ctx) ==> steep(t)
{
    reveal(rising); reveal(steep);
    assert forall|i: int, j: int| 0 <= i <= j < tl(t) implies #[trigger] scl(t, i) <= #[trigger] scl(t, j) by { lem_rise(ctx, g, t, i, j); }
    if weighty(ctx) { assert forall|i: int, j: int| 0 <= i < j < tl(t) implies #[trigger] scl(t, i) + EPSILON_spec() <= #[trigger] scl(t, j) by { lem_rise(ctx, g, t, i, j); } }
}
// ---- rows of the table
// row q holds the costs of paths with one route more than those of row p, d their predecessors
#[verifier::opaque]
pub open spec fn linked(p: Seq<R>, q: Seq<R>, d: Seq<usize>, k: int) -> bool { forall|y: int| 1 <= y < q.len() && #[trigger] q[y]@ <= reach() ==> k <= d[y] < y && p[d[y] as int]@ <= reach() }
// ... and the costs are those of the paths
#[verifier::opaque]
pub open spec fn exact_to(t: Tour, p: Seq<R>, q: Seq<R>, d: Seq<usize>, k: int, m: int) -> bool { forall|y: int| k < y < m ==> k <= d[y] < y && #[trigger] q[y]@ == fx(t, p, d[y] as int, y) }
#[verifier::opaque]
pub open spec fn least_to(t: Tour, p: Seq<R>, q: Seq<R>, k: int, m: int) -> bool { forall|y: int, c: int| k <= c < y < m ==> #[trigger] q[y]@ <= #[trigger] fx(t, p, c, y) + slk(tl(t)) }
#[verifier::opaque]
pub open spec fn low_to(q: Seq<R>, k: int, m: int, v: real) -> bool { forall|y: int| k <= y < m ==> 0real <= #[trigger] q[y]@ <= v }
pub proof fn lem_row_step(t: Tour, p: Seq<R>, p2: Seq<R>, q: Seq<R>, q2: Seq<R>, d: Seq<usize>, d2: Seq<usize>, k: int, i: int, f: int)
    requires exact_to(t, p, q, d, k, i), 0 <= k <= f < i < q.len(), q.len() == d.len(), p2.len() == p.len(), i < tl(t), p.len() == tl(t), forall|j: int| 0 <= j < i ==> #[trigger] p[j] == p2[j],
        q2.len() == q.len(), d2.len() == d.len(), forall|j: int| 0 <= j < i ==> #[trigger] q[j] == q2[j], forall|j: int| 0 <= j < i ==> #[trigger] d[j] == d2[j],
        d2[i] == f, q2[i]@ == fx(t, p, f, i),
    ensures exact_to(t, p2, q2, d2, k, i + 1), least_to(t, p, q, k, i) && least(t, p, fx(t, p, f, i), true, 0real, k, i) ==> least_to(t, p2, q2, k, i + 1)
{
    reveal(exact_to); reveal(least_to);
    assert forall|y: int| k < y < i + 1 implies k <= d2[y] < y && #[trigger] q2[y]@ == fx(t, p2, d2[y] as int, y) by {
        assert(y < i ==> q[y]@ == q2[y]@ && d[y] == d2[y]);
        assert(d2[y] == if y < i { d[y] } else { d2[i] }); if y < i { assert(q[y]@ == q2[y]@); assert(p[d[y] as int] == p2[d[y] as int]); } else { assert(p[f] == p2[f]); }
    }
    assert(exact_to(t, p2, q2, d2, k, i + 1)) by { assert forall|y: int| k < y < i + 1 implies k <= d2[y] && d2[y] < y && q2[y]@ == fx(t, p2, d2[y] as int, y) by { let z = q2[y]@; } }
    if least_to(t, p, q, k, i) && least(t, p, fx(t, p, f, i), true, 0real, k, i) {
        assert forall|y: int, c: int| k <= c < y < i + 1 implies #[trigger] q2[y]@ <= #[trigger] fx(t, p2, c, y) + slk(tl(t)) by {
            assert(p[c] == p2[c]); assert(fx(t, p, c, y) == fx(t, p2, c, y));
            if y < i { assert(q[y] == q2[y]); } else { assert(may(t, true, 0real, c, i)); }
        }
    }
}
pub proof fn lem_exact_linked(t: Tour, p: Seq<R>, q: Seq<R>, d: Seq<usize>, k: int, b: real)
    requires exact_to(t, p, q, d, k, q.len() as int), bounded(t, b), q.len() == tl(t), 0 <= k, forall|y: int| 1 <= y <= k && y < q.len() ==> (#[trigger] q[y])@ > reach()
    ensures linked(p, q, d, k)
{
    reveal(exact_to); reveal(linked); reveal(bounded);
    assert forall|y: int| 1 <= y < q.len() && #[trigger] q[y]@ <= reach() implies k <= d[y] < y && p[d[y] as int]@ <= reach() by { assert(k < y); assert(sg(t, d[y] as int, y) >= 0real); }
}
pub proof fn lem_exact_start(t: Tour, p: Seq<R>, q: Seq<R>, d: Seq<usize>, k: int)
    ensures exact_to(t, p, q, d, k, k + 1), least_to(t, p, q, k, k + 1)
{ reveal(exact_to); reveal(least_to); }
// no cut of the first y customers is cheaper than the entry of the table
pub proof fn lem_best_row(ctx: &Context, g: Seq<usize>, t: Tour, p: Seq<R>, c: Seq<int>, y: int)
    requires matches(ctx, g, t), tour_nodes(ctx, g), round_trip(ctx), ctx.pen() >= 0real, least_to(t, p, p, 0, tl(t)), p[0]@ == 0real, cut_at(c, y), y <= g.len(), 0 <= y
    ensures p[y]@ <= cutcost(ctx, g, c) + reps(slk(tl(t)), c.len() - 1)
    decreases c.len()
{
    if c.len() > 1 {
        let x = c[c.len() - 2];
        lem_cut_prefix(c, y);
        assert(0 <= x) by { assert(0 <= c[c.len() - 2] < c[c.len() - 2 + 1]); }
        lem_best_row(ctx, g, t, p, c.drop_last(), x);
        assert(tl(t) == g.len() + 1) by { reveal(matches); }
        lem_seg(ctx, g, t, x, y);
        assert(p[y]@ <= fx(t, p, x, y) + slk(tl(t))) by { reveal(least_to); assert(p[y]@ <= fx(t, p, x, y) + slk(tl(t))); }
    }
}
pub open spec fn row_links(m: Seq<Seq<R>>, d: Seq<Seq<usize>>, r: int) -> bool { linked(m[r], m[r + 1], d[r + 1], r) }
pub open spec fn row_exact(t: Tour, m: Seq<Seq<R>>, d: Seq<Seq<usize>>, r: int) -> bool { exact_to(t, m[r], m[r + 1], d[r + 1], r, tl(t)) }
pub open spec fn row_least(t: Tour, m: Seq<Seq<R>>, r: int) -> bool { least_to(t, m[r], m[r + 1], r, tl(t)) }
pub open spec fn row_low(t: Tour, m: Seq<Seq<R>>, r: int, b: real) -> bool { low_to(m[r], r, if r == 0 { 1 } else { tl(t) }, reps(b, r)) }
#[verifier::opaque]
pub open spec fn all_links(m: Seq<Seq<R>>, d: Seq<Seq<usize>>, k: int) -> bool { forall|r: int| 0 <= r < k ==> #[trigger] row_links(m, d, r) }
#[verifier::opaque]
pub open spec fn all_exact(t: Tour, m: Seq<Seq<R>>, d: Seq<Seq<usize>>, k: int) -> bool { forall|r: int| 0 <= r < k ==> #[trigger] row_exact(t, m, d, r) }
#[verifier::opaque]
pub open spec fn all_least(t: Tour, m: Seq<Seq<R>>, k: int) -> bool { forall|r: int| 0 <= r < k ==> #[trigger] row_least(t, m, r) }
#[verifier::opaque]
pub open spec fn all_low(t: Tour, m: Seq<Seq<R>>, k: int, b: real) -> bool { forall|r: int| 0 <= r <= k ==> #[trigger] row_low(t, m, r, b) }
#[verifier::opaque]
pub open spec fn fresh_from(m: Seq<Seq<R>>, k: int) -> bool { forall|r: int| k <= r < m.len() ==> fresh(#[trigger] m[r]) }
// rows up to k are the same
pub open spec fn same_rows<T>(a: Seq<Seq<T>>, b: Seq<Seq<T>>, k: int) -> bool { a.len() == b.len() && forall|r: int| 0 <= r <= k ==> #[trigger] a[r] == b[r] }
pub proof fn lem_rows_frame(t: Tour, m: Seq<Seq<R>>, d: Seq<Seq<usize>>, m2: Seq<Seq<R>>, d2: Seq<Seq<usize>>, k: int, b: real)
    requires same_rows(m, m2, k), same_rows(d, d2, k)
    ensures all_links(m, d, k) ==> all_links(m2, d2, k), all_exact(t, m, d, k) ==> all_exact(t, m2, d2, k), all_least(t, m, k) ==> all_least(t, m2, k), all_low(t, m, k, b) ==> all_low(t, m2, k, b)
{
    reveal(all_links); reveal(all_exact); reveal(all_least); reveal(all_low);
    assert forall|r: int| 0 <= r < k implies (!row_links(m, d, r) || #[trigger] row_links(m2, d2, r)) by { assert(m[r] == m2[r] && m[r + 1] == m2[r + 1] && d[r + 1] == d2[r + 1]); }
    assert forall|r: int| 0 <= r < k implies (!row_exact(t, m, d, r) || #[trigger] row_exact(t, m2, d2, r)) by { assert(m[r] == m2[r] && m[r + 1] == m2[r + 1] && d[r + 1] == d2[r + 1]); }
    assert forall|r: int| 0 <= r < k implies (!row_least(t, m, r) || #[trigger] row_least(t, m2, r)) by { assert(m[r] == m2[r] && m[r + 1] == m2[r + 1]); }
    assert forall|r: int| 0 <= r <= k implies (!row_low(t, m, r, b) || #[trigger] row_low(t, m2, r, b)) by { assert(m[r] == m2[r]); }
}
pub proof fn lem_rows_step(t: Tour, m: Seq<Seq<R>>, d: Seq<Seq<usize>>, k: int, b: real)
    ensures all_links(m, d, k) && row_links(m, d, k) ==> all_links(m, d, k + 1), all_exact(t, m, d, k) && row_exact(t, m, d, k) ==> all_exact(t, m, d, k + 1), all_least(t, m, k) && row_least(t, m, k) ==> all_least(t, m, k + 1), all_low(t, m, k, b) && row_low(t, m, k + 1, b) ==> all_low(t, m, k + 1, b)
{ reveal(all_links); reveal(all_exact); reveal(all_least); reveal(all_low);
  if all_links(m, d, k) && row_links(m, d, k) { assert forall|r: int| 0 <= r < k + 1 implies #[trigger] row_links(m, d, r) by { if r == k { } } }
  if all_exact(t, m, d, k) && row_exact(t, m, d, k) { assert forall|r: int| 0 <= r < k + 1 implies #[trigger] row_exact(t, m, d, r) by { if r == k { } } }
  if all_least(t, m, k) && row_least(t, m, k) { assert forall|r: int| 0 <= r < k + 1 implies #[trigger] row_least(t, m, r) by { if r == k { } } }
  if all_low(t, m, k, b) && row_low(t, m, k + 1, b) { assert forall|r: int| 0 <= r <= k + 1 implies #[trigger] row_low(t, m, r, b) by { if r == k + 1 { } } } }
pub proof fn lem_best_rows(ctx: &Context, g: Seq<usize>, t: Tour, m: Seq<Seq<R>>, c: Seq<int>, y: int, k: int)
    requires matches(ctx, g, t), tour_nodes(ctx, g), round_trip(ctx), ctx.pen() >= 0real, all_least(t, m, k), m[0][0]@ == 0real, cut_at(c, y), y <= g.len(), 0 <= y, c.len() - 1 <= k
    ensures m[c.len() - 1][y]@ <= cutcost(ctx, g, c) + reps(slk(tl(t)), c.len() - 1)
    decreases c.len()
{
    if c.len() > 1 {
        let x = c[c.len() - 2]; let r = c.len() - 2;
        lem_cut_prefix(c, y);
        assert(0 <= x) by { assert(0 <= c[c.len() - 2] < c[c.len() - 2 + 1]); }
        lem_best_rows(ctx, g, t, m, c.drop_last(), x, k);
        assert(tl(t) == g.len() + 1) by { reveal(matches); }
        lem_seg(ctx, g, t, x, y);
        assert(row_least(t, m, r)) by { reveal(all_least); }
        assert(m[r + 1][y]@ <= fx(t, m[r], x, y) + slk(tl(t))) by { reveal(least_to); assert(r <= x); assert(m[r + 1][y]@ <= fx(t, m[r], x, y) + slk(tl(t))); }
    }
}
// an unreachable candidate never enters the queue that holds the start
pub proof fn lem_far(t: Tour, p: Seq<R>, b: real, i: int)
    requires bounded(t, b), rising(t), p[0]@ == 0real, p[i]@ == big(), 1 <= i, i + 1 < tl(t)
    ensures hq(t, p, i) > hq(t, p, 0) + scl(t, i) - scl(t, 0)
{
    reveal(bounded); reveal(rising);
    assert(sg(t, 0, i + 1) <= b); assert(dep(t, i + 1) >= 0real); assert(scl(t, i) <= scl(t, i + 1));
    lem_reps(b, 1, tl(t));
    assert(reps(b, 1) == reps(b, 0) + b); assert(reps(b, 0) == 0real);
    assert(b <= reach());
}
pub proof fn lem_linked_set(p: Seq<R>, q: Seq<R>, d: Seq<usize>, q2: Seq<R>, d2: Seq<usize>, k: int, to: int, from: int)
    requires linked(p, q, d, k), 1 <= to < q.len(), q.len() == d.len(), p[from]@ <= reach() || q2[to]@ > reach(), 0 <= k <= from < to, q2 == q.update(to, q2[to]), d2 == d.update(to, d2[to]), d2[to] == from
    ensures linked(p, q2, d2, k)
{ reveal(linked); assert forall|y: int| 1 <= y < q2.len() && #[trigger] q2[y]@ <= reach() implies k <= d2[y] < y && p[d2[y] as int]@ <= reach() by { if y != to { assert(q[y] == q2[y] && d2[y] == d[y]); } } }
pub proof fn lem_linked_self_set(p: Seq<R>, d: Seq<usize>, p2: Seq<R>, d2: Seq<usize>, to: int, from: int)
    requires linked(p, p, d, 0), 1 <= to < p.len(), p.len() == d.len(), p2[to]@ < p[to]@, p[from]@ <= reach() || p2[to]@ > reach(), 0 <= from < to, p2 == p.update(to, p2[to]), d2 == d.update(to, d2[to]), d2[to] == from
    ensures linked(p2, p2, d2, 0)
{ reveal(linked); assert forall|y: int| 1 <= y < p2.len() && #[trigger] p2[y]@ <= reach() implies 0 <= d2[y] < y && p2[d2[y] as int]@ <= reach() by { if y != to { assert(p[y] == p2[y] && d2[y] == d[y]); assert(p2[d[y] as int]@ <= p[d[y] as int]@); } else { assert(p2[from] == p[from]); } } }
pub proof fn lem_linked_fresh(p: Seq<R>, q: Seq<R>, d: Seq<usize>, k: int) requires fresh(q) ensures linked(p, q, d, k)
{ reveal(linked); reveal(fresh); assert forall|y: int| 1 <= y < q.len() && #[trigger] q[y]@ <= reach() implies k <= d[y] < y && p[d[y] as int]@ <= reach() by { assert(q[y]@ == big()); } }
pub proof fn lem_linked_at(p: Seq<R>, q: Seq<R>, d: Seq<usize>, k: int, y: int) requires linked(p, q, d, k), 1 <= y < q.len(), q[y]@ <= reach() ensures k <= d[y] < y, p[d[y] as int]@ <= reach()
{ reveal(linked); }
pub proof fn lem_exact_at(t: Tour, p: Seq<R>, q: Seq<R>, d: Seq<usize>, k: int, y: int) requires exact_to(t, p, q, d, k, tl(t)), k < y < tl(t) ensures k <= d[y] < y, q[y]@ == fx(t, p, d[y] as int, y)
{ reveal(exact_to); }
// what a split leaves in the individual
pub open spec fn cheapest(ctx: &Context, g: Seq<usize>, cost: real, max: int) -> bool {
    forall|c: Seq<int>| #[trigger] cut_at(c, g.len() as int) && c.len() - 1 <= max ==> cost <= cutcost(ctx, g, c) + reps(slk(ctx.n()), c.len() - 1)
}
pub open spec fn split_done(ctx: &Context, g: Seq<usize>, s: Seq<Vec<usize>>, max: int, lin: bool, cnt: real, cost: real) -> bool {
    parts(ctx, g, s, 0, cnt, cost) && cnt <= max as real && s.len() == ctx.config.num_vehicles && (lin && weighty(ctx) ==> cheapest(ctx, g, cost, max)) && (!lin ==> cheapest_light(ctx, g, cost, max))
}
pub open spec fn splits(ctx: &Context, g: Seq<usize>, s: Seq<Vec<usize>>, max: int, lin: bool) -> bool { exists|cnt: real, cost: real| split_done(ctx, g, s, max, lin, cnt, cost) }
pub proof fn lem_linked_start(p: Seq<R>, d: Seq<usize>) requires fresh(p) ensures linked(p, p, d, 0) { lem_linked_fresh(p, p, d, 0); }
pub proof fn lem_exact_linked2(ctx: &Context, g: Seq<usize>, t: Tour, p: Seq<R>, d: Seq<usize>)
    requires exact_to(t, p, p, d, 0, p.len() as int), matches(ctx, g, t), tour_nodes(ctx, g), plain(ctx), p.len() == tl(t)
    ensures linked(p, p, d, 0)
{
    reveal(exact_to); reveal(linked);
    assert forall|y: int| 1 <= y < p.len() && #[trigger] p[y]@ <= reach() implies 0 <= d[y] < y && p[d[y] as int]@ <= reach() by { assert(p[y]@ == fx(t, p, d[y] as int, y)); lem_seg_nonneg(ctx, g, t, d[y] as int, y); }
}
pub proof fn lem_dist_nonneg(ctx: &Context, g: Seq<usize>, r: Seq<usize>, k: int)
    requires plain(ctx), 0 <= k <= r.len(), forall|i: int| 0 <= i < r.len() ==> 0 < #[trigger] r[i] < ctx.n(), ctx.n() >= 1
    ensures prefix_dist(ctx, r, k) >= 0real
    decreases k
{ if k > 0 { lem_dist_nonneg(ctx, g, r, k - 1); let a = if k == 1 { 0 } else { r[k - 2] as int }; if k > 1 { assert(0 < r[k - 2] < ctx.n()); } assert(0 < r[k - 1] < ctx.n()); assert(ctx.d(a, r[k - 1] as int) >= 0real); } }
pub proof fn lem_seg_nonneg(ctx: &Context, g: Seq<usize>, t: Tour, i: int, j: int)
    requires matches(ctx, g, t), tour_nodes(ctx, g), plain(ctx), 0 <= i < j < tl(t)
    ensures sg(t, i, j) >= 0real, route_pcost(ctx, g.subrange(i, j)) >= 0real
{
    assert(tl(t) == g.len() + 1) by { reveal(matches); }
    lem_seg(ctx, g, t, i, j); let r = g.subrange(i, j);
    assert forall|k: int| 0 <= k < r.len() implies 0 < #[trigger] r[k] < ctx.n() by { assert(r[k] == g[i + k]); }
    lem_dist_nonneg(ctx, g, r, r.len() as int);
    assert(0 < r[r.len() - 1] < ctx.n()); assert(ctx.d(r[r.len() - 1] as int, 0) >= 0real);
    lem_surplus_max(ctx.pen(), route_over(ctx, r));
}
pub proof fn lem_surplus_max(p: real, x: real) requires p >= 0real ensures p * rmax(0real, x) >= 0real { assert(p * rmax(0real, x) >= 0real) by (nonlinear_arith) requires p >= 0real, rmax(0real, x) >= 0real; }
pub proof fn lem_surplus(l: real, c: real, p: real) ensures p >= 0real && l - c > 0real ==> (l - c) * p >= 0real { if p >= 0real && l - c > 0real { assert((l - c) * p >= 0real) by (nonlinear_arith) requires p >= 0real, l - c > 0real; } }
// all rows but r are the same
pub open spec fn same_but<T>(a: Seq<Seq<T>>, b: Seq<Seq<T>>, r: int) -> bool { a.len() == b.len() && forall|x: int| 0 <= x < a.len() && x != r ==> #[trigger] a[x] == b[x] }
pub proof fn lem_rows_start(t: Tour, m: Seq<Seq<R>>, d: Seq<Seq<usize>>, b: real)
    requires m.len() >= 1, m[0].len() >= 1, m[0][0]@ == 0real, fresh_rows(m, m.len() as int)
    ensures all_links(m, d, 0), all_exact(t, m, d, 0), all_least(t, m, 0), all_low(t, m, 0, b), fresh_from(m, 1), fresh(m[0])
{ reveal(all_links); reveal(all_exact); reveal(all_least); reveal(all_low); reveal(fresh_from); reveal(fresh_rows); reveal(low_to);
  assert(fresh(m[0]));
  assert forall|r: int| 0 <= r <= 0 implies #[trigger] row_low(t, m, r, b) by { assert(reps(b, 0) == 0real); assert(low_to(m[0], 0, 1, reps(b, 0))); } }
pub proof fn lem_row_fresh(m: Seq<Seq<R>>, r: int) requires fresh_from(m, r), 1 <= r < m.len() ensures fresh(m[r]), forall|y: int| 1 <= y < m[r].len() ==> (#[trigger] m[r][y])@ > reach()
{ reveal(fresh_from); assert(fresh(m[r])); reveal(fresh); assert forall|y: int| 1 <= y < m[r].len() implies (#[trigger] m[r][y])@ > reach() by { assert(m[r][y]@ == big()); } }
pub proof fn lem_low_start(q: Seq<R>, k: int, v: real) ensures low_to(q, k, k, v) { reveal(low_to); }
pub proof fn lem_low_of(t: Tour, m: Seq<Seq<R>>, k: int, b: real) requires all_low(t, m, k, b), 0 <= k ensures low_to(m[k], k, if k == 0 { 1 } else { tl(t) }, reps(b, k)) { reveal(all_low); assert(row_low(t, m, k, b)); }
pub proof fn lem_low_at(t: Tour, p: Seq<R>, b: real, k: int, f: int, i: int, hi: int)
    requires low_to(p, k, hi, reps(b, k)), k <= f < hi, f < i < tl(t), bounded(t, b), 0 <= k
    ensures 0real <= fx(t, p, f, i) <= reps(b, k + 1)
{ reveal(low_to); reveal(bounded); assert(0real <= p[f]@ <= reps(b, k)); assert(0real <= sg(t, f, i) <= b); assert(reps(b, k + 1) == reps(b, k) + b); }
pub proof fn lem_low_step(q: Seq<R>, q2: Seq<R>, k: int, i: int, v: real)
    requires low_to(q, k, i, v), forall|j: int| 0 <= j < i ==> #[trigger] q[j] == q2[j], 0real <= q2[i]@ <= v, 0 <= k
    ensures low_to(q2, k, i + 1, v)
{ reveal(low_to); assert forall|y: int| k <= y < i + 1 implies 0real <= #[trigger] q2[y]@ <= v by { if y < i { assert(q[y]@ == q2[y]@); } } }
pub proof fn lem_fresh_at(p: Seq<R>, i: int) requires fresh(p), 1 <= i < p.len() ensures p[i]@ == big() { reveal(fresh); }
pub proof fn lem_row_done(t: Tour, m: Seq<Seq<R>>, d: Seq<Seq<usize>>, m2: Seq<Seq<R>>, d2: Seq<Seq<usize>>, k: int, b: real, i: int)
    requires same_but(m, m2, k + 1), same_but(d, d2, k + 1), 0 <= k, k + 1 < m.len(), m.len() == d.len(), bounded(t, b), fresh_from(m, k + 1), fresh(m[0]), m2[k + 1].len() == tl(t), i >= tl(t),
        all_links(m, d, k), all_exact(t, m, d, k), all_low(t, m, k, b), steep(t) ==> all_least(t, m, k),
        exact_to(t, m[k], m2[k + 1], d2[k + 1], k, i), low_to(m2[k + 1], k + 1, i, reps(b, k + 1)), forall|y: int| 1 <= y <= k && y < tl(t) ==> (#[trigger] m2[k + 1][y])@ > reach(),
        steep(t) ==> least_to(t, m[k], m2[k + 1], k, i),
    ensures fresh_from(m2, k + 2), fresh(m2[0]), m2[0] == m[0], all_links(m2, d2, k + 1), all_exact(t, m2, d2, k + 1), all_low(t, m2, k + 1, b), steep(t) ==> all_least(t, m2, k + 1)
{
    assert(m[0] == m2[0]); assert(m[k] == m2[k]);
    assert(fresh_from(m2, k + 2)) by { reveal(fresh_from); assert forall|r: int| k + 2 <= r < m2.len() implies fresh(#[trigger] m2[r]) by { assert(m[r] == m2[r]); } }
    lem_rows_frame(t, m, d, m2, d2, k, b);
    lem_row_clip(t, m2[k], m2[k + 1], d2[k + 1], k, i, reps(b, k + 1));
    lem_exact_linked(t, m2[k], m2[k + 1], d2[k + 1], k, b);
    lem_rows_step(t, m2, d2, k, b);
}
pub proof fn lem_row_clip(t: Tour, p: Seq<R>, q: Seq<R>, d: Seq<usize>, k: int, i: int, v: real)
    requires i >= tl(t), exact_to(t, p, q, d, k, i), low_to(q, k + 1, i, v)
    ensures exact_to(t, p, q, d, k, tl(t)), low_to(q, k + 1, tl(t), v), least_to(t, p, q, k, i) ==> least_to(t, p, q, k, tl(t))
{ reveal(exact_to); reveal(least_to); reveal(low_to);
  assert forall|y: int| k < y < tl(t) implies k <= d[y] && d[y] < y && q[y]@ == fx(t, p, d[y] as int, y) by { let z = q[y]@; }
  if least_to(t, p, q, k, i) { assert forall|y: int, c: int| k <= c < y < tl(t) implies #[trigger] q[y]@ <= #[trigger] fx(t, p, c, y) + slk(tl(t)) by {} } }
pub proof fn lem_links_done(m: Seq<Seq<R>>, d: Seq<Seq<usize>>, m2: Seq<Seq<R>>, d2: Seq<Seq<usize>>, k: int)
    requires same_but(m, m2, k + 1), same_but(d, d2, k + 1), 0 <= k, k + 1 < m.len(), m.len() == d.len(), fresh_from(m, k + 1), fresh(m[0]), all_links(m, d, k), linked(m[k], m2[k + 1], d2[k + 1], k)
    ensures fresh_from(m2, k + 2), fresh(m2[0]), m2[0] == m[0], all_links(m2, d2, k + 1)
{
    assert(m[0] == m2[0]); assert(m[k] == m2[k]);
    reveal(all_links);
    assert forall|r: int| 0 <= r < k + 1 implies #[trigger] row_links(m2, d2, r) by { if r < k { assert(row_links(m, d, r)); assert(m[r] == m2[r] && m[r + 1] == m2[r + 1] && d[r + 1] == d2[r + 1]); } }
    reveal(fresh_from); assert forall|r: int| k + 2 <= r < m2.len() implies fresh(#[trigger] m2[r]) by { assert(m[r] == m2[r]); }
}
pub proof fn lem_low_last(t: Tour, m: Seq<Seq<R>>, k: int, b: real)
    requires all_low(t, m, k, b), k >= 1, bounded(t, b), tl(t) >= 2
    ensures m[1][tl(t) - 1]@ <= reach()
{ reveal(all_low); reveal(bounded); assert(row_low(t, m, 1, b)); reveal(low_to); assert(0real <= m[1][tl(t) - 1]@ <= reps(b, 1)); lem_reps(b, 1, tl(t)); }
pub proof fn lem_trace(t: Tour, m: Seq<Seq<R>>, d: Seq<Seq<usize>>, k: int, w: int, e: int, n: int, lin: bool)
    requires 1 <= w <= k, all_links(m, d, k), m[w][e]@ <= reach(), 1 <= e < n, m[w].len() == n, lin ==> all_exact(t, m, d, k), n == tl(t)
    ensures w - 1 <= d[w][e] < e, m[w - 1][d[w][e] as int]@ <= reach(), lin && w - 1 < e ==> m[w][e]@ == m[w - 1][d[w][e] as int]@ + sg(t, d[w][e] as int, e)
{
    reveal(all_links); assert(row_links(m, d, w - 1)); lem_linked_at(m[w - 1], m[w], d[w], w - 1, e);
    if lin { reveal(all_exact); assert(row_exact(t, m, d, w - 1)); if w - 1 < e { lem_exact_at(t, m[w - 1], m[w], d[w], w - 1, e); } }
}
pub open spec fn fleet_limit(ctx: &Context, m: u64) -> int { let l = lower_bound(ctx.problem.nodes@, ctx.cap()); if m as int >= l { m as int } else { l } }
pub proof fn lem_splits_end(ctx: &Context, n: int, g: Seq<usize>, s: Seq<Vec<usize>>, max: int, lin: bool)
    requires splits(ctx, g, s, max, lin), giant(n, g), 1 <= n <= usize::MAX, n == ctx.n()
    ensures complete(n, s), nodes_ok(ctx, s), len_sum(s, s.len() as int) == n - 1
{ let (cnt, cost) = choose|cnt: real, cost: real| split_done(ctx, g, s, max, lin, cnt, cost); lem_parts_end(ctx, n, g, s, cnt, cost); }
pub proof fn lem_sorted_end(ctx: &Context, n: int, g: Seq<usize>, a: Seq<Vec<usize>>, b: Seq<Vec<usize>>, max: int, lin: bool)
    requires splits(ctx, g, a, max, lin), giant(n, g), 1 <= n <= usize::MAX, n == ctx.n(), same_lists(a, b)
    ensures complete(n, b), nodes_ok(ctx, b), len_sum(b, b.len() as int) == n - 1, flat_all(b).len() == n - 1, runs(g, b), used(b) <= max as real, b.len() == ctx.config.num_vehicles,
        lin && weighty(ctx) ==> cheapest(ctx, g, total_cost(ctx, b, b.len() as int), max), !lin ==> cheapest_light(ctx, g, total_cost(ctx, b, b.len() as int), max)
{
    let (cnt, cost) = choose|cnt: real, cost: real| split_done(ctx, g, a, max, lin, cnt, cost); lem_parts_end(ctx, n, g, a, cnt, cost);
    let q = choose|q: Seq<int>| lists_by(a, b, q);
    assert(complete(n, b)) by { reveal(complete); assert forall|x: usize| #[trigger] locc(b, b.len() as int, x) == if 0 < x < n { 1int } else { 0int } by { lem_lists_locc(a, b, q, x); assert(locc(a, a.len() as int, x) == if 0 < x < n { 1int } else { 0int }); } }
    lem_complete(n, b); lem_complete_len(n, b); lem_flat_len(b, b.len() as int);
    lem_sumf_lists(usedf(), a, b, q); lem_sumf_lists(costf(ctx), a, b, q); lem_costf(ctx, b, b.len() as int);
    assert(runs(g, b)) by { reveal(runs); assert forall|r: int| 0 <= r < b.len() implies run_of(g, (#[trigger] b[r])@) by { assert(b[r]@ == a[q[r]]@); assert(0 <= q[r] < a.len()); assert(run_of(g, a[q[r]]@)); } }
}
