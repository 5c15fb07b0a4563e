@struct src/solver/improvement/ruin_recreate/node.rs NodeLocation
@struct src/solver/improvement/ruin_recreate/node.rs Route
@struct src/solver/improvement/ruin_recreate/mod.rs RuinRecreateSolution
@field ruined_routes: HashSet<usize>
@raw
impl<T> HashSet<T> {
    // the members in iteration order (arbitrary)
    #[verifier::external_body] pub fn listed(&self) -> (r: Vec<T>) ensures r@.to_set() == self@, forall|k: int| 0 <= k < r@.len() ==> self@.contains(#[trigger] r@[k]) { unimplemented!() }
}
impl<T> Clone for HashSet<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() } }
impl Clone for NodeLocation { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for Route { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Context {
    // fewer than 2^31 nodes (the code computes with i32)
    pub open spec fn small(&self) -> bool { self.wf() && 2 <= self.n() <= i32::MAX }
    // no insertion cost overflows f64
    #[verifier::opaque]
    pub open spec fn finite(&self) -> bool {
        forall|r: Seq<usize>, p: int, q: int, x: usize| #![trigger self.d(p, q), self.d(p, x as int), route_over(self, r)]
            r.len() < self.n() && (forall|i: int| 0 <= i < r.len() ==> 0 < #[trigger] r[i] < self.n()) && 0 <= p < self.n() && 0 <= q < self.n() && 0 < x < self.n()
            ==> self.d(p, x as int) + self.d(x as int, q) - self.d(p, q) + rmax(0real, route_over(self, r) + self.demand(x as int)) * self.pen() < fmax_spec() - EPSILON_spec()
    }
}
// ---- what a ruin & recreate solution is worth
pub open spec fn rnodes(r: Route) -> Seq<usize> { r.nodes@ }
// distance and excess load recorded for a route are those of its sequence
pub open spec fn route_ok(ctx: &Context, r: Route) -> bool {
    r.distance@ == route_dist(ctx, r.nodes@) && r.overload@ == route_over(ctx, r.nodes@)
    && forall|i: int| 0 <= i < r.nodes@.len() ==> 0 < #[trigger] r.nodes@[i] < ctx.n()
}
#[verifier::opaque]
pub open spec fn routes_ok(ctx: &Context, rs: Seq<Route>) -> bool { forall|i: int| 0 <= i < rs.len() ==> route_ok(ctx, #[trigger] rs[i]) }
// occurrences of a customer on the first k routes
pub open spec fn rocc(rs: Seq<Route>, k: int, x: usize) -> int
    decreases k
{ if k <= 0 { 0 } else { rocc(rs, k - 1, x) + occ(rs[k - 1].nodes@, x) } }
pub open spec fn total_occ(rs: Seq<Route>, un: Seq<usize>, x: usize) -> int { rocc(rs, rs.len() as int, x) + occ(un, x) }
// every customer exactly once, on a route or unassigned
#[verifier::opaque]
pub open spec fn partition(n: int, rs: Seq<Route>, un: Seq<usize>) -> bool {
    forall|x: usize| #[trigger] total_occ(rs, un, x) == if 0 < x < n { 1int } else { 0int }
}
pub open spec fn loc_is(l: NodeLocation, r: int, i: int) -> bool { l.route_index == r && l.node_index == i }
// the customers on route r are recorded at their positions
pub open spec fn loc_route(rs: Seq<Route>, locs: Seq<NodeLocation>, r: int) -> bool {
    forall|i: int| 0 <= i < rs[r].nodes@.len() ==> loc_is(#[trigger] locs[rs[r].nodes@[i] as int], r, i)
}
// the customers on route r are recorded on that route
pub open spec fn loc_home(rs: Seq<Route>, locs: Seq<NodeLocation>, r: int) -> bool {
    forall|i: int| 0 <= i < rs[r].nodes@.len() ==> (#[trigger] locs[rs[r].nodes@[i] as int]).route_index == r
}
#[verifier::opaque]
pub open spec fn located(rs: Seq<Route>, locs: Seq<NodeLocation>, except: Set<usize>) -> bool {
    forall|r: int| 0 <= r < rs.len() ==> #[trigger] loc_home(rs, locs, r) && (!except.contains(r as usize) ==> loc_route(rs, locs, r))
}
pub open spec fn rr_cost(ctx: &Context, rs: Seq<Route>, k: int) -> real
    decreases k
{ if k <= 0 { 0real } else { rr_cost(ctx, rs, k - 1) + route_pcost(ctx, rs[k - 1].nodes@) } }
#[verifier::opaque]
pub open spec fn in_fleet(s: Set<usize>, m: int) -> bool { forall|r: usize| #[trigger] s.contains(r) ==> r < m }
impl RuinRecreateSolution {
    // class invariant: a partition of the customers with exact route costs and locations on all routes but the ruined ones
    pub open spec fn ok(&self, ctx: &Context) -> bool {
        &&& routes_ok(ctx, self.routes@)
        &&& partition(ctx.n(), self.routes@, self.unassigned@)
        &&& located(self.routes@, self.locations@, self.ruined_routes@)
        &&& in_fleet(self.ruined_routes@, self.routes@.len() as int)
        &&& self.locations@.len() == ctx.n()
        &&& 1 <= self.routes@.len() <= usize::MAX
    }
    // nothing unassigned, every location exact, the cost is the cost of the routes
    pub open spec fn full(&self, ctx: &Context) -> bool {
        self.ok(ctx) && self.unassigned@.len() == 0 && self.ruined_routes@ =~= Set::<usize>::empty()
        && self.cost@ == rr_cost(ctx, self.routes@, self.routes@.len() as int)
    }
}
// ---- lemmas
pub proof fn lem_pd_insert(ctx: &Context, s: Seq<usize>, i: int, v: usize, k: int)
    requires 0 <= i <= s.len(), 0 <= k <= s.len()
    ensures
        k <= i ==> prefix_dist(ctx, s.insert(i, v), k) == prefix_dist(ctx, s, k),
        k == i ==> prefix_dist(ctx, s.insert(i, v), i + 1) == prefix_dist(ctx, s, i) + ctx.d(last_of(s, i), v as int),
        k > i ==> prefix_dist(ctx, s.insert(i, v), k + 1) == prefix_dist(ctx, s, k) + ctx.d(last_of(s, i), v as int) + ctx.d(v as int, s[i] as int) - ctx.d(last_of(s, i), s[i] as int)
    decreases k
{
    let t = s.insert(i, v);
    if k > 0 { lem_pd_insert(ctx, s, i, v, k - 1); }
    if k > i { assert(t[k] == s[k - 1]); if k - 2 >= i { assert(t[k - 1] == s[k - 2]); } else { assert(t[k - 1] == v); assert(k == i + 1); } }
    else if k > 0 { assert(t[k - 1] == s[k - 1]); if k >= 2 { assert(t[k - 2] == s[k - 2]); } }
    if k == i { assert(t[i] == v); if i > 0 { assert(t[i - 1] == s[i - 1]); } assert(prefix_dist(ctx, t, k + 1) == prefix_dist(ctx, t, k) + ctx.d(if k + 1 == 1 { 0 } else { t[k - 1] as int }, t[k] as int)); }
}
pub proof fn lem_pl_insert(ctx: &Context, s: Seq<usize>, i: int, v: usize, k: int)
    requires 0 <= i <= s.len(), 0 <= k <= s.len()
    ensures k <= i ==> prefix_load(ctx, s.insert(i, v), k) == prefix_load(ctx, s, k),
        k >= i ==> prefix_load(ctx, s.insert(i, v), k + 1) == prefix_load(ctx, s, k) + ctx.demand(v as int)
    decreases k
{
    let t = s.insert(i, v);
    if k > 0 { lem_pl_insert(ctx, s, i, v, k - 1); }
    if k > i { assert(t[k] == s[k - 1]); } else if k > 0 { assert(t[k - 1] == s[k - 1]); }
    if k == i { assert(t[i] == v); assert(prefix_load(ctx, t, k + 1) == prefix_load(ctx, t, k) + ctx.demand(t[k] as int)); }
}
pub open spec fn node_at(s: Seq<usize>, i: int) -> int { if 0 <= i < s.len() { s[i] as int } else { 0 } }
pub open spec fn insert_delta(ctx: &Context, s: Seq<usize>, i: int, v: usize) -> real {
    ctx.d(last_of(s, i), v as int) + ctx.d(v as int, node_at(s, i)) - ctx.d(last_of(s, i), node_at(s, i))
}
pub proof fn lem_route_insert(ctx: &Context, s: Seq<usize>, i: int, v: usize)
    requires 0 <= i <= s.len()
    ensures route_dist(ctx, s.insert(i, v)) == route_dist(ctx, s) + insert_delta(ctx, s, i, v),
        route_over(ctx, s.insert(i, v)) == route_over(ctx, s) + ctx.demand(v as int)
{
    let t = s.insert(i, v);
    lem_pd_insert(ctx, s, i, v, s.len() as int); lem_pl_insert(ctx, s, i, v, s.len() as int);
    if i < s.len() { assert(t.last() == s.last()); } else { assert(t.last() == v); }
}
pub proof fn lem_route_remove(ctx: &Context, s: Seq<usize>, i: int)
    requires 0 <= i < s.len()
    ensures route_dist(ctx, s.remove(i)) == route_dist(ctx, s) - ctx.d(last_of(s, i), s[i] as int) - ctx.d(s[i] as int, node_at(s, i + 1)) + ctx.d(last_of(s, i), node_at(s, i + 1)),
        route_over(ctx, s.remove(i)) == route_over(ctx, s) - ctx.demand(s[i] as int)
{
    let t = s.remove(i);
    assert(t.insert(i, s[i]) =~= s);
    lem_route_insert(ctx, t, i, s[i]);
    if i > 0 { assert(t[i - 1] == s[i - 1]); }
    if i < t.len() { assert(t[i] == s[i + 1]); }
}
pub proof fn lem_rocc_frame(a: Seq<Route>, b: Seq<Route>, k: int, x: usize)
    requires 0 <= k <= a.len(), k <= b.len(), forall|i: int| 0 <= i < k ==> (#[trigger] a[i]).nodes@ == b[i].nodes@
    ensures rocc(a, k, x) == rocc(b, k, x)
    decreases k
{ if k > 0 { lem_rocc_frame(a, b, k - 1, x); assert(a[k - 1].nodes@ == b[k - 1].nodes@); } }
pub proof fn lem_rocc_update(a: Seq<Route>, r: int, v: Route, k: int, x: usize)
    requires 0 <= r < a.len(), 0 <= k <= a.len()
    ensures rocc(a.update(r, v), k, x) == rocc(a, k, x) + if r < k { occ(v.nodes@, x) - occ(a[r].nodes@, x) } else { 0 }
    decreases k
{ if k > 0 { lem_rocc_update(a, r, v, k - 1, x); } }
pub proof fn lem_rocc_ge(a: Seq<Route>, k: int, x: usize)
    requires 0 <= k <= a.len()
    ensures rocc(a, k, x) >= 0, forall|r: int| 0 <= r < k ==> rocc(a, k, x) >= occ((#[trigger] a[r]).nodes@, x)
    decreases k
{ if k > 0 { lem_rocc_ge(a, k - 1, x); lem_occ_range(a[k - 1].nodes@, x); } }
pub proof fn lem_rocc_two(a: Seq<Route>, k: int, r: int, s: int, x: usize)
    requires 0 <= r < s < k <= a.len()
    ensures rocc(a, k, x) >= occ(a[r].nodes@, x) + occ(a[s].nodes@, x)
    decreases k
{ if s == k - 1 { lem_rocc_ge(a, k - 1, x); } else { lem_rocc_two(a, k - 1, r, s, x); lem_occ_range(a[k - 1].nodes@, x); } }
pub proof fn lem_rocc_find(a: Seq<Route>, k: int, x: usize) -> (r: int)
    requires 0 <= k <= a.len(), rocc(a, k, x) >= 1
    ensures 0 <= r < k, occ(a[r].nodes@, x) >= 1
    decreases k
{ if occ(a[k - 1].nodes@, x) >= 1 { k - 1 } else { lem_occ_range(a[k - 1].nodes@, x); lem_rocc_find(a, k - 1, x) } }
// two positions hold the same customer only if they are the same position
pub proof fn lem_distinct(n: int, rs: Seq<Route>, un: Seq<usize>, r: int, i: int, s: int, j: int)
    requires partition(n, rs, un), 0 <= r < rs.len(), 0 <= s < rs.len(), 0 <= i < rs[r].nodes@.len(), 0 <= j < rs[s].nodes@.len(), rs[r].nodes@[i] == rs[s].nodes@[j]
    ensures r == s, i == j
{
    reveal(partition);
    let x = rs[r].nodes@[i]; let m = rs.len() as int;
    assert(total_occ(rs, un, x) <= 1);
    lem_occ_range(un, x); lem_occ_pos(rs[r].nodes@, i); lem_occ_pos(rs[s].nodes@, j);
    if r < s { lem_rocc_two(rs, m, r, s, x); } else if s < r { lem_rocc_two(rs, m, s, r, x); }
    else { lem_rocc_ge(rs, m, x); if i < j { lem_occ_two(rs[r].nodes@, i, j); } else if j < i { lem_occ_two(rs[r].nodes@, j, i); } }
}
pub proof fn lem_over_forms(x: real, p: real)
    ensures x <= 0real ==> rmax(0real, x) * p == 0real, x > 0real ==> rmax(0real, x) * p == x * p, rmax(0real, x) * p == p * rmax(0real, x), x * p == p * x
{
    assert(0real * p == 0real) by (nonlinear_arith);
    let m = rmax(0real, x);
    assert(m * p == p * m) by (nonlinear_arith);
    assert(x * p == p * x) by (nonlinear_arith);
}
pub proof fn lem_un_len(ctx: &Context, rs: Seq<Route>, un: Seq<usize>)
    requires partition(ctx.n(), rs, un), 1 <= ctx.n() <= usize::MAX
    ensures un.len() < ctx.n(), forall|i: int| 0 <= i < un.len() ==> 0 < #[trigger] un[i] < ctx.n(),
        forall|r: int| 0 <= r < rs.len() ==> (#[trigger] rs[r]).nodes@.len() < ctx.n(),
        forall|r: int, i: int| 0 <= r < rs.len() && 0 <= i < rs[r].nodes@.len() ==> 0 < #[trigger] rs[r].nodes@[i] < ctx.n()
{
    reveal(partition);
    let n = ctx.n(); let m = rs.len() as int;
    assert forall|x: usize| #[trigger] occ(un, x) <= 1 by { assert(total_occ(rs, un, x) <= 1); lem_rocc_ge(rs, m, x); }
    assert forall|i: int| 0 <= i < un.len() implies in_1n(#[trigger] un[i], n - 1) by { lem_occ_pos(un, i); lem_rocc_ge(rs, m, un[i]); assert(total_occ(rs, un, un[i]) >= 1); }
    lem_occ_len(un, n - 1);
    assert forall|i: int| 0 <= i < un.len() implies 0 < #[trigger] un[i] < n by { assert(in_1n(un[i], n - 1)); }
    assert forall|r: int| 0 <= r < rs.len() implies (#[trigger] rs[r]).nodes@.len() < n && (forall|i: int| 0 <= i < rs[r].nodes@.len() ==> 0 < #[trigger] rs[r].nodes@[i] < n) by {
        let s = rs[r].nodes@;
        assert forall|x: usize| #[trigger] occ(s, x) <= 1 by { assert(total_occ(rs, un, x) <= 1); lem_rocc_ge(rs, m, x); lem_occ_range(un, x); }
        assert forall|i: int| 0 <= i < s.len() implies in_1n(#[trigger] s[i], n - 1) by { lem_occ_pos(s, i); lem_rocc_ge(rs, m, s[i]); lem_occ_range(un, s[i]); assert(total_occ(rs, un, s[i]) >= 1); }
        lem_occ_len(s, n - 1);
        assert forall|i: int| 0 <= i < s.len() implies 0 < #[trigger] s[i] < n by { assert(in_1n(s[i], n - 1)); }
    }
}
// a customer that is not unassigned is on a route
pub proof fn lem_assigned(n: int, rs: Seq<Route>, un: Seq<usize>, x: usize) -> (p: (int, int))
    requires partition(n, rs, un), 0 < x < n, !un.contains(x)
    ensures 0 <= p.0 < rs.len(), 0 <= p.1 < rs[p.0].nodes@.len(), rs[p.0].nodes@[p.1] == x
{
    reveal(partition);
    assert(total_occ(rs, un, x) == 1);
    if occ(un, x) >= 1 { let i = lem_occ_find(un, x); assert(un.contains(un[i])); }
    lem_occ_range(un, x);
    let r = lem_rocc_find(rs, rs.len() as int, x);
    (r, lem_occ_find(rs[r].nodes@, x))
}
// a is b with some entries left out
pub open spec fn sub_map(a: Seq<usize>, b: Seq<usize>, f: Seq<int>) -> bool {
    &&& f.len() == a.len()
    &&& forall|i: int| 0 <= i < a.len() ==> 0 <= #[trigger] f[i] < b.len() && a[i] == b[f[i]]
    &&& forall|i: int, j: int| 0 <= i < j < a.len() ==> #[trigger] f[i] < #[trigger] f[j]
}
pub open spec fn subseq(a: Seq<usize>, b: Seq<usize>) -> bool { exists|f: Seq<int>| sub_map(a, b, f) }
#[verifier::opaque]
pub open spec fn shrunk(a: Seq<Route>, b: Seq<Route>, touched: Set<usize>) -> bool {
    a.len() == b.len() && forall|r: int| 0 <= r < a.len() ==> subseq((#[trigger] a[r]).nodes@, b[r].nodes@) && (!touched.contains(r as usize) ==> a[r] == b[r])
}
pub proof fn lem_subseq_refl(a: Seq<usize>) ensures subseq(a, a) { assert(sub_map(a, a, Seq::new(a.len(), |i: int| i))); }
pub proof fn lem_subseq_remove(a: Seq<usize>, b: Seq<usize>, i: int)
    requires subseq(a, b), 0 <= i < a.len()
    ensures subseq(a.remove(i), b)
{ let f = choose|f: Seq<int>| sub_map(a, b, f); let c = a.remove(i); let g = f.remove(i);
  assert forall|k: int| 0 <= k < c.len() implies 0 <= #[trigger] g[k] < b.len() && c[k] == b[g[k]] by { if k < i { assert(f[k] < b.len()); } else { assert(f[k + 1] < b.len()); } }
  assert(sub_map(c, b, g)); }
pub proof fn lem_loc_same(rs0: Seq<Route>, rs1: Seq<Route>, locs: Seq<NodeLocation>, q: int)
    requires 0 <= q < rs0.len(), q < rs1.len(), rs0[q].nodes@ == rs1[q].nodes@
    ensures loc_home(rs0, locs, q) ==> loc_home(rs1, locs, q), loc_route(rs0, locs, q) ==> loc_route(rs1, locs, q)
{
    if loc_home(rs0, locs, q) { assert forall|i: int| 0 <= i < rs1[q].nodes@.len() implies (#[trigger] locs[rs1[q].nodes@[i] as int]).route_index == q by { assert(locs[rs0[q].nodes@[i] as int].route_index == q); } }
    if loc_route(rs0, locs, q) { assert forall|i: int| 0 <= i < rs1[q].nodes@.len() implies loc_is(#[trigger] locs[rs1[q].nodes@[i] as int], q, i) by { assert(loc_is(locs[rs0[q].nodes@[i] as int], q, i)); } }
}
// effect of taking customer i off route r
pub proof fn lem_take_off(ctx: &Context, rs0: Seq<Route>, rs1: Seq<Route>, un0: Seq<usize>, un1: Seq<usize>, locs: Seq<NodeLocation>, ex: Set<usize>, base: Seq<Route>, r: int, i: int)
    requires 0 <= r < rs0.len() <= usize::MAX, 0 <= i < rs0[r].nodes@.len(), rs1.len() == rs0.len(),
        forall|k: int| 0 <= k < rs0.len() && k != r ==> #[trigger] rs1[k] == rs0[k],
        rs1[r].nodes@ == rs0[r].nodes@.remove(i), un1 == un0.push(rs0[r].nodes@[i]),
        partition(ctx.n(), rs0, un0), located(rs0, locs, ex), ex.contains(r as usize), route_ok(ctx, rs1[r]), routes_ok(ctx, rs0), shrunk(rs0, base, ex),
    ensures partition(ctx.n(), rs1, un1), located(rs1, locs, ex), routes_ok(ctx, rs1), shrunk(rs1, base, ex),
{
    let s = rs0[r].nodes@; let m = rs0.len() as int;
    assert(rs1 =~= rs0.update(r, rs1[r]));
    assert(partition(ctx.n(), rs1, un1)) by {
        reveal(partition);
        assert forall|x: usize| #[trigger] total_occ(rs1, un1, x) == if 0 < x < ctx.n() { 1int } else { 0int } by {
            lem_rocc_update(rs0, r, rs1[r], m, x); lem_occ_remove(s, i, x); lem_occ_push(un0, s[i], x);
            assert(total_occ(rs0, un0, x) == if 0 < x < ctx.n() { 1int } else { 0int });
        }
    }
    assert(located(rs1, locs, ex)) by {
        reveal(located);
        assert forall|q: int| 0 <= q < rs1.len() implies #[trigger] loc_home(rs1, locs, q) && (!ex.contains(q as usize) ==> loc_route(rs1, locs, q)) by {
            assert(loc_home(rs0, locs, q));
            if q == r {
                assert forall|k: int| 0 <= k < rs1[q].nodes@.len() implies (#[trigger] locs[rs1[q].nodes@[k] as int]).route_index == q by {
                    let kk = if k < i { k } else { k + 1 }; assert(rs1[q].nodes@[k] == s[kk]); assert(locs[rs0[q].nodes@[kk] as int].route_index == q);
                }
            } else { lem_loc_same(rs0, rs1, locs, q); }
        }
    }
    assert(routes_ok(ctx, rs1)) by { reveal(routes_ok); assert forall|q: int| 0 <= q < rs1.len() implies route_ok(ctx, #[trigger] rs1[q]) by { if q != r { assert(rs1[q] == rs0[q]); } } }
    assert(shrunk(rs1, base, ex)) by {
        reveal(shrunk);
        assert forall|q: int| 0 <= q < rs1.len() implies subseq((#[trigger] rs1[q]).nodes@, base[q].nodes@) && (!ex.contains(q as usize) ==> rs1[q] == base[q]) by {
            assert(subseq(rs0[q].nodes@, base[q].nodes@));
            if q == r { lem_subseq_remove(s, base[q].nodes@, i); } else { assert(rs1[q] == rs0[q]); }
        }
    }
}
pub proof fn lem_more_except(rs: Seq<Route>, locs: Seq<NodeLocation>, ex: Set<usize>, base: Seq<Route>, r: usize)
    requires located(rs, locs, ex), shrunk(rs, base, ex), r < rs.len(), in_fleet(ex, rs.len() as int)
    ensures located(rs, locs, ex.insert(r)), shrunk(rs, base, ex.insert(r)), in_fleet(ex.insert(r), rs.len() as int)
{ reveal(located); reveal(shrunk); reveal(in_fleet);
  assert forall|q: int| 0 <= q < rs.len() implies #[trigger] loc_home(rs, locs, q) && (!ex.insert(r).contains(q as usize) ==> loc_route(rs, locs, q)) by { assert(loc_home(rs, locs, q)); }
}
pub open spec fn total_over(rs: Seq<Route>, k: int) -> real
    decreases k
{ if k <= 0 { 0real } else { total_over(rs, k - 1) + rmax(0real, rs[k - 1].overload@) } }
// everything but the cost and the locations
pub open spec fn same_routes(a: &RuinRecreateSolution, b: &RuinRecreateSolution) -> bool { a.routes == b.routes && a.unassigned == b.unassigned && a.ruined_routes == b.ruined_routes }
// routes outside ex have exact locations
#[verifier::opaque]
pub open spec fn loc_good(rs: Seq<Route>, locs: Seq<NodeLocation>, ex: Set<usize>) -> bool {
    forall|r: int| 0 <= r < rs.len() && !ex.contains(r as usize) ==> #[trigger] loc_route(rs, locs, r)
}
pub proof fn lem_loc_good(rs: Seq<Route>, locs: Seq<NodeLocation>, ex: Set<usize>, ex2: Set<usize>)
    requires located(rs, locs, ex) || loc_good(rs, locs, ex), forall|r: usize| ex.contains(r) ==> #[trigger] ex2.contains(r)
    ensures loc_good(rs, locs, ex2)
{ reveal(loc_good);
  assert forall|r: int| 0 <= r < rs.len() && !ex2.contains(r as usize) implies #[trigger] loc_route(rs, locs, r) by { if located(rs, locs, ex) { reveal(located); assert(loc_home(rs, locs, r)); } } }
pub proof fn lem_loc_all(rs: Seq<Route>, locs: Seq<NodeLocation>, ex: Set<usize>)
    requires loc_good(rs, locs, ex), forall|r: usize| r < rs.len() ==> !#[trigger] ex.contains(r), rs.len() <= usize::MAX
    ensures located(rs, locs, Set::empty())
{ reveal(located); reveal(loc_good);
  assert forall|r: int| 0 <= r < rs.len() implies #[trigger] loc_home(rs, locs, r) && loc_route(rs, locs, r) by {
    assert(!ex.contains(r as usize)); assert(loc_route(rs, locs, r));
    assert forall|i: int| 0 <= i < rs[r].nodes@.len() implies (#[trigger] locs[rs[r].nodes@[i] as int]).route_index == r by { assert(loc_is(locs[rs[r].nodes@[i] as int], r, i)); }
  } }
pub open spec fn route_eq(a: Route, b: Route) -> bool { a.nodes@ == b.nodes@ && a.distance == b.distance && a.overload == b.overload }
// what a ruin step may do: customers go from routes to the unassigned list, everything else stays
pub open spec fn ruined(ctx: &Context, a: &RuinRecreateSolution, b: &RuinRecreateSolution) -> bool {
    &&& b.ok(ctx)
    &&& shrunk(b.routes@, a.routes@, b.ruined_routes@)
    &&& b.routes@.len() == a.routes@.len()
    &&& b.locations == a.locations
    &&& b.cost == a.cost
}
