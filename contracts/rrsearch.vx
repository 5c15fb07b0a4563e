## C08/C09: loading, searching and returning the best solution
@include prelude/base.vx
@include prelude/individual.vx
@include prelude/evalspec.vx
@include prelude/sort.vx
@include prelude/perm.vx
@include prelude/hashset.vx
@include prelude/occ.vx
@include prelude/flat.vx
@include prelude/rrspec.vx
@include prelude/histspec.vx
@include prelude/frame.vx
@include prelude/bestspec.vx
@include prelude/confspec.vx
@struct src/solver/improvement/ruin_recreate/ruin.rs AdjacentStringRemoval
@struct src/solver/improvement/ruin_recreate/recreate.rs GreedyBlink
@usefn rr.vx NodeLocation::update
@fn src/solver/improvement/ruin_recreate/node.rs NodeLocation::empty
@ret r
@endfn
@fn src/solver/improvement/ruin_recreate/node.rs Route::empty
@ret r
@spec
ensures r.nodes@.len() == 0,
@endfn
@usefn rr.vx RuinRecreateSolution::is_feasible
@usefn rr.vx RuinRecreateSolution::evaluate
@usefn rr.vx RuinRecreateSolution::reevaluate
@usefn rr.vx RuinRecreateSolution::from
@usefn rr.vx AdjacentStringRemoval@Ruin::run
@usefn rr.vx GreedyBlink@Recreate::run
@usefn individual.vx Individual::sort_routes
@usefn evaluate.vx Individual::evaluate
@usefn evaluate.vx Individual::penalized_cost
@usefn best.vx SearchHistory::add_message
@usefn best.vx SearchHistory::add
@raw
// the routes are these lists
pub open spec fn holds(rs: Seq<Route>, s: Seq<Vec<usize>>) -> bool { rs.len() == s.len() && forall|r: int| 0 <= r < rs.len() ==> (#[trigger] rs[r]).nodes@ == s[r]@ }
pub open spec fn loc_off(rs: Seq<Vec<usize>>, locs: Seq<NodeLocation>, r: int, k: int) -> bool { forall|i: int| 0 <= i < k ==> loc_is(#[trigger] locs[rs[r]@[i] as int], r, i) }
#[verifier::opaque]
pub open spec fn loc_lists(s: Seq<Vec<usize>>, locs: Seq<NodeLocation>, k: int) -> bool { forall|r: int| 0 <= r < k ==> #[trigger] loc_off(s, locs, r, s[r]@.len() as int) }
#[verifier::opaque]
pub open spec fn loaded(ctx: &Context, rs: Seq<Route>, s: Seq<Vec<usize>>, k: int) -> bool { forall|r: int| 0 <= r < k ==> (#[trigger] rs[r]).nodes@ == s[r]@ && route_ok(ctx, rs[r]) }
pub proof fn lem_loc_step(n: int, s: Seq<Vec<usize>>, l0: Seq<NodeLocation>, l1: Seq<NodeLocation>, r: int, i: int)
    requires complete(n, s), 0 <= r < s.len(), 0 <= i < s[r]@.len(), l0.len() == n, l1 == l0.update(s[r]@[i] as int, l1[s[r]@[i] as int]), loc_is(l1[s[r]@[i] as int], r, i),
        loc_lists(s, l0, r), loc_off(s, l0, r, i),
    ensures loc_lists(s, l1, r), loc_off(s, l1, r, i + 1)
{
    reveal(loc_lists); lem_complete(n, s);
    let x = s[r]@[i];
    assert forall|q: int| 0 <= q < r implies #[trigger] loc_off(s, l1, q, s[q]@.len() as int) by {
        assert(loc_off(s, l0, q, s[q]@.len() as int));
        assert forall|j: int| 0 <= j < s[q]@.len() implies loc_is(#[trigger] l1[s[q]@[j] as int], q, j) by {
            assert(loc_is(l0[s[q]@[j] as int], q, j));
            if s[q]@[j] == x { lem_complete_distinct(n, s, q, j, r, i); }
        }
    }
    assert forall|j: int| 0 <= j < i + 1 implies loc_is(#[trigger] l1[s[r]@[j] as int], r, j) by {
        if j < i { assert(loc_is(l0[s[r]@[j] as int], r, j)); if s[r]@[j] == x { lem_complete_distinct(n, s, r, j, r, i); } }
    }
}
pub proof fn lem_load_step(ctx: &Context, rs0: Seq<Route>, rs1: Seq<Route>, s: Seq<Vec<usize>>, locs: Seq<NodeLocation>, r: int)
    requires 0 <= r < rs0.len(), rs0.len() == s.len(), rs1 == rs0.update(r, rs1[r]), rs1[r].nodes@ == s[r]@, route_ok(ctx, rs1[r]), loaded(ctx, rs0, s, r),
        loc_lists(s, locs, r), loc_off(s, locs, r, s[r]@.len() as int),
    ensures loaded(ctx, rs1, s, r + 1), loc_lists(s, locs, r + 1)
{
    reveal(loaded); reveal(loc_lists);
    assert forall|q: int| 0 <= q < r + 1 implies (#[trigger] rs1[q]).nodes@ == s[q]@ && route_ok(ctx, rs1[q]) by { if q < r { assert(rs1[q] == rs0[q]); } }
}
pub proof fn lem_loaded(ctx: &Context, rs: Seq<Route>, locs: Seq<NodeLocation>, s: Seq<Vec<usize>>)
    requires loaded(ctx, rs, s, s.len() as int), loc_lists(s, locs, s.len() as int), rs.len() == s.len()
    ensures holds(rs, s), routes_ok(ctx, rs), located(rs, locs, Set::empty())
{
    reveal(loaded); reveal(loc_lists); reveal(routes_ok); reveal(located);
    assert forall|r: int| 0 <= r < rs.len() implies #[trigger] loc_home(rs, locs, r) && loc_route(rs, locs, r) by {
        assert(loc_off(s, locs, r, s[r]@.len() as int)); assert(rs[r].nodes@ == s[r]@);
        assert forall|i: int| 0 <= i < rs[r].nodes@.len() implies loc_is(#[trigger] locs[rs[r].nodes@[i] as int], r, i) by { assert(loc_is(locs[s[r]@[i] as int], r, i)); }
        assert forall|i: int| 0 <= i < rs[r].nodes@.len() implies (#[trigger] locs[rs[r].nodes@[i] as int]).route_index == r by { assert(loc_is(locs[s[r]@[i] as int], r, i)); }
    }
}
@fn src/solver/improvement/ruin_recreate/mod.rs RuinRecreateSolution::load
@params individual
@addparams Ghost(ctx): Ghost<Context>
@spec
requires
    ctx.small(), 1 <= old(self).routes@.len() <= usize::MAX, old(self).locations@.len() == ctx.n(),
    individual.phenotype@.len() == old(self).routes@.len(), complete(ctx.n(), individual.phenotype@), eval_routes(&ctx, individual.evaluation, individual.phenotype@),
ensures
    final(self).unassigned == old(self).unassigned, final(self).ruined_routes == old(self).ruined_routes, final(self).locations@.len() == ctx.n(),
    holds(final(self).routes@, individual.phenotype@), routes_ok(&ctx, final(self).routes@), located(final(self).routes@, final(self).locations@, Set::empty()),
@at start
let ghost s = individual.phenotype@; let ghost mut rs0 = self.routes@;
proof { reveal(loaded); reveal(loc_lists); lem_complete(ctx.n(), s); }
@loop 0
invariant rs0 == self.routes@, __i0 <= self.routes@.len(), self.routes@.len() == s.len(), self.locations@.len() == ctx.n(), ctx.small(), complete(ctx.n(), s), evaluation == individual.evaluation, s == individual.phenotype@, eval_routes(&ctx, *evaluation, s),
    self.unassigned == old(self).unassigned, self.ruined_routes == old(self).ruined_routes,
    loaded(&ctx, self.routes@, s, __i0 as int), loc_lists(s, self.locations@, __i0 as int),
decreases self.routes@.len() - __i0
@at loop 0 start
proof { lem_complete(ctx.n(), s); }
@loop 1
invariant __i1 <= route.nodes@.len(), 0 <= route_number < s.len(), route.nodes@ == s[route_number as int]@, self.locations@.len() == ctx.n(), complete(ctx.n(), s),
    loc_lists(s, self.locations@, route_number as int), loc_off(s, self.locations@, route_number as int, __i1 as int),
    forall|i: int| 0 <= i < route.nodes@.len() ==> 0 < #[trigger] route.nodes@[i] < ctx.n(),
decreases route.nodes@.len() - __i1
@at loop 1 start
let ghost l0 = self.locations@;
@at loop 1 end
proof { lem_loc_step(ctx.n(), s, l0, self.locations@, route_number as int, __c1 as int); }
@at loop 0 end
proof { lem_load_step(&ctx, rs0, self.routes@, s, self.locations@, __c0 as int); rs0 = self.routes@; }
@at exit
proof { lem_loaded(&ctx, self.routes@, self.locations@, s); }
@endfn
@raw
// clones of derived types are equal
impl Clone for RuinRecreateSolution { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
// one acceptance decision: cost of the solution the candidate was built from, cost of the candidate, verdict
pub struct Decision { pub base: real, pub cand: real, pub yes: bool }
// the acceptance criterion (its rules are unit `schedule`): decisions are logged, and must be asked against the cost of the current base solution
pub struct AcceptanceCriterion { pub g: Ghost<int> }
impl AcceptanceCriterion {
    #[verifier::external_body] pub fn accept(&self, new_cost: R, old_cost: R, random: &Random, Ghost(cand): Ghost<real>, Ghost(base): Ghost<real>, log: &mut Ghost<Seq<Decision>>) -> (r: bool)
        requires new_cost@ == cand, old_cost@ == base,
        ensures final(log)@ == old(log)@.push(Decision { base: base, cand: cand, yes: r }) { unimplemented!() }
    #[verifier::external_body] pub fn update(&mut self) { unimplemented!() }
    #[verifier::external_body] pub fn completed(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] pub fn reset(&mut self) { unimplemented!() }
}
@struct src/solver/improvement/ruin_recreate/mod.rs RuinRecreate
@field ctx: Context
@field ruin: AdjacentStringRemoval
@field recreate: GreedyBlink
@raw
impl Clone for Context { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
@fn src/solver/evaluate.rs SolutionEvaluation::new
@ret r
@spec
ensures r.routes@.len() == 0,
@endfn
@fn src/solver/genetic/individual.rs Individual::new_random
@params ctx number
@ret r
@spec
requires ctx.wf(),
ensures r.phenotype@.len() == ctx.config.num_vehicles, r.genotype@.len() == ctx.n() - 1, r.number == number,
@loop 0
invariant 1 <= __i0 <= __e0, __e0 == ctx.n(), __a0@.len() == __i0 - 1, ctx.wf(),
decreases __e0 - __i0
@endfn
@raw
pub open spec fn taken(p: Seq<Vec<usize>>, rs: Seq<Route>, k: int) -> bool { forall|r: int| 0 <= r < k ==> (#[trigger] p[r])@ == rs[r].nodes@ }
pub proof fn lem_taken_complete(ctx: &Context, s: &RuinRecreateSolution, p: Seq<Vec<usize>>)
    requires s.full(ctx), taken(p, s.routes@, s.routes@.len() as int), p.len() == s.routes@.len()
    ensures complete(ctx.n(), p), holds(s.routes@, p)
{
    reveal(complete); reveal(partition);
    assert forall|x: usize| #[trigger] locc(p, p.len() as int, x) == if 0 < x < ctx.n() { 1int } else { 0int } by {
        lem_rocc_locc(s.routes@, p, p.len() as int, x); assert(total_occ(s.routes@, s.unassigned@, x) == if 0 < x < ctx.n() { 1int } else { 0int }); assert(occ(s.unassigned@, x) == 0) by { lem_occ_range(s.unassigned@, x); }
    }
}
pub proof fn lem_rocc_locc(rs: Seq<Route>, p: Seq<Vec<usize>>, k: int, x: usize)
    requires 0 <= k <= rs.len(), rs.len() == p.len(), taken(p, rs, rs.len() as int)
    ensures rocc(rs, k, x) == locc(p, k, x)
    decreases k
{ if k > 0 { lem_rocc_locc(rs, p, k - 1, x); assert(p[k - 1]@ == rs[k - 1].nodes@); } }
pub proof fn lem_same_complete(n: int, a: Seq<Vec<usize>>, b: Seq<Vec<usize>>)
    requires complete(n, a), same_lists(a, b)
    ensures complete(n, b), len_sum(a, a.len() as int) == len_sum(b, b.len() as int), a.len() == b.len()
{
    let q = choose|q: Seq<int>| lists_by(a, b, q);
    lem_lists_locc(a, b, q, 0);
    reveal(complete);
    assert forall|x: usize| #[trigger] locc(b, b.len() as int, x) == if 0 < x < n { 1int } else { 0int } by { lem_lists_locc(a, b, q, x); assert(locc(a, a.len() as int, x) == if 0 < x < n { 1int } else { 0int }); }
}
// reordering routes does not change the total cost
pub proof fn lem_same_cost(ctx: &Context, a: Seq<Vec<usize>>, b: Seq<Vec<usize>>, q: Seq<int>)
    requires lists_by(a, b, q)
    ensures total_cost(ctx, a, a.len() as int) == total_cost(ctx, b, b.len() as int)
    decreases b.len()
{
    if b.len() > 0 {
        let m = b.len() - 1; let p = q[m];
        assert(b[m]@ == a[q[m]]@);
        let a2 = a.remove(p); let b2 = b.drop_last();
        let q2 = Seq::new(m as nat, |i: int| if q[i] < p { q[i] } else { q[i] - 1 });
        assert(lists_by(a2, b2, q2)) by {
            assert forall|i: int| 0 <= i < m implies 0 <= #[trigger] q2[i] < m && b2[i]@ == a2[q2[i]]@ by { assert(q[i] != q[m]); assert(b[i]@ == a[q[i]]@); }
            assert forall|i: int, j: int| 0 <= i < m && 0 <= j < m && i != j implies q2[i] != q2[j] by { assert(q[i] != q[j] && q[i] != p && q[j] != p); }
            assert forall|i: int| 0 <= i < b2.len() implies (#[trigger] b2[i])@ == a2[q2[i]]@ by { assert(0 <= q2[i] < m && b2[i]@ == a2[q2[i]]@); }
        }
        lem_same_cost(ctx, a2, b2, q2);
        lem_cost_remove(ctx, a, p, a.len() as int);
        lem_cost_frame(ctx, b, b2, m);
    }
}
pub proof fn lem_cost_frame(ctx: &Context, a: Seq<Vec<usize>>, b: Seq<Vec<usize>>, k: int)
    requires 0 <= k <= a.len(), k <= b.len(), forall|i: int| 0 <= i < k ==> (#[trigger] a[i])@ == b[i]@
    ensures total_cost(ctx, a, k) == total_cost(ctx, b, k)
    decreases k
{ if k > 0 { lem_cost_frame(ctx, a, b, k - 1); assert(a[k - 1]@ == b[k - 1]@); } }
pub proof fn lem_cost_remove(ctx: &Context, a: Seq<Vec<usize>>, p: int, k: int)
    requires 0 <= p < a.len(), 0 <= k <= a.len()
    ensures k <= p ==> total_cost(ctx, a.remove(p), k) == total_cost(ctx, a, k),
        k > p ==> total_cost(ctx, a.remove(p), k - 1) == total_cost(ctx, a, k) - route_pcost(ctx, a[p]@)
    decreases k
{
    if k > 0 { lem_cost_remove(ctx, a, p, k - 1);
        if k <= p { assert(a.remove(p)[k - 1] == a[k - 1]); } else if k - 1 > p { assert(a.remove(p)[k - 2] == a[k - 1]); } else { lem_cost_frame(ctx, a.remove(p), a, k - 1); } }
}
pub proof fn lem_loaded_all(ctx: &Context, s: &RuinRecreateSolution, routes: Seq<usize>, p: Seq<Vec<usize>>)
    requires complete(ctx.n(), p), holds(s.routes@, p), s.unassigned@.len() == 0, located(s.routes@, s.locations@, Set::empty()), routes.len() == s.routes@.len()
    ensures partition(ctx.n(), s.routes@, s.unassigned@), loc_good(s.routes@, s.locations@, routes.to_set())
{
    lem_loc_good(s.routes@, s.locations@, Set::empty(), routes.to_set());
    reveal(partition); reveal(complete);
    assert(taken(p, s.routes@, s.routes@.len() as int));
    assert forall|x: usize| #[trigger] total_occ(s.routes@, s.unassigned@, x) == if 0 < x < ctx.n() { 1int } else { 0int } by {
        lem_rocc_locc(s.routes@, p, p.len() as int, x); lem_occ_range(s.unassigned@, x); assert(locc(p, p.len() as int, x) == if 0 < x < ctx.n() { 1int } else { 0int });
    }
}
pub proof fn lem_rr_total(ctx: &Context, rs: Seq<Route>, p: Seq<Vec<usize>>, k: int)
    requires 0 <= k <= rs.len(), rs.len() == p.len(), taken(p, rs, rs.len() as int)
    ensures rr_cost(ctx, rs, k) == total_cost(ctx, p, k)
    decreases k
{ if k > 0 { lem_rr_total(ctx, rs, p, k - 1); assert(p[k - 1]@ == rs[k - 1].nodes@); } }
@fn src/solver/improvement/ruin_recreate/mod.rs RuinRecreate::update_individual
@params solution individual
@subst individual . sort_routes (self . ctx) ==> individual.sort_routes(&self.ctx)
@subst individual . evaluate (self . ctx) ==> individual.evaluate(&self.ctx)
@spec
requires self.ctx.small(), solution.full(&self.ctx), old(individual).phenotype@.len() == solution.routes@.len(),
ensures
    complete(self.ctx.n(), final(individual).phenotype@), final(individual).phenotype@.len() == solution.routes@.len(),
    // the routes of the solution in another order
    exists|p: Seq<Vec<usize>>| #[trigger] holds(solution.routes@, p) && same_lists(p, final(individual).phenotype@),
    final(individual).genotype@ == flat_all(final(individual).phenotype@),
    eval_of(&self.ctx, final(individual).evaluation, final(individual).phenotype@),
    final(individual).evaluation.penalized_cost@ == solution.cost@,
    final(individual).number == old(individual).number,
@loop 0
invariant __i0 <= solution.routes@.len(), individual.phenotype@.len() == solution.routes@.len(), individual.number == old(individual).number,
    p0 == individual.phenotype@, taken(individual.phenotype@, solution.routes@, __i0 as int), individual.genotype@.len() == len_sum(individual.phenotype@, __i0 as int),
decreases solution.routes@.len() - __i0
@at loop 0 end
proof { lem_locc_frame(p0, individual.phenotype@, __c0 as int, 0); p0 = individual.phenotype@; }
@at before loop 0
let ghost mut p0 = individual.phenotype@;
@at before call sort_routes
let ghost p = individual.phenotype@;
proof { lem_taken_complete(&self.ctx, solution, p); lem_complete(self.ctx.n(), p); }
@at after call sort_routes
proof { let b = individual.phenotype@; lem_same_complete(self.ctx.n(), p, b); lem_complete(self.ctx.n(), b); let q = choose|q: Seq<int>| lists_by(p, b, q); lem_same_cost(&self.ctx, p, b, q); lem_rr_total(&self.ctx, solution.routes@, p, p.len() as int);
    lem_flat_len(b, b.len() as int); assert(individual.genotype@.take(individual.genotype@.len() as int) =~= individual.genotype@); }
@endfn
@fn src/solver/improvement/ruin_recreate/mod.rs RuinRecreate::load
@params ctx individual
@subst & * (ctx as * const Context) ==> ctx.clone()
@subst evaluate (self . ctx , routes . iter ()) ==> evaluate(&self.ctx, &routes)
@passargs load Ghost(self.ctx)
@spec
requires
    ctx.small(), 1 <= old(individual).phenotype@.len() <= usize::MAX, old(individual).phenotype@.len() == old(self).solution.routes@.len(), old(self).solution.locations@.len() == ctx.n(),
    old(self).solution.unassigned@.len() == 0, old(self).solution.ruined_routes@ =~= Set::<usize>::empty(),
    complete(ctx.n(), old(individual).phenotype@), eval_routes(ctx, old(individual).evaluation, old(individual).phenotype@),
ensures
    *final(individual) == *old(individual), final(self).ctx == *ctx, final(self).update_penalty == old(self).update_penalty, final(self).ruin == old(self).ruin,
    final(self).solution.full(ctx), holds(final(self).solution.routes@, old(individual).phenotype@),
    final(self).current_solution == final(self).solution, final(self).best_solution == Some(final(self).solution),
@loop 0
invariant __i0 <= __e0 == self.solution.routes@.len(), __a0@.len() == __i0, forall|k: int| 0 <= k < __i0 ==> #[trigger] __a0@[k] == k,
decreases __e0 - __i0
@at before call evaluate
proof { lem_loaded_all(ctx, &self.solution, routes@, individual.phenotype@); }
@at after call evaluate
proof { assert(routes_ok(ctx, self.solution.routes@)); lem_loaded_all(ctx, &self.solution, routes@, individual.phenotype@); reveal(in_fleet); }
@at start
proof { assert(individual.phenotype@.len() == individual.phenotype.len()); }
@endfn
@raw
pub proof fn lem_frame_rr(a: &Context, b: &Context, s: &RuinRecreateSolution)
    requires same_data(a, b)
    ensures s.ok(a) == s.ok(b), routes_ok(a, s.routes@) == routes_ok(b, s.routes@), a.pen() == b.pen() ==> rr_cost(a, s.routes@, s.routes@.len() as int) == rr_cost(b, s.routes@, s.routes@.len() as int)
{
    lem_frame_ok(a, b, s.routes@);
    if a.pen() == b.pen() { lem_frame_rr_cost(a, b, s.routes@, s.routes@.len() as int); }
}
pub proof fn lem_frame_ok(a: &Context, b: &Context, rs: Seq<Route>)
    requires same_data(a, b)
    ensures routes_ok(a, rs) == routes_ok(b, rs)
{
    reveal(routes_ok);
    assert forall|i: int| 0 <= i < rs.len() implies route_ok(a, #[trigger] rs[i]) == route_ok(b, rs[i]) by { lem_frame_route(a, b, rs[i].nodes@); }
    if routes_ok(a, rs) { assert forall|i: int| 0 <= i < rs.len() implies route_ok(b, #[trigger] rs[i]) by { assert(route_ok(a, rs[i])); } }
    if routes_ok(b, rs) { assert forall|i: int| 0 <= i < rs.len() implies route_ok(a, #[trigger] rs[i]) by { assert(route_ok(b, rs[i])); } }
}
pub proof fn lem_frame_rr_cost(a: &Context, b: &Context, rs: Seq<Route>, k: int)
    requires same_data(a, b), a.pen() == b.pen()
    ensures rr_cost(a, rs, k) == rr_cost(b, rs, k)
    decreases k
{ if k > 0 { lem_frame_rr_cost(a, b, rs, k - 1); lem_frame_route(a, b, rs[k - 1].nodes@); } }
pub proof fn lem_frame_finite(a: &Context, b: &Context)
    requires same_data(a, b), a.pen() == b.pen(), a.finite()
    ensures b.finite()
{
    reveal(Context::finite);
    assert forall|r: Seq<usize>, p: int, q: int, x: usize| #![trigger b.d(p, q), b.d(p, x as int), route_over(b, r)]
            r.len() < b.n() && (forall|i: int| 0 <= i < r.len() ==> 0 < #[trigger] r[i] < b.n()) && 0 <= p < b.n() && 0 <= q < b.n() && 0 < x < b.n()
            implies b.d(p, x as int) + b.d(x as int, q) - b.d(p, q) + rmax(0real, route_over(b, r) + b.demand(x as int)) * b.pen() < fmax_spec() - EPSILON_spec() by {
        lem_frame_route(a, b, r); assert(a.d(p, q) == b.d(p, q) && a.d(p, x as int) == b.d(p, x as int) && route_over(a, r) == route_over(b, r));
    }
}
// no excess load in total means no excess load on any route
pub proof fn lem_no_excess(rs: Seq<Route>, k: int)
    requires 0 <= k <= rs.len(), total_over(rs, k) < EPSILON_spec()
    ensures total_over(rs, k) >= 0real, forall|r: int| 0 <= r < k ==> (#[trigger] rs[r]).overload@ < EPSILON_spec()
    decreases k
{ lem_over_pos(rs, k); if k > 0 { lem_over_pos(rs, k - 1); lem_no_excess(rs, k - 1); } }
pub proof fn lem_over_pos(rs: Seq<Route>, k: int)
    requires 0 <= k <= rs.len()
    ensures total_over(rs, k) >= 0real
    decreases k
{ if k > 0 { lem_over_pos(rs, k - 1); } }
pub proof fn lem_light(ctx: &Context, rs: Seq<Route>, p: Seq<Vec<usize>>, b: Seq<Vec<usize>>)
    requires routes_ok(ctx, rs), total_over(rs, rs.len() as int) < EPSILON_spec(), holds(rs, p), same_lists(p, b)
    ensures eval_feasible(ctx, b)
{
    reveal(routes_ok); lem_no_excess(rs, rs.len() as int);
    let q = choose|q: Seq<int>| lists_by(p, b, q);
    assert forall|i: int| 0 <= i < b.len() implies route_over(ctx, #[trigger] b[i]@) <= EPSILON_spec() by { assert(0 <= q[i] < p.len() && b[i]@ == p[q[i]]@); assert(rs[q[i]].nodes@ == p[q[i]]@); assert(route_ok(ctx, rs[q[i]])); }
}
// a recorded solution is feasible and lists the routes of rs in some order
pub open spec fn recorded(ctx: &Context, h: &SearchHistory, s: &RuinRecreateSolution) -> bool {
    exists|x: Individual| #[trigger] records(h.history@[h.history@.len() - 1], x) && complete(ctx.n(), x.phenotype@) && eval_feasible(ctx, x.phenotype@)
        && eval_of(ctx, x.evaluation, x.phenotype@) && x.evaluation.penalized_cost@ == s.cost@
}
@raw
// of the settings only the penalty changes, and the routes kept by the history stay those of a complete feasible solution
#[verifier::opaque]
pub open spec fn moved(a: &Context, b: &Context) -> bool {
    same_data(a, b) && same_but_penalty(a.config, b.config) && (holds_best(a, &a.search_history) ==> holds_best(b, &b.search_history))
}
pub proof fn lem_moved_step(a: &Context, b: &Context, c: &Context) requires moved(a, b), moved(b, c) ensures moved(a, c) { reveal(moved); conf::same_trans(a.config, b.config, c.config); }
pub proof fn lem_moved(a: &Context, b: &Context)
    requires same_data(a, b), same_but_penalty(a.config, b.config), b.search_history.history == a.search_history.history
    ensures moved(a, b)
{ reveal(moved); if holds_best(a, &a.search_history) { lem_holds_frame(a, b, &a.search_history, &b.search_history); } }
pub proof fn lem_moved_found(a: &Context, b: &Context, x: Individual)
    requires same_data(a, b), b.config == a.config, b.search_history.history@.len() > 0, records(b.search_history.history@[b.search_history.history@.len() - 1], x), complete(a.n(), x.phenotype@), eval_feasible(a, x.phenotype@), eval_of(a, x.evaluation, x.phenotype@)
    ensures moved(a, b)
{ reveal(moved); conf::same_refl(a.config); lem_frame_feasible(a, b, x.phenotype@); assert(found(b, a, b.search_history.history@[b.search_history.history@.len() - 1], x)); }
@fn src/solver/improvement/ruin_recreate/mod.rs RuinRecreate::update_best
@subst Individual :: new_random (self . ctx , 0) ==> Individual::new_random(&self.ctx, 0)
@subst search_history . best_cost ==> self.ctx.search_history.best_cost
@subst search_history . add_message ==> self.ctx.search_history.add_message
@subst search_history . add (self . ctx , & best_individual) ==> self.ctx.search_history.add(&best_individual)
@spec
requires
    old(self).ctx.small(), old(self).current_solution.full(&old(self).ctx), old(self).ctx.config.num_vehicles == old(self).current_solution.routes@.len(), hist_ok(&old(self).ctx.search_history),
ensures
    final(self).best_solution == Some(old(self).current_solution),
    final(self).solution == old(self).solution, final(self).current_solution == old(self).current_solution, final(self).update_penalty == old(self).update_penalty,
    final(self).ruin == old(self).ruin, final(self).recreate == old(self).recreate, final(self).acceptance == old(self).acceptance,
    same_data(&final(self).ctx, &old(self).ctx), final(self).ctx.config == old(self).ctx.config,
    hist_ok(&final(self).ctx.search_history), moved(&old(self).ctx, &final(self).ctx),
    // only feasible solutions cheaper than everything recorded before are recorded
    final(self).ctx.search_history.history@.len() == old(self).ctx.search_history.history@.len() ==> hist_kept(&old(self).ctx.search_history, &final(self).ctx.search_history),
    final(self).ctx.search_history.history@.len() != old(self).ctx.search_history.history@.len() ==>
        old(self).current_solution.cost@ < old(self).ctx.search_history.best_cost@ - EPSILON_spec()
        && recorded(&old(self).ctx, &final(self).ctx.search_history, &old(self).current_solution),
@at start
proof { conf::same_refl(old(self).ctx.config); lem_moved(&old(self).ctx, &old(self).ctx); }
@at after call update_individual
let ghost bi = best_individual;
proof { let p = choose|p: Seq<Vec<usize>>| #[trigger] holds(self.current_solution.routes@, p) && same_lists(p, bi.phenotype@); lem_light(&self.ctx, self.current_solution.routes@, p, bi.phenotype@); }
@at after call add
proof { lem_moved_found(&old(self).ctx, &self.ctx, bi); lem_frame_total(&old(self).ctx, &self.ctx, bi.phenotype@, bi.phenotype@.len() as int); assert(records(self.ctx.search_history.history@[self.ctx.search_history.history@.len() - 1], bi)); }
@endfn
@raw
pub open spec fn rval(r: R) -> real { r@ }
// c is ctx with the capacity penalty of some step of this search
pub open spec fn pen_of(ctx: &Context, p: real) -> bool { p == ctx.pen() || p == ctx.pen() * ctx.config.penalty_dec_multiplier@ || p == ctx.pen() * ctx.config.penalty_inc_multiplier@ }
pub open spec fn finite_now(ctx: &Context) -> bool { forall|c: Context| same_data(&c, ctx) && pen_of(ctx, #[trigger] c.pen()) ==> c.finite() }
// s was made equal to o
pub open spec fn copy_of(s: &RuinRecreateSolution, o: &RuinRecreateSolution) -> bool {
    s.cost@ == o.cost@ && s.locations@ == o.locations@ && s.routes@.len() == o.routes@.len() && forall|r: int| 0 <= r < o.routes@.len() ==> route_eq(#[trigger] s.routes@[r], o.routes@[r])
}
impl RuinRecreate {
    // between two steps: all solutions are complete and exact
    pub open spec fn settled(&self) -> bool {
        &&& self.ctx.small() && self.ruin.cavg <= u32::MAX
        &&& self.solution.full(&self.ctx) && self.current_solution.full(&self.ctx) && copy_of(&self.current_solution, &self.solution)
        &&& self.best_solution matches Some(b) && b.full(&self.ctx) && b.routes@.len() == self.solution.routes@.len()
        &&& self.current_solution.routes@.len() == self.solution.routes@.len() && self.solution.routes@.len() == self.ctx.config.num_vehicles
        &&& hist_ok(&self.ctx.search_history)
    }
    // what a search leaves alone
    pub open spec fn kept(&self, o: &RuinRecreate) -> bool {
        same_data(&self.ctx, &o.ctx) && self.update_penalty == o.update_penalty && self.ruin == o.ruin && self.ctx.config.num_vehicles == o.ctx.config.num_vehicles
        && (!o.update_penalty ==> self.ctx.config == o.ctx.config) && pen_of(&o.ctx, self.ctx.pen())
        && moved(&o.ctx, &self.ctx)
    }
}
pub open spec fn best_of(s: &RuinRecreate) -> RuinRecreateSolution { s.best_solution->0 }
// best: cheapest of the start and of all accepted candidates (up to the comparison tolerance)
pub open spec fn best_kept(start: real, log: Seq<Decision>, best: real) -> bool {
    &&& best <= start
    &&& forall|i: int| 0 <= i < log.len() && (#[trigger] log[i]).yes ==> best <= log[i].cand + EPSILON_spec()
    &&& best == start || exists|i: int| 0 <= i < log.len() && (#[trigger] log[i]).yes && log[i].cand == best
}
// every candidate is judged against the solution it was built from: the last one accepted
pub open spec fn base_at(start: real, log: Seq<Decision>, k: int) -> real
    decreases k
{ if k <= 0 { start } else if log[k - 1].yes { log[k - 1].cand } else { base_at(start, log, k - 1) } }
pub open spec fn fair(start: real, log: Seq<Decision>) -> bool { forall|i: int| 0 <= i < log.len() ==> (#[trigger] log[i]).base == base_at(start, log, i) }
@raw
pub proof fn lem_frames(a: &Context)
    ensures
        forall|b: &Context, rs: Seq<Route>| same_data(a, b) ==> #[trigger] routes_ok(b, rs) == routes_ok(a, rs),
        forall|b: &Context, s: &RuinRecreateSolution| same_data(a, b) ==> #[trigger] s.ok(b) == s.ok(a),
        forall|b: &Context, s: &RuinRecreateSolution| same_data(a, b) && a.pen() == b.pen() ==> #[trigger] s.full(b) == s.full(a),
{
    assert forall|b: &Context, rs: Seq<Route>| same_data(a, b) implies #[trigger] routes_ok(b, rs) == routes_ok(a, rs) by {
        lem_frame_ok(a, b, rs);
    }
    assert forall|b: &Context, s: &RuinRecreateSolution| same_data(a, b) implies #[trigger] s.ok(b) == s.ok(a) by { lem_frame_rr(a, b, s); }
    assert forall|b: &Context, s: &RuinRecreateSolution| same_data(a, b) && a.pen() == b.pen() implies #[trigger] s.full(b) == s.full(a) by { lem_frame_rr(a, b, s); }
}
pub proof fn lem_copy(ctx: &Context, s: &RuinRecreateSolution, o: &RuinRecreateSolution)
    requires o.full(ctx), copy_of(s, o), s.unassigned@.len() == 0, s.ruined_routes@ =~= Set::<usize>::empty()
    ensures s.full(ctx)
{
    let m = s.routes@.len() as int;
    assert forall|i: int| 0 <= i < m implies (#[trigger] s.routes@[i]).nodes@ == o.routes@[i].nodes@ by { assert(route_eq(s.routes@[i], o.routes@[i])); }
    assert(s.ruined_routes@ == o.ruined_routes@); assert(s.unassigned@ =~= o.unassigned@);
    assert(routes_ok(ctx, s.routes@)) by { reveal(routes_ok); assert forall|i: int| 0 <= i < m implies route_ok(ctx, #[trigger] s.routes@[i]) by { assert(route_ok(ctx, o.routes@[i])); assert(route_eq(s.routes@[i], o.routes@[i])); } }
    assert(partition(ctx.n(), s.routes@, s.unassigned@)) by { reveal(partition);
        assert forall|x: usize| #[trigger] total_occ(s.routes@, s.unassigned@, x) == if 0 < x < ctx.n() { 1int } else { 0int } by { lem_rocc_frame(s.routes@, o.routes@, m, x); assert(total_occ(o.routes@, o.unassigned@, x) == if 0 < x < ctx.n() { 1int } else { 0int }); } }
    assert(located(s.routes@, s.locations@, s.ruined_routes@)) by { reveal(located);
        assert forall|q: int| 0 <= q < m implies #[trigger] loc_home(s.routes@, s.locations@, q) && (!s.ruined_routes@.contains(q as usize) ==> loc_route(s.routes@, s.locations@, q)) by { assert(loc_home(o.routes@, o.locations@, q)); lem_loc_same(o.routes@, s.routes@, s.locations@, q); } }
    lem_rr_cost_eq(ctx, s.routes@, o.routes@, m);
}
pub proof fn lem_rr_cost_eq(ctx: &Context, a: Seq<Route>, b: Seq<Route>, k: int)
    requires 0 <= k <= a.len(), a.len() == b.len(), forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).nodes@ == b[i].nodes@
    ensures rr_cost(ctx, a, k) == rr_cost(ctx, b, k)
    decreases k
{ if k > 0 { lem_rr_cost_eq(ctx, a, b, k - 1); assert(a[k - 1].nodes@ == b[k - 1].nodes@); } }
pub proof fn lem_copy_cost(ctx: &Context, s: &RuinRecreateSolution, o: &RuinRecreateSolution)
    requires s.routes@.len() == o.routes@.len(), forall|r: int| 0 <= r < o.routes@.len() ==> route_eq(#[trigger] s.routes@[r], o.routes@[r])
    ensures rr_cost(ctx, s.routes@, s.routes@.len() as int) == rr_cost(ctx, o.routes@, o.routes@.len() as int)
{
    assert forall|i: int| 0 <= i < s.routes@.len() implies (#[trigger] s.routes@[i]).nodes@ == o.routes@[i].nodes@ by { assert(route_eq(s.routes@[i], o.routes@[i])); }
    lem_rr_cost_eq(ctx, s.routes@, o.routes@, s.routes@.len() as int);
}
pub proof fn lem_copy_any(ctx: &Context, s: &RuinRecreateSolution, o: &RuinRecreateSolution)
    ensures o.full(ctx) && copy_of(s, o) && s.unassigned@.len() == 0 && s.ruined_routes@ =~= Set::<usize>::empty() ==> s.full(ctx)
{ if o.full(ctx) && copy_of(s, o) && s.unassigned@.len() == 0 && s.ruined_routes@ =~= Set::<usize>::empty() { lem_copy(ctx, s, o); } }
pub proof fn lem_best_step(start: real, log: Seq<Decision>, d: Decision, best0: real, best1: real)
    requires best_kept(start, log, best0), d.yes ==> (if d.cand < best0 - EPSILON_spec() { best1 == d.cand } else { best1 == best0 }), !d.yes ==> best1 == best0
    ensures best_kept(start, log.push(d), best1)
{
    let l = log.push(d);
    if best1 == d.cand && d.yes { assert(l[log.len() as int] == d); }
    else if best0 != start { let i = choose|i: int| 0 <= i < log.len() && (#[trigger] log[i]).yes && log[i].cand == best0; assert(l[i] == log[i]); }
    assert forall|i: int| 0 <= i < l.len() && (#[trigger] l[i]).yes implies best1 <= l[i].cand + EPSILON_spec() by { if i < log.len() { assert(l[i] == log[i]); } }
}
pub proof fn lem_fair_step(start: real, log: Seq<Decision>, d: Decision)
    requires fair(start, log), d.base == base_at(start, log, log.len() as int)
    ensures fair(start, log.push(d)), base_at(start, log.push(d), log.len() as int + 1) == if d.yes { d.cand } else { d.base }
{
    let l = log.push(d);
    lem_base_frame(start, log, l, log.len() as int);
    assert forall|i: int| 0 <= i < l.len() implies (#[trigger] l[i]).base == base_at(start, l, i) by { if i < log.len() { assert(l[i] == log[i]); lem_base_frame(start, log, l, i); } }
}
pub proof fn lem_base_frame(start: real, a: Seq<Decision>, b: Seq<Decision>, k: int)
    requires 0 <= k <= a.len() <= b.len(), forall|i: int| 0 <= i < a.len() ==> #[trigger] a[i] == b[i]
    ensures base_at(start, a, k) == base_at(start, b, k)
    decreases k
{ if k > 0 { lem_base_frame(start, a, b, k - 1); } }
@fn src/solver/improvement/ruin_recreate/mod.rs RuinRecreate::search
@attr #[verifier::loop_isolation(true)]
@subst self . ruin . run (self . ctx , & mut self . current_solution) ==> self.ruin.run(&self.ctx, &mut self.current_solution)
@subst self . recreate . run (self . ctx , & mut self . current_solution) ==> self.recreate.run(&self.ctx, &mut self.current_solution)
@subst reevaluate (self . ctx) ==> reevaluate(&self.ctx)
@subst let Some (best_solution) = self . best_solution . as_mut () ==> let Some(best_solution) = &mut self.best_solution
@passargs accept Ghost(rval(self.current_solution.cost)), Ghost(rval(self.solution.cost)), &mut log
@spec
requires
    old(self).settled(), finite_now(&old(self).ctx),
ensures
    final(self).settled(), final(self).kept(old(self)),
    // the best solution is never lost
    !old(self).update_penalty ==> best_of(final(self)).cost@ <= best_of(old(self)).cost@,
@at start
let mut log: Ghost<Seq<Decision>> = Ghost(Seq::empty());
let ghost start = best_of(self).cost@; let ghost base0 = self.solution.cost@; let ghost o = *self;
proof { lem_frames(&o.ctx); conf::same_refl(o.ctx.config); lem_moved(&o.ctx, &o.ctx); }
@loop 0
invariant self.settled(), self.kept(&o), finite_now(&o.ctx), 1 <= __i0 <= 1001, __e0 == 1000, update_interval == 1000, o == *old(self),
    __i0 <= 1000 ==> self.ctx.config == o.ctx.config,
    !self.update_penalty ==> best_kept(start, log@, best_of(self).cost@) && fair(base0, log@) && self.solution.cost@ == base_at(base0, log@, log@.len() as int),
decreases 1001 - __i0
@at loop 0 start
let ghost c0 = self.ctx; let ghost log0 = log@;
proof { lem_frames(&c0); lem_copy_cost(&c0, &self.current_solution, &self.solution); }
@at after let cost_before
let ghost c1 = self.ctx; let ghost best0 = best_of(self).cost@; let ghost b0 = self.solution.cost@;
proof { assert(moved(&o.ctx, &c1)) by { conf::lem_scaled(c0.config, c1.config); lem_moved(&c0, &c1); lem_moved_step(&o.ctx, &c0, &c1); } assert(moved(&c1, &c1)) by { conf::same_refl(c1.config); lem_moved(&c1, &c1); } lem_frames(&c1); lem_copy_cost(&c1, &self.current_solution, &self.solution); assert(same_data(&self.ctx, &o.ctx)); assert(pen_of(&o.ctx, self.ctx.pen())); assert(self.ctx.finite()); }
@at after call from
proof { lem_copy_any(&self.ctx, &self.solution, &self.current_solution); lem_copy_any(&self.ctx, &self.current_solution, &self.solution); }
@at before call update
proof { lem_moved_step(&o.ctx, &c1, &self.ctx); if !self.update_penalty { let d = log@[log@.len() - 1]; assert(log@ == log0.push(d)); lem_best_step(start, log0, d, best0, best_of(self).cost@); lem_fair_step(base0, log0, d); } }
@endfn
@fn src/solver/improvement/ruin_recreate/mod.rs RuinRecreate::get_solution
@params individual
@spec
requires self.settled(), old(individual).phenotype@.len() == self.solution.routes@.len(),
ensures
    complete(self.ctx.n(), final(individual).phenotype@), eval_of(&self.ctx, final(individual).evaluation, final(individual).phenotype@),
    exists|p: Seq<Vec<usize>>| #[trigger] holds(self.solution.routes@, p) && same_lists(p, final(individual).phenotype@),
    final(individual).genotype@ == flat_all(final(individual).phenotype@), final(individual).evaluation.penalized_cost@ == self.solution.cost@,
@endfn
@fn src/solver/improvement/ruin_recreate/mod.rs RuinRecreate::get_best_solution
@params individual
@spec
requires self.settled(), old(individual).phenotype@.len() == self.solution.routes@.len(),
ensures
    complete(self.ctx.n(), final(individual).phenotype@), eval_of(&self.ctx, final(individual).evaluation, final(individual).phenotype@),
    exists|p: Seq<Vec<usize>>| #[trigger] holds(best_of(self).routes@, p) && same_lists(p, final(individual).phenotype@),
    final(individual).genotype@ == flat_all(final(individual).phenotype@), final(individual).evaluation.penalized_cost@ == best_of(self).cost@,
    final(individual).phenotype@.len() == old(individual).phenotype@.len(), final(individual).number == old(individual).number,
@at before call update_individual
proof { assert(*best_solution == best_of(self)); }
@at after call update_individual
proof { let p = choose|p: Seq<Vec<usize>>| #[trigger] holds(best_solution.routes@, p) && same_lists(p, individual.phenotype@); assert(holds(best_of(self).routes@, p)); }
@endfn
@fn src/solver/improvement/ruin_recreate/mod.rs RuinRecreate::best_cost
@ret r
@spec
requires self.settled(),
ensures r@ == best_of(self).cost@,
@endfn
@fn src/solver/improvement/ruin_recreate/mod.rs RuinRecreateSolution::new
@params ctx
@ret r
@spec
requires ctx.wf(),
ensures r.routes@.len() == ctx.config.num_vehicles, r.locations@.len() == ctx.n(), r.unassigned@.len() == 0, r.ruined_routes@ =~= Set::<usize>::empty(),
@endfn
@fn src/solver/improvement/ruin_recreate/ruin.rs AdjacentStringRemoval::new
@params ctx
@ret r
@spec
ensures r.cavg == ctx.config.average_ruin_cardinality, r.lmax == ctx.config.max_ruin_string_length,
@endfn
