## C08/C09/C10/C11: ruin and recreate as it is created and configured
@include prelude/base.vx
@include prelude/individual.vx
@include prelude/evalspec.vx
@include prelude/sort.vx
@include prelude/perm.vx
@include prelude/hashset.vx
@include prelude/occ.vx
@include prelude/schedspec.vx
@include prelude/rrspec.vx
@struct src/solver/improvement/ruin_recreate/ruin.rs AdjacentStringRemoval
@struct src/solver/improvement/ruin_recreate/recreate.rs GreedyBlink
@struct src/solver/improvement/ruin_recreate/mod.rs RuinRecreate
@field ctx: Context
@field ruin: AdjacentStringRemoval
@field recreate: GreedyBlink
@raw
impl Clone for Context { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl IterationSchedule { pub fn into(self) -> (r: AcceptanceCriterion) ensures r == AcceptanceCriterion::Iteration(self) { AcceptanceCriterion::Iteration(self) } }
impl TimeSchedule { pub fn into(self) -> (r: AcceptanceCriterion) ensures r == AcceptanceCriterion::Time(self) { AcceptanceCriterion::Time(self) } }
// an empty solution with a route for each vehicle
pub open spec fn blank(c: &Context, s: &RuinRecreateSolution) -> bool {
    &&& s.routes@.len() == c.config.num_vehicles && s.locations@.len() == c.n() && s.unassigned@.len() == 0 && s.ruined_routes@ =~= Set::<usize>::empty()
    &&& forall|r: int| 0 <= r < s.routes@.len() ==> (#[trigger] s.routes@[r]).nodes@.len() == 0
}
// a fresh schedule over `total` iterations from temperature `start`
pub open spec fn cools(a: AcceptanceCriterion, start: real, total: int) -> bool {
    match a { AcceptanceCriterion::Iteration(s) => s.iteration == 0 && s.temp@ == start && s.start_temp@ == start && s.total_iterations == total && (start > 0real && total > 0 ==> s.ok()), AcceptanceCriterion::Time(_) => false }
}
pub open spec fn cools_in(a: AcceptanceCriterion, start: real, secs: real) -> bool {
    match a { AcceptanceCriterion::Iteration(_) => false, AcceptanceCriterion::Time(s) => s.fresh() && s.start_temp@ == start && s.duration@ == secs && (start > 0real && secs > 0real ==> s.ok()) }
}
pub open spec fn mutation_steps(c: &Context) -> int { round_spec(c.config.rr_gamma@ * ((c.n() - 1) as real)) }
pub open spec fn elite_steps(c: &Context) -> int { round_spec(c.config.elite_education_gamma@ * ((c.n() - 1) as real)) }
pub open spec fn elite_secs(c: &Context) -> real { (c.config.time_limit as real) * c.config.elite_education_time_fraction@ }
// the numbers the settings give fit the machine
pub open spec fn tunable(c: &Context) -> bool {
    &&& c.wf() && c.n() >= 1
    &&& 0real <= c.config.rr_gamma@ * ((c.n() - 1) as real) && mutation_steps(c) <= usize::MAX
    &&& 0real <= c.config.elite_education_gamma@ * ((c.n() - 1) as real) && elite_steps(c) <= usize::MAX
    &&& elite_secs(c) >= 0real
}
pub open spec fn tuned(c: &Context, r: &RuinRecreate) -> bool { !r.update_penalty && cools(r.acceptance, c.config.rr_start_temp@, mutation_steps(c)) }
@usefn schedule.vx IterationSchedule::new
@usefn schedule.vx TimeSchedule::new
@fn src/models/problem.rs Problem::num_customers
@ret r
@spec
requires self.nodes@.len() >= 1,
ensures r == self.nodes@.len() - 1,
@endfn
@fn src/solver/improvement/ruin_recreate/node.rs NodeLocation::empty
@ret r
@endfn
@fn src/solver/improvement/ruin_recreate/node.rs Route::empty
@ret r
@spec
ensures r.nodes@.len() == 0,
@endfn
@fn src/solver/improvement/ruin_recreate/ruin.rs AdjacentStringRemoval::new
@params ctx
@ret r
@spec
ensures r.cavg == ctx.config.average_ruin_cardinality, r.lmax == ctx.config.max_ruin_string_length,
@endfn
@fn src/solver/improvement/ruin_recreate/recreate.rs GreedyBlink@Default::default
@ret r
@endfn
@fn src/solver/improvement/ruin_recreate/mod.rs RuinRecreateSolution::new
@params ctx
@ret r
@spec
requires ctx.wf(),
ensures blank(ctx, &r),
@at exit
proof { assert forall|k: int| 0 <= k < routes@.len() implies (#[trigger] routes@[k]).nodes@.len() == 0 by { let q = routes@[k]; assert(exists|e: Route| cloned(e, q)); assert(forall|e: Route| cloned(e, q) ==> e == q); assert(exists|e: Route| #[trigger] cloned(e, q) && e.nodes@.len() == 0); } }
@endfn
@fn src/solver/improvement/ruin_recreate/mod.rs RuinRecreate::set_acceptance
@params acceptance
@spec
ensures *final(self) == (RuinRecreate { acceptance: acceptance, ..*old(self) }),
@endfn
@fn src/solver/improvement/ruin_recreate/mod.rs RuinRecreate::setup_mutation
@params ctx
@spec
requires tunable(ctx),
ensures tuned(ctx, final(self)), *final(self) == (RuinRecreate { acceptance: final(self).acceptance, update_penalty: false, ..*old(self) }),
@endfn
@fn src/solver/improvement/ruin_recreate/mod.rs RuinRecreate::setup_elite_education
@params ctx
@spec
requires tunable(ctx),
ensures final(self).update_penalty, *final(self) == (RuinRecreate { acceptance: final(self).acceptance, update_penalty: true, ..*old(self) }),
    ctx.config.elite_education_time_based ==> cools_in(final(self).acceptance, ctx.config.elite_education_start_temp@, elite_secs(ctx)),
    !ctx.config.elite_education_time_based ==> cools(final(self).acceptance, ctx.config.elite_education_start_temp@, elite_steps(ctx)),
@endfn
@fn src/solver/improvement/ruin_recreate/mod.rs RuinRecreate::new
@params ctx
@ret r
@subst & * (ctx as * const Context) ==> ctx.clone()
@subst Box :: new (AdjacentStringRemoval :: new (ctx)) ==> AdjacentStringRemoval::new(ctx)
@subst Box :: new (GreedyBlink :: default ()) ==> GreedyBlink::default()
@spec
requires tunable(ctx),
ensures r.ctx == *ctx, blank(ctx, &r.solution), blank(ctx, &r.current_solution), r.best_solution is None, tuned(ctx, &r),
@endfn
