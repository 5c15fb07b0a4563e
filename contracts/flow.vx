## C11, C03: what the genetic algorithm holds between its steps
@include prelude/base.vx
@include prelude/individual.vx
@include prelude/evalspec.vx
@usefn evaluate.vx Individual::penalized_cost
@usefn evaluate.vx Individual::is_feasible
@usefn evaluate.vx Individual::evaluate
@include prelude/sort.vx
@include prelude/perm.vx
@include prelude/occ.vx
@include prelude/flat.vx
@include prelude/frame.vx
@include prelude/histspec.vx
@include prelude/bestspec.vx
@usefn best.vx SearchHistory::add_message
@usefn best.vx SearchHistory::add
@struct src/solver/genetic/genetic.rs State
@attr #[derive(PartialEq, Eq, Structural)]
@include prelude/confspec.vx
@raw
pub use core::mem::swap;
pub mod setts { use super::*; use vstd::prelude::*;
verus! {
// settings and instance the units on the parts are proved for
#[verifier::opaque]
pub open spec fn settings(c: &Context) -> bool {
    &&& c.wf() && 2 <= c.n() && c.n() < 0x7fff_ffff && numbers_fine(c.problem, c.matrix_provider)
    &&& 1 <= c.config.num_vehicles <= usize::MAX && fleet_bound(c.problem) <= c.config.num_vehicles
    &&& c.config.num_diversity_closest >= 1 && c.config.min_population_size >= 1 && c.config.population_lambda >= 1 && c.config.min_population_size + c.config.population_lambda < 0x7fff_ffff
    &&& c.config.tournament_size >= 1 && c.config.initial_individuals >= 1 && c.config.penalty_inc_multiplier@ >= 0real && c.config.penalty_dec_multiplier@ >= 0real
}
pub broadcast proof fn same_fields(a: Config, b: Config) requires #[trigger] same_but_penalty(a, b)
    ensures b.num_vehicles == a.num_vehicles, b.initial_individuals == a.initial_individuals, b.penalty_update_interval == a.penalty_update_interval, b.log_interval == a.log_interval
{ reveal(same_but_penalty); }
pub proof fn lem_settings(a: &Context, b: &Context) requires settings(a), b.problem == a.problem, b.matrix_provider == a.matrix_provider, same_but_penalty(a.config, b.config) ensures settings(b)
{ reveal(settings); reveal(same_but_penalty); }
pub proof fn lem_fleet(c: &Context) requires settings(c) ensures 1 <= c.config.num_vehicles <= usize::MAX, c.wf() { reveal(settings); }
} }
pub use setts::settings;
broadcast use {conf::same_refl, conf::same_trans, setts::same_fields};
// distances and demands are non-negative and small against the marks of the unreachable, for every penalty of the run
pub uninterp spec fn numbers_fine(p: Problem, m: MatrixProvider) -> bool;
// vehicles needed for the demand (unit `fleet`)
pub uninterp spec fn fleet_bound(p: Problem) -> int;
pub open spec fn ready(c: &Context) -> bool { settings(c) && c.pen() >= 0real && hist_ok(&c.search_history) && holds_best(c, &c.search_history) }
// only the penalty and the recorded history of the context change
pub open spec fn steady(a: &Context, b: &Context) -> bool { same_data(a, b) && same_but_penalty(a.config, b.config) }
pub open spec fn giant(c: &Context, x: Individual) -> bool { perm(x.genotype@, c.n() - 1) }
// a complete solution with one route for each vehicle and its giant tour
pub open spec fn whole(c: &Context, x: Individual) -> bool { complete(c.n(), x.phenotype@) && x.phenotype@.len() == c.config.num_vehicles && x.genotype@ == flat_all(x.phenotype@) }
// and with the evaluation of its routes
pub open spec fn judged(c: &Context, x: Individual) -> bool { whole(c, x) && eval_of(c, x.evaluation, x.phenotype@) }
pub proof fn lem_whole(c: &Context, x: Individual)
    requires whole(c, x), settings(c)
    ensures giant(c, x), x.genotype@.len() == c.n() - 1
{
    reveal(settings);
    lem_complete_len(c.n(), x.phenotype@); lem_flat_len(x.phenotype@, x.phenotype@.len() as int);
    let f = flat_all(x.phenotype@);
    assert forall|i: int| 0 <= i < f.len() implies in_1n(#[trigger] f[i], c.n() - 1) by { lem_occ_pos(f, i); lem_flat_occ(x.phenotype@, x.phenotype@.len() as int, f[i]); reveal(complete); assert(locc(x.phenotype@, x.phenotype@.len() as int, f[i]) == if 0 < f[i] < c.n() { 1int } else { 0int }); }
}
// ---- the parts, with the contracts their units prove
pub open spec fn same_tours(a: Individual, b: Individual) -> bool { a.phenotype == b.phenotype && a.genotype == b.genotype }
pub open spec fn all_whole(c: &Context, p: Seq<Individual>) -> bool { forall|i: int| 0 <= i < p.len() ==> whole(c, #[trigger] p[i]) }
pub open spec fn some_of(p: Seq<Individual>, x: Individual) -> bool { exists|i: int| 0 <= i < p.len() && same_tours(#[trigger] p[i], x) }
pub open spec fn from_of(p: Seq<Individual>, s: Seq<Individual>) -> bool { forall|i: int| 0 <= i < p.len() ==> some_of(s, #[trigger] p[i]) }
pub struct Population { pub total_individuals_count: u64, pub g: Ghost<int> }
impl Population {
    // both subpopulations
    pub uninterp spec fn members(&self) -> Seq<Individual>;
    // invariant of unit `population`
    pub uninterp spec fn sound(&self, n: int) -> bool;
    #[verifier::external_body] pub fn new(ctx: &Context) -> (r: Self) requires settings(ctx) ensures r.sound(ctx.n()), r.members().len() == 0, r.total_individuals_count == 0 { unimplemented!() }
    #[verifier::external_body] pub fn add_individual(&mut self, ctx: &Context, individual: Individual, update_feasibility_history: bool)
        requires settings(ctx), old(self).sound(ctx.n()), individual.genotype@.len() + 1 == ctx.n(), individual.evaluation.successors@.len() == ctx.n(), individual.evaluation.predecessors@.len() == ctx.n(), old(self).total_individuals_count < u64::MAX
        ensures final(self).sound(ctx.n()), final(self).total_individuals_count == old(self).total_individuals_count + 1, final(self).members().len() >= 1, from_of(final(self).members(), old(self).members().push(individual)) { unimplemented!() }
    #[verifier::external_body] pub fn get_parent(&self, ctx: &Context) -> (r: &Individual) requires settings(ctx), self.members().len() >= 1 ensures exists|i: int| 0 <= i < self.members().len() && *r == #[trigger] self.members()[i] { unimplemented!() }
}
pub struct LocalSearch { pub g: Ghost<int> }
impl LocalSearch {
    // idle state for instances with n nodes and v vehicles (unit `lsload`)
    pub uninterp spec fn idle(&self, n: int, v: int) -> bool;
    #[verifier::external_body] pub fn new(ctx: &Context, penalty_multiplier: R) -> (r: Self) requires settings(ctx) ensures r.idle(ctx.n(), ctx.config.num_vehicles as int) { unimplemented!() }
    #[verifier::external_body] pub fn run(&mut self, ctx: &Context, individual: &mut Individual, penalty_multiplier: R)
        requires settings(ctx), ctx.pen() * penalty_multiplier@ >= 0real, old(self).idle(ctx.n(), ctx.config.num_vehicles as int), complete(ctx.n(), old(individual).phenotype@), old(individual).phenotype@.len() == ctx.config.num_vehicles
        ensures final(self).idle(ctx.n(), ctx.config.num_vehicles as int), judged(ctx, *final(individual)), final(individual).number == old(individual).number { unimplemented!() }
}
pub struct Split { pub g: Ghost<int> }
impl Split {
    pub uninterp spec fn fits(&self, n: int, v: int) -> bool;
    #[verifier::external_body] pub fn new(ctx: &Context) -> (r: Self) requires settings(ctx) ensures r.fits(ctx.n(), ctx.config.num_vehicles as int) { unimplemented!() }
    #[verifier::external_body] pub fn run(&mut self, ctx: &Context, individual: &mut Individual, max_vehicles: u64)
        requires settings(ctx), ctx.pen() >= 0real, old(self).fits(ctx.n(), ctx.config.num_vehicles as int), giant(ctx, *old(individual)), 1 <= max_vehicles <= ctx.config.num_vehicles
        ensures final(self).fits(ctx.n(), ctx.config.num_vehicles as int), judged(ctx, *final(individual)), final(individual).number == old(individual).number { unimplemented!() }
}
pub uninterp spec fn rr_fits(g: Ghost<int>, n: int, v: int) -> bool;
pub uninterp spec fn rr_settled(g: Ghost<int>, c: &Context) -> bool;
pub struct AcceptanceCriterion { pub g: Ghost<int> }
impl AcceptanceCriterion { #[verifier::external_body] pub fn reset(&mut self) { unimplemented!() } }
pub struct IterationSchedule { pub g: Ghost<int> }
impl IterationSchedule {
    #[verifier::external_body] pub fn new(start_temperature: R, iterations: usize) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] pub fn into(self) -> (r: AcceptanceCriterion) { unimplemented!() }
}
pub struct RuinRecreate { pub acceptance: AcceptanceCriterion, pub g: Ghost<int> }
impl RuinRecreate {
    #[verifier::external_body] pub fn set_acceptance(&mut self, acceptance: AcceptanceCriterion) ensures final(self).g == old(self).g { unimplemented!() }
    #[verifier::external_body] pub fn best_cost(&self) -> (r: R) { unimplemented!() }
    pub open spec fn fits(&self, n: int, v: int) -> bool { rr_fits(self.g, n, v) }
    // a solution of the context is loaded and exact (unit `rrsearch`)
    pub open spec fn settled(&self, c: &Context) -> bool { rr_settled(self.g, c) }
    pub uninterp spec fn done(&self) -> bool;
    #[verifier::external_body] pub fn new(ctx: &Context) -> (r: Self) requires settings(ctx) ensures r.fits(ctx.n(), ctx.config.num_vehicles as int) { unimplemented!() }
    #[verifier::external_body] pub fn complete(&self) -> (r: bool) ensures r == self.done() { unimplemented!() }
    #[verifier::external_body] pub fn load(&mut self, ctx: &Context, individual: &mut Individual)
        requires settings(ctx), ctx.pen() >= 0real, hist_ok(&ctx.search_history), old(self).fits(ctx.n(), ctx.config.num_vehicles as int), judged(ctx, *old(individual))
        ensures *final(individual) == *old(individual), final(self).fits(ctx.n(), ctx.config.num_vehicles as int), final(self).settled(ctx) { unimplemented!() }
    // works on the context it was loaded with, which is the one of the algorithm
    #[verifier::external_body] pub fn search(&mut self, ctx: &mut Context)
        requires ready(old(ctx)), old(self).settled(old(ctx)), old(self).fits(old(ctx).n(), old(ctx).config.num_vehicles as int)
        ensures ready(final(ctx)), steady(old(ctx), final(ctx)), final(self).settled(final(ctx)), final(self).fits(final(ctx).n(), final(ctx).config.num_vehicles as int) { unimplemented!() }
    #[verifier::external_body] pub fn get_best_solution(&self, individual: &mut Individual, Ghost(ctx): Ghost<Context>)
        requires self.settled(&ctx), old(individual).phenotype@.len() == ctx.config.num_vehicles
        ensures judged(&ctx, *final(individual)), final(individual).number == old(individual).number { unimplemented!() }
    // proved in rrsetup: only the acceptance criterion and the penalty flag change
    #[verifier::external_body] pub fn setup_elite_education(&mut self, ctx: &Context) ensures final(self).fits(ctx.n(), ctx.config.num_vehicles as int) == old(self).fits(ctx.n(), ctx.config.num_vehicles as int) { unimplemented!() }
    #[verifier::external_body] pub fn setup_mutation(&mut self, ctx: &Context) ensures final(self).fits(ctx.n(), ctx.config.num_vehicles as int) == old(self).fits(ctx.n(), ctx.config.num_vehicles as int) { unimplemented!() }
}
impl Clone for Individual { #[verifier::external_body] fn clone(&self) -> (r: Individual) ensures r == *self { unimplemented!() } }
impl Context {
    #[verifier::external_body] pub fn terminate(&self) -> (r: bool) { unimplemented!() }
    // unit `ga`
    #[verifier::external_body] pub fn next_iteration(&mut self) ensures *final(self) == (Context { iteration: final(self).iteration, ..*old(self) }) { unimplemented!() }
    // unit `fleet`
    #[verifier::external_body] pub fn reset_penalty(&mut self) requires settings(old(self))
        ensures steady(old(self), final(self)), final(self).pen() >= 0real, final(self).search_history == old(self).search_history { unimplemented!() }
}
#[verifier::external_body] pub fn INFINITY_val() -> (r: R) ensures r@ == inf_spec() { unimplemented!() }
@struct src/solver/genetic/genetic.rs GeneticAlgorithm
@raw
impl GeneticAlgorithm {
    pub open spec fn parts_fit(&self, c: &Context) -> bool {
        self.ls.idle(c.n(), c.config.num_vehicles as int) && self.split.fits(c.n(), c.config.num_vehicles as int) && self.rr.fits(c.n(), c.config.num_vehicles as int)
        && self.population.sound(c.n()) && all_whole(c, self.population.members())
    }
    pub open spec fn best_fine(&self, c: &Context) -> bool { match self.best_solution { Some(x) => whole(c, x) && eval_feasible(c, x.phenotype@), None => true } }
    // what holds between two steps
    pub open spec fn holds(&self, c: &Context) -> bool {
        &&& ready(c) && self.parts_fit(c) && giant(c, self.child) && self.best_fine(c)
        &&& self.state == State::EliteEducation ==> self.rr.settled(c) && whole(c, self.child)
        &&& self.state == State::Created || self.state == State::EliteEducation ==> self.num_initialized == 0
        &&& self.state == State::Cycle || (self.state == State::Initialization && self.num_initialized > 0) ==> self.population.members().len() > 0
    }
    pub open spec fn counters_ok(&self, c: &Context) -> bool {
        &&& self.best_iteration <= self.iterations && self.iterations < u64::MAX && c.iteration < u64::MAX
        &&& self.population.total_individuals_count < u64::MAX - 2
        &&& self.next_penalty_update + c.config.penalty_update_interval <= u64::MAX && self.next_log_interval + c.config.log_interval <= u64::MAX
    }
}
pub proof fn lem_frame_eval(a: &Context, b: &Context, e: SolutionEvaluation, s: Seq<Vec<usize>>)
    requires same_data(a, b), a.pen() == b.pen(), eval_of(a, e, s)
    ensures eval_of(b, e, s)
{
    lem_frame_total(a, b, s, s.len() as int); lem_frame_feasible(a, b, s);
    assert forall|i: int| 0 <= i < s.len() implies (#[trigger] e.routes@[i]).distance@ == route_dist(b, s[i]@) && e.routes@[i].overload@ == route_over(b, s[i]@) && e.routes@[i].penalized_cost@ == route_pcost(b, s[i]@) by { lem_frame_route(a, b, s[i]@); assert(e.routes@[i].distance@ == route_dist(a, s[i]@)); }
}
pub open spec fn kept_alive(a: &GeneticAlgorithm, b: &GeneticAlgorithm) -> bool { (a.population.members().len() > 0 ==> b.population.members().len() > 0) && b.population.total_individuals_count <= a.population.total_individuals_count + 1 && (a.best_iteration <= a.iterations ==> b.best_iteration <= b.iterations) }
pub open spec fn same_phase(a: &GeneticAlgorithm, b: &GeneticAlgorithm) -> bool {
    b.state == a.state && b.iterations == a.iterations && b.num_initialized == a.num_initialized && b.next_penalty_update == a.next_penalty_update && b.next_log_interval == a.next_log_interval
}
pub proof fn lem_added(c: &Context, p: Seq<Individual>, q: Seq<Individual>, x: Individual)
    requires all_whole(c, p), whole(c, x), from_of(q, p.push(x))
    ensures all_whole(c, q)
{
    let s = p.push(x);
    assert forall|i: int| 0 <= i < q.len() implies whole(c, #[trigger] q[i]) by { assert(some_of(s, q[i])); let j = choose|j: int| 0 <= j < s.len() && same_tours(#[trigger] s[j], q[i]); if j < p.len() { assert(s[j] == p[j]); assert(whole(c, p[j])); } }
}
pub proof fn lem_kept(c: &Context, p: Seq<Individual>, q: Seq<Individual>)
    requires all_whole(c, p), from_of(q, p)
    ensures all_whole(c, q)
{ assert forall|i: int| 0 <= i < q.len() implies whole(c, #[trigger] q[i]) by { assert(some_of(p, q[i])); let j = choose|j: int| 0 <= j < p.len() && same_tours(#[trigger] p[j], q[i]); assert(whole(c, p[j])); } }
pub proof fn lem_some_route(c: &Context, x: Individual)
    requires whole(c, x), settings(c)
    ensures exists|i: int| 0 <= i < x.phenotype@.len() && (#[trigger] x.phenotype@[i])@.len() > 0
{
    reveal(settings); reveal(complete);
    assert(locc(x.phenotype@, x.phenotype@.len() as int, 1usize) == 1);
    lem_none_filled(x.phenotype@, x.phenotype@.len() as int);
}
pub proof fn lem_none_filled(s: Seq<Vec<usize>>, k: int)
    requires 0 <= k <= s.len()
    ensures locc(s, k, 1usize) != 0 ==> exists|i: int| 0 <= i < k && (#[trigger] s[i])@.len() > 0
    decreases k
{ if k > 0 { lem_none_filled(s, k - 1); if s[k - 1]@.len() > 0 { assert(s[k - 1]@.len() > 0); } else { assert(occ(s[k - 1]@, 1usize) == 0) by { lem_occ_range(s[k - 1]@, 1usize); if occ(s[k - 1]@, 1usize) > 0 { let i = lem_occ_find(s[k - 1]@, 1usize); } } } } }
pub proof fn lem_shuffled(a: Seq<usize>, b: Seq<usize>, n: int)
    requires rearranged(a, b), a.len() == n, forall|i: int| 0 <= i < a.len() ==> #[trigger] a[i] == i + 1
    ensures perm(b, n)
{
    let q = choose|q: Seq<int>| permuted_by(a, b, q);
    assert forall|i: int| 0 <= i < b.len() implies in_1n(#[trigger] b[i], n) by { assert(b[i] == a[q[i]]); assert(0 <= q[i] < n); }
    assert forall|i: int, j: int| 0 <= i < b.len() && 0 <= j < b.len() && i != j implies b[i] != b[j] by { assert(b[i] == a[q[i]] && b[j] == a[q[j]]); assert(q[i] != q[j]); }
}
// facts about one context that hold about another one of the same run
pub mod moves { use super::*; use vstd::prelude::*;
verus! {
pub broadcast proof fn settings_move(a: &Context, b: &Context) requires #[trigger] settings(a), steady(a, b) ensures #[trigger] settings(b) { setts::lem_settings(a, b); }
pub broadcast proof fn feasible_moves(a: &Context, b: &Context, s: Seq<Vec<usize>>) requires same_data(a, b), #[trigger] eval_feasible(a, s) ensures #[trigger] eval_feasible(b, s) { lem_frame_feasible(a, b, s); }
pub broadcast proof fn best_moves(a: &Context, b: &Context, h: &SearchHistory, k: &SearchHistory) requires #[trigger] holds_best(a, h), same_data(a, b), k.history == h.history ensures #[trigger] holds_best(b, k) { lem_holds_frame(a, b, h, k); }
pub broadcast proof fn eval_moves(a: &Context, b: &Context, e: SolutionEvaluation, s: Seq<Vec<usize>>) requires same_data(a, b), a.pen() == b.pen(), #[trigger] eval_of(a, e, s) ensures #[trigger] eval_of(b, e, s) { lem_frame_eval(a, b, e, s); }
pub broadcast proof fn whole_gives(c: &Context, x: Individual) requires #[trigger] whole(c, x), settings(c) ensures giant(c, x), x.genotype@.len() == c.n() - 1, exists|i: int| 0 <= i < x.phenotype@.len() && (#[trigger] x.phenotype@[i])@.len() > 0 { lem_whole(c, x); lem_some_route(c, x); }
pub broadcast proof fn added(c: &Context, p: Seq<Individual>, q: Seq<Individual>, x: Individual) requires #[trigger] all_whole(c, p), whole(c, x), #[trigger] from_of(q, p.push(x)) ensures all_whole(c, q) { lem_added(c, p, q, x); }
pub broadcast proof fn kept(c: &Context, p: Seq<Individual>, q: Seq<Individual>) requires #[trigger] all_whole(c, p), #[trigger] from_of(q, p) ensures all_whole(c, q) { lem_kept(c, p, q); }
} }
impl GeneticAlgorithm {
    // unit `crossover`
    #[verifier::external_body] pub fn crossover(&self, ctx: &Context, parent_one: &Individual, parent_two: &Individual) -> (r: Individual)
        requires perm(parent_one.genotype@, parent_one.genotype@.len() as int), perm(parent_two.genotype@, parent_one.genotype@.len() as int) ensures perm(r.genotype@, parent_one.genotype@.len() as int) { unimplemented!() }
    // unit `penalty`: the members keep their tours
    #[verifier::external_body] pub fn update_penalty(&mut self, ctx: &mut Context)
        requires settings(old(ctx)), old(self).population.sound(old(ctx).n()), old(self).next_penalty_update + old(ctx).config.penalty_update_interval <= u64::MAX,
        ensures steady(old(ctx), final(ctx)), final(ctx).pen() >= 0real, final(ctx).search_history == old(ctx).search_history, final(ctx).iteration == old(ctx).iteration,
            final(self).population.sound(old(ctx).n()), from_of(final(self).population.members(), old(self).population.members()), final(self).population.members().len() == old(self).population.members().len(),
            *final(self) == (GeneticAlgorithm { next_penalty_update: final(self).next_penalty_update, population: final(self).population, ..*old(self) }) { unimplemented!() }
    // formats and writes a line
    #[verifier::external_body] pub fn log(&mut self, ctx: &Context)
        requires old(self).next_log_interval + ctx.config.log_interval <= u64::MAX,
        ensures *final(self) == (GeneticAlgorithm { next_log_interval: final(self).next_log_interval, diversity: final(self).diversity, ..*old(self) }) { unimplemented!() }
}
@helpers src/solver/context.rs src/solver/genetic/genetic.rs
@fn src/models/problem.rs Problem::num_customers
@ret r
@spec
requires self.nodes@.len() >= 1,
ensures r == self.nodes@.len() - 1,
@endfn
@fn src/solver/genetic/individual.rs Individual::num_nonempty_routes
@ret r
@spec
ensures r <= self.phenotype@.len(), (exists|i: int| 0 <= i < self.phenotype@.len() && (#[trigger] self.phenotype@[i])@.len() > 0) ==> r >= 1,
@loop 0
invariant __i0 <= self.phenotype@.len(), __a0 <= __i0, __a0 == 0 ==> forall|i: int| 0 <= i < __i0 ==> (#[trigger] self.phenotype@[i])@.len() == 0,
decreases self.phenotype@.len() - __i0
@endfn
@fn src/solver/evaluate.rs SolutionEvaluation::new
@ret r
@endfn
@fn src/solver/genetic/individual.rs Individual::new_random
@params ctx number
@ret r
@spec
requires settings(ctx),
ensures giant(ctx, r), r.phenotype@.len() == ctx.config.num_vehicles, r.number == number,
@loop 0
invariant 1 <= __i0 <= __e0, __e0 == ctx.n(), __a0@.len() == __i0 - 1, forall|i: int| 0 <= i < __a0@.len() ==> #[trigger] __a0@[i] == i + 1,
decreases __e0 - __i0
@at start
proof { reveal(settings); }
@at before call shuffle
let ghost g0 = genotype@;
@at after call shuffle
proof { lem_shuffled(g0, genotype@, ctx.n() - 1); }
@endfn
@fn src/solver/genetic/genetic.rs GeneticAlgorithm::new
@params ctx
@ret r
@spec
requires ready(ctx),
ensures r.holds(ctx), r.state == State::Created,
@at start
broadcast use {moves::settings_move, moves::feasible_moves, moves::best_moves, moves::eval_moves, moves::whole_gives, moves::added, moves::kept};
@endfn
@fn src/solver/genetic/genetic.rs GeneticAlgorithm::update_best
@params ctx
@mut ctx
@subst search_history . add (ctx , & self . child) ==> search_history.add(&self.child)
@spec
requires ready(old(ctx)), judged(old(ctx), old(self).child), old(self).best_fine(old(ctx)),
ensures ready(final(ctx)), steady(old(ctx), final(ctx)), final(ctx).config == old(ctx).config, judged(final(ctx), final(self).child), final(self).best_fine(final(ctx)),
    *final(self) == (GeneticAlgorithm { best_solution: final(self).best_solution, best_iteration: final(self).best_iteration, current_best_solution_cost: final(self).current_best_solution_cost, ..*old(self) }),
    final(ctx).iteration == old(ctx).iteration, final(self).best_iteration == old(self).best_iteration || final(self).best_iteration == old(self).iterations,
@at exit
proof {
    let o = old(ctx);
    if ctx.search_history.history != o.search_history.history { let h = ctx.search_history.history@; lem_frame_feasible(o, ctx, self.child.phenotype@); assert(records(h[h.len() - 1], self.child)); assert(found(ctx, o, h[h.len() - 1], self.child)); }
}
@at start
broadcast use {moves::settings_move, moves::feasible_moves, moves::best_moves, moves::eval_moves, moves::whole_gives, moves::added, moves::kept};
@endfn
@fn src/solver/genetic/genetic.rs GeneticAlgorithm::educate
@attr #[verifier::exec_allows_no_decreases_clause]
@params ctx
@mut ctx
@subst self . rr . search () ==> self.rr.search(ctx)
@passargs get_best_solution Ghost(*ctx)
@spec
requires ready(old(ctx)), old(self).parts_fit(old(ctx)), judged(old(ctx), old(self).child), old(self).best_fine(old(ctx)), old(self).population.total_individuals_count < u64::MAX,
ensures ready(final(ctx)), steady(old(ctx), final(ctx)), final(self).parts_fit(final(ctx)), judged(final(ctx), final(self).child), final(self).best_fine(final(ctx)), same_phase(old(self), final(self)), kept_alive(old(self), final(self)),
@at start
broadcast use {moves::settings_move, moves::feasible_moves, moves::best_moves, moves::eval_moves, moves::whole_gives, moves::added, moves::kept};
let ghost c0 = *ctx;
@loop 0
invariant ready(ctx), steady(&c0, ctx), self.rr.settled(ctx), self.rr.fits(ctx.n(), ctx.config.num_vehicles as int),
@endfn
@fn src/solver/genetic/genetic.rs GeneticAlgorithm::reset
@params ctx
@mut ctx
@spec
requires ready(old(ctx)), old(self).parts_fit(old(ctx)), giant(old(ctx), old(self).child), old(self).best_fine(old(ctx)),
ensures final(self).holds(final(ctx)), steady(old(ctx), final(ctx)), final(self).iterations == old(self).iterations, final(self).state == State::Created,
@at start
broadcast use {moves::settings_move, moves::feasible_moves, moves::best_moves, moves::eval_moves, moves::whole_gives, moves::added, moves::kept};
@endfn
@fn src/solver/genetic/genetic.rs GeneticAlgorithm::add_individual
@params ctx individual
@spec
requires settings(ctx), old(self).parts_fit(ctx), judged(ctx, individual), old(self).population.total_individuals_count < u64::MAX,
ensures *final(self) == (GeneticAlgorithm { population: final(self).population, ..*old(self) }), final(self).parts_fit(ctx), final(self).population.members().len() > 0,
@at start
broadcast use {moves::settings_move, moves::feasible_moves, moves::best_moves, moves::eval_moves, moves::whole_gives, moves::added, moves::kept};
@endfn
@fn src/solver/genetic/genetic.rs GeneticAlgorithm::add_initial
@params ctx individual
@mut ctx
@spec
requires old(self).holds(old(ctx)), old(self).state != State::EliteEducation, judged(old(ctx), individual), old(self).population.total_individuals_count < u64::MAX,
ensures final(self).holds(final(ctx)), steady(old(ctx), final(ctx)), same_phase(old(self), final(self)),
@at start
broadcast use {moves::settings_move, moves::feasible_moves, moves::best_moves, moves::eval_moves, moves::whole_gives, moves::added, moves::kept};
@endfn
@fn src/solver/genetic/genetic.rs GeneticAlgorithm::create_initial_individual
@params ctx
@mut ctx
@ret r
@spec
requires old(self).holds(old(ctx)), old(self).population.total_individuals_count < u64::MAX,
ensures ready(final(ctx)), steady(old(ctx), final(ctx)), final(self).parts_fit(final(ctx)), final(self).best_fine(final(ctx)), same_phase(old(self), final(self)), kept_alive(old(self), final(self)),
    judged(final(ctx), r), final(self).child == old(self).child,
@at start
broadcast use {moves::settings_move, moves::feasible_moves, moves::best_moves, moves::eval_moves, moves::whole_gives, moves::added, moves::kept};
proof { reveal(settings); }
@endfn
@fn src/solver/genetic/genetic.rs GeneticAlgorithm@Metaheuristic::iterate
@params ctx
@mut ctx
@subst self . rr . search () ==> self.rr.search(ctx)
@passargs get_best_solution Ghost(*ctx)
@spec
requires old(self).holds(old(ctx)), old(self).counters_ok(old(ctx)),
ensures final(self).holds(final(ctx)), steady(old(ctx), final(ctx)),
@at start
broadcast use {moves::settings_move, moves::feasible_moves, moves::best_moves, moves::eval_moves, moves::whole_gives, moves::added, moves::kept};
proof { reveal(settings); }
@endfn
@struct src/solver/genetic/decomposition.rs DecomposedGeneticAlgorithm
@omit state
@raw
pub open spec fn calm(c: &Context, s: DecomposedGeneticAlgorithm) -> bool { s.global_ga.holds(c) && s.global_ga.state == State::Created }
@fn src/solver/genetic/decomposition.rs DecomposedGeneticAlgorithm::create_global_solution
@attr #[verifier::exec_allows_no_decreases_clause]
@params ctx
@mut ctx
@ret r
@subst rr . search () ==> rr.search(ctx)
@passargs get_best_solution Ghost(*ctx)
@spec
requires ready(old(ctx)), old(self).global_ga.parts_fit(old(ctx)), old(self).global_ga.best_fine(old(ctx)), old(self).global_ga.population.total_individuals_count < u64::MAX,
ensures ready(final(ctx)), steady(old(ctx), final(ctx)), final(self).global_ga.parts_fit(final(ctx)), final(self).global_ga.best_fine(final(ctx)), judged(final(ctx), r),
@at start
broadcast use {moves::settings_move, moves::feasible_moves, moves::best_moves, moves::eval_moves, moves::whole_gives, moves::added, moves::kept};
let ghost c0 = *ctx;
proof { setts::lem_fleet(ctx); }
@at before call run
let ghost c1 = *ctx;
proof { conf::lem_scaled(c0.config, c1.config); }
@loop 0
invariant ready(ctx), steady(&c0, ctx), rr.settled(ctx), rr.fits(ctx.n(), ctx.config.num_vehicles as int), whole(ctx, self.global_ga.child),
@loop 1
invariant ready(ctx), steady(&c0, ctx), rr.settled(ctx), rr.fits(ctx.n(), ctx.config.num_vehicles as int),
@at after call clone
let ghost c2 = *ctx;
@at before call evaluate
proof { conf::lem_scaled(c2.config, ctx.config); setts::lem_fleet(ctx); lem_complete(ctx.n(), child.phenotype@); }
@endfn
