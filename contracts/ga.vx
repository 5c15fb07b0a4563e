## C21: phases of the genetic algorithm
@include prelude/base.vx
@include prelude/individual.vx
@include prelude/evalspec.vx
@usefn evaluate.vx Individual::penalized_cost
@usefn evaluate.vx Individual::is_feasible
@struct src/solver/genetic/genetic.rs State
@attr #[derive(PartialEq, Eq, Structural)]
@raw
// The parts of the algorithm, seen only through who owns what: what they compute is the subject of other units
pub use core::mem::swap;
pub struct Population { pub total_individuals_count: u64, pub g: Ghost<int> }
pub struct LocalSearch { pub g: Ghost<int> }
pub struct RuinRecreate { pub g: Ghost<int> }
pub struct Split { pub g: Ghost<int> }
impl Population {
    // both proved in unit `population`
    #[verifier::external_body] pub fn new(ctx: &Context) -> (r: Self) ensures r.total_individuals_count == 0 { unimplemented!() }
    #[verifier::external_body] pub fn add_individual(&mut self, ctx: &Context, individual: Individual, update_feasibility_history: bool)
        requires old(self).total_individuals_count < u64::MAX ensures final(self).total_individuals_count == old(self).total_individuals_count + 1 { unimplemented!() }
    #[verifier::external_body] pub fn get_parent(&self, ctx: &Context) -> (r: &Individual) { unimplemented!() }
}
impl LocalSearch { #[verifier::external_body] pub fn new(ctx: &Context, penalty_multiplier: R) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] pub fn run(&mut self, ctx: &Context, individual: &mut Individual, penalty_multiplier: R) { unimplemented!() } }
impl Split { #[verifier::external_body] pub fn new(ctx: &Context) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] pub fn run(&mut self, ctx: &Context, individual: &mut Individual, max_vehicles: u64) { unimplemented!() } }
impl RuinRecreate {
    #[verifier::external_body] pub fn new(ctx: &Context) -> (r: Self) { unimplemented!() }
    pub uninterp spec fn done(&self) -> bool;
    #[verifier::external_body] pub fn complete(&self) -> (r: bool) ensures r == self.done() { unimplemented!() }
    #[verifier::external_body] pub fn load(&mut self, ctx: &Context, individual: &Individual) { unimplemented!() }
    #[verifier::external_body] pub fn search(&mut self) { unimplemented!() }
    #[verifier::external_body] pub fn get_best_solution(&self, individual: &mut Individual) { unimplemented!() }
    #[verifier::external_body] pub fn setup_elite_education(&mut self, ctx: &Context) { unimplemented!() }
    #[verifier::external_body] pub fn setup_mutation(&mut self, ctx: &Context) { unimplemented!() }
}
impl Individual {
    #[verifier::external_body] pub fn new_random(ctx: &Context, number: u64) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] pub fn num_nonempty_routes(&self) -> (r: usize) { unimplemented!() }
}
impl Clone for Individual { #[verifier::external_body] fn clone(&self) -> (r: Individual) ensures r == *self { unimplemented!() } }
// t is a reading of the clock, in seconds since the start of the search
pub uninterp spec fn clock_read(start: Instant, t: u64) -> bool;
impl SearchHistory {
    // proved in unit `best`; here only that the clock's start stays
    #[verifier::external_body] pub fn add_message(&mut self, m: String) ensures final(self).best_cost == old(self).best_cost, final(self).start_time == old(self).start_time { unimplemented!() }
    #[verifier::external_body] pub fn add(&mut self, individual: &Individual) ensures final(self).start_time == old(self).start_time { unimplemented!() }
}
impl Context {
    #[verifier::external_body] pub fn elapsed_as_secs(&self) -> (r: u64) ensures clock_read(self.search_history.start_time, r) { unimplemented!() }
    // proved in unit `fleet`
    #[verifier::external_body] pub fn reset_penalty(&mut self)
        ensures final(self).problem == old(self).problem, final(self).matrix_provider == old(self).matrix_provider, final(self).random == old(self).random,
            final(self).search_history == old(self).search_history, final(self).iteration == old(self).iteration,
            same_but_penalty(old(self).config, final(self).config) { unimplemented!() }
}
#[verifier::external_body] pub fn INFINITY_val() -> (r: R) ensures r@ == inf_spec() { unimplemented!() }
@struct src/solver/genetic/genetic.rs GeneticAlgorithm
@raw
pub mod conf { use super::*; use vstd::prelude::*;
verus! {
#[verifier::opaque]
pub open spec fn same_but_penalty(a: Config, b: Config) -> bool { b == (Config { penalty_capacity: b.penalty_capacity, ..a }) }
pub broadcast proof fn same_refl(a: Config) ensures #[trigger] same_but_penalty(a, a) { reveal(same_but_penalty); }
pub broadcast proof fn same_trans(a: Config, b: Config, c: Config) requires #[trigger] same_but_penalty(a, b), #[trigger] same_but_penalty(b, c) ensures same_but_penalty(a, c) { reveal(same_but_penalty); }
pub broadcast proof fn same_fields(a: Config, b: Config) requires #[trigger] same_but_penalty(a, b)
    ensures b.max_iterations_without_improvement == a.max_iterations_without_improvement, b.penalty_update_interval == a.penalty_update_interval, b.log_interval == a.log_interval, b.initial_individuals == a.initial_individuals
{ reveal(same_but_penalty); }
} }
pub use conf::same_but_penalty;
broadcast use {conf::same_refl, conf::same_trans, conf::same_fields};
// only the penalty and the recorded history of the context change
pub open spec fn steady(a: &Context, b: &Context) -> bool {
    b.problem == a.problem && b.matrix_provider == a.matrix_provider && b.random == a.random && b.search_history.start_time == a.search_history.start_time
    && same_but_penalty(a.config, b.config)
}
pub open spec fn due(c: &Context, t: u64) -> bool {
    t >= c.config.time_limit || match c.config.max_iterations { Some(m) => c.iteration >= m, None => false }
}
impl GeneticAlgorithm {
    pub open spec fn counters_ok(&self, c: &Context) -> bool {
        &&& self.best_iteration <= self.iterations && self.iterations < u64::MAX && c.iteration < u64::MAX
        &&& self.population.total_individuals_count < u64::MAX - 2 && c.problem.nodes@.len() >= 1
        &&& self.next_penalty_update + c.config.penalty_update_interval <= u64::MAX && self.next_log_interval + c.config.log_interval <= u64::MAX
    }
}
pub open spec fn better(g: &GeneticAlgorithm, x: Individual) -> bool { x.evaluation.feasible && x.evaluation.penalized_cost@ < g.current_best_solution_cost@ - EPSILON_spec() }
// the record of the best solution after a improved or not
pub open spec fn best_moved(a: &GeneticAlgorithm, b: &GeneticAlgorithm) -> bool {
    if b.current_best_solution_cost@ < a.current_best_solution_cost@ - EPSILON_spec() { b.best_iteration == a.iterations } else { b.best_iteration == a.best_iteration && b.current_best_solution_cost == a.current_best_solution_cost }
}
pub open spec fn same_phase(a: &GeneticAlgorithm, b: &GeneticAlgorithm) -> bool {
    b.state == a.state && b.iterations == a.iterations && b.num_initialized == a.num_initialized && b.next_penalty_update == a.next_penalty_update && b.next_log_interval == a.next_log_interval
}
// what the education of a child may change
pub open spec fn educated(a: &GeneticAlgorithm, b: &GeneticAlgorithm) -> bool {
    same_phase(a, b) && best_moved(a, b) && a.population.total_individuals_count <= b.population.total_individuals_count <= a.population.total_individuals_count + 1
}
pub open spec fn with_elite(c: &Context) -> bool { c.config.elite_education && c.problem.nodes@.len() - 1 > c.config.elite_education_problem_size_limit }
pub open spec fn restarted(m: &GeneticAlgorithm, b: &GeneticAlgorithm) -> bool {
    b.state == State::Created && b.num_initialized == 0 && b.population.total_individuals_count == 0 && b.best_iteration == m.iterations && b.current_best_solution_cost@ == inf_spec()
        && b.next_penalty_update == m.iterations && b.next_log_interval == m.iterations && b.best_solution == m.best_solution
}
// m: one child later
pub open spec fn evolved(a: &GeneticAlgorithm, m: &GeneticAlgorithm) -> bool {
    m.state == a.state && m.iterations == a.iterations && m.num_initialized == a.num_initialized && best_moved(a, m)
        && a.population.total_individuals_count + 1 <= m.population.total_individuals_count <= a.population.total_individuals_count + 2
}
pub open spec fn generation(a: &GeneticAlgorithm, m: &GeneticAlgorithm, b: &GeneticAlgorithm, c: &Context) -> bool {
    evolved(a, m) && b.iterations == a.iterations + 1 && if m.iterations - m.best_iteration > c.config.max_iterations_without_improvement { restarted(m, b) } else { *b == (GeneticAlgorithm { iterations: b.iterations, ..*m }) }
}
// a step for which the termination test said no
pub open spec fn advanced(a: &GeneticAlgorithm, b: &GeneticAlgorithm, c: &Context, d: &Context) -> bool {
    match a.state {
        State::Created => b.state == (if with_elite(c) { State::EliteEducation } else { State::Initialization }) && b.iterations == a.iterations && b.num_initialized == a.num_initialized && d.iteration == c.iteration
            && (!with_elite(c) ==> *b == (GeneticAlgorithm { state: State::Initialization, ..*a }) && *d == *c),
        State::EliteEducation => b.state == (if a.rr.done() { State::Initialization } else { State::EliteEducation }) && b.iterations == a.iterations && b.num_initialized == a.num_initialized && d.iteration == c.iteration
            && (!a.rr.done() ==> *b == (GeneticAlgorithm { rr: b.rr, ..*a }) && *d == *c),
        // one more initial individual, until there are as many as configured
        State::Initialization => (if a.num_initialized < c.config.initial_individuals {
                b.state == State::Initialization && b.num_initialized == a.num_initialized + 1 && a.population.total_individuals_count + 1 <= b.population.total_individuals_count <= a.population.total_individuals_count + 2
            } else { *b == (GeneticAlgorithm { state: State::Cycle, ..*a }) }) && b.iterations == a.iterations && d.iteration == c.iteration,
        // one child; a restart exactly after too many iterations without improvement
        State::Cycle => d.iteration == c.iteration + 1 && exists|m: GeneticAlgorithm| #[trigger] generation(a, &m, b, c),
        State::Terminated => *b == *a && *d == *c,
    }
}
pub open spec fn stepped(a: &GeneticAlgorithm, b: &GeneticAlgorithm, c: &Context, d: &Context, t: u64) -> bool {
    if due(c, t) { *b == (GeneticAlgorithm { state: State::Terminated, ..*a }) && *d == *c } else { advanced(a, b, c, d) && steady(c, d) }
}
impl GeneticAlgorithm {
    // units `crossover` and `penalty`
    #[verifier::external_body] pub fn crossover(&self, ctx: &Context, parent_one: &Individual, parent_two: &Individual) -> (r: Individual) { unimplemented!() }
    #[verifier::external_body] pub fn update_penalty(&mut self, ctx: &mut Context)
        requires old(self).next_penalty_update + old(ctx).config.penalty_update_interval <= u64::MAX,
        ensures steady(old(ctx), final(ctx)), final(ctx).iteration == old(ctx).iteration, final(self).population.total_individuals_count == old(self).population.total_individuals_count,
            *final(self) == (GeneticAlgorithm { next_penalty_update: final(self).next_penalty_update, population: final(self).population, ..*old(self) }) { unimplemented!() }
    // formats and writes a line
    #[verifier::external_body] pub fn log(&mut self, ctx: &Context)
        requires old(self).next_log_interval + ctx.config.log_interval <= u64::MAX,
        ensures *final(self) == (GeneticAlgorithm { next_log_interval: final(self).next_log_interval, diversity: final(self).diversity, ..*old(self) }) { unimplemented!() }
}
@helpers src/solver/context.rs src/solver/genetic/genetic.rs
@fn src/solver/context.rs Context::terminate
@ret r
@spec
ensures exists|t: u64| #[trigger] clock_read(self.search_history.start_time, t) && r == due(self, t),
@endfn
@fn src/solver/context.rs Context::next_iteration
@mut self
@spec
requires old(self).iteration < u64::MAX,
ensures *final(self) == (Context { iteration: final(self).iteration, ..*old(self) }), final(self).iteration == old(self).iteration + 1,
@endfn
@fn src/models/problem.rs Problem::num_customers
@ret r
@spec
requires self.nodes@.len() >= 1,
ensures r == self.nodes@.len() - 1,
@endfn
@fn src/solver/genetic/genetic.rs GeneticAlgorithm::new
@params ctx
@ret r
@spec
ensures r.state == State::Created, r.iterations == 0, r.num_initialized == 0, r.best_iteration == 0, r.best_solution is None, r.current_best_solution_cost@ == inf_spec(), r.population.total_individuals_count == 0,
@endfn
@fn src/solver/genetic/genetic.rs GeneticAlgorithm::update_best
@params ctx
@mut ctx
@subst search_history . add (ctx , & self . child) ==> search_history.add(&self.child)
@spec
ensures same_phase(old(self), final(self)), best_moved(old(self), final(self)), steady(old(ctx), final(ctx)), final(ctx).iteration == old(ctx).iteration,
    final(self).population == old(self).population, final(self).child == old(self).child, final(self).rr == old(self).rr,
    better(old(self), old(self).child) ==> final(self).current_best_solution_cost == old(self).child.evaluation.penalized_cost,
    !better(old(self), old(self).child) ==> *final(self) == *old(self) && *final(ctx) == *old(ctx),
@endfn
@fn src/solver/genetic/genetic.rs GeneticAlgorithm::educate
@attr #[verifier::exec_allows_no_decreases_clause]
@params ctx
@mut ctx
@spec
requires old(self).population.total_individuals_count < u64::MAX,
ensures educated(old(self), final(self)), steady(old(ctx), final(ctx)), final(ctx).iteration == old(ctx).iteration,
@endfn
@fn src/solver/genetic/genetic.rs GeneticAlgorithm::reset
@params ctx
@mut ctx
@spec
ensures restarted(old(self), final(self)), final(self).iterations == old(self).iterations, steady(old(ctx), final(ctx)), final(ctx).iteration == old(ctx).iteration,
@endfn
@fn src/solver/genetic/genetic.rs GeneticAlgorithm::add_individual
@params ctx individual
@spec
requires old(self).population.total_individuals_count < u64::MAX,
ensures *final(self) == (GeneticAlgorithm { population: final(self).population, ..*old(self) }), final(self).population.total_individuals_count == old(self).population.total_individuals_count + 1,
@endfn
@fn src/solver/genetic/genetic.rs GeneticAlgorithm::add_initial
@params ctx individual
@mut ctx
@spec
requires old(self).population.total_individuals_count < u64::MAX,
ensures same_phase(old(self), final(self)), best_moved(old(self), final(self)), final(self).population.total_individuals_count == old(self).population.total_individuals_count + 1, final(self).child == individual,
    steady(old(ctx), final(ctx)), final(ctx).iteration == old(ctx).iteration,
@endfn
@fn src/solver/genetic/genetic.rs GeneticAlgorithm::create_initial_individual
@params ctx
@mut ctx
@ret r
@spec
requires old(self).population.total_individuals_count < u64::MAX,
ensures educated(old(self), final(self)), steady(old(ctx), final(ctx)), final(ctx).iteration == old(ctx).iteration, final(self).child == old(self).child,
@endfn
@fn src/solver/genetic/genetic.rs GeneticAlgorithm@Metaheuristic::terminated
@ret r
@spec
ensures r == (self.state == State::Terminated),
@endfn
@fn src/solver/genetic/genetic.rs GeneticAlgorithm@Metaheuristic::iterate
@params ctx
@mut ctx
@spec
requires old(self).counters_ok(old(ctx)),
ensures exists|t: u64| #[trigger] clock_read(old(ctx).search_history.start_time, t) && stepped(old(self), final(self), old(ctx), final(ctx), t),
@at start
let ghost a0 = *self; let ghost c0 = *ctx; let ghost mut m0 = *self;
@at after call add_individual 2
proof { m0 = *self; }
@at after call update_penalty
proof { m0 = *self; }
@at after call log 1
proof { m0 = *self; }
@at exit
proof { if a0.state == State::Cycle && self.state != State::Terminated { assert(generation(&a0, &m0, self, &c0)); } }
@endfn
