## C11: recorded best solutions
@include prelude/base.vx
@include prelude/individual.vx
@include prelude/evalspec.vx
@usefn evaluate.vx Individual::penalized_cost
@usefn evaluate.vx Individual::is_feasible
@include prelude/histspec.vx
@raw
// clone of the routes of an individual
#[verifier::external_body]
pub fn clone_routes(v: &Vec<Vec<usize>>) -> (r: Vec<Vec<usize>>) ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> (#[trigger] r@[i])@ == v@[i]@ { unimplemented!() }
impl Clone for Individual { #[verifier::external_body] fn clone(&self) -> (r: Individual) ensures r == *self { unimplemented!() } }
@struct src/solver/genetic/genetic.rs GeneticAlgorithm
@omit state ls rr split population num_initialized next_penalty_update next_log_interval diversified_start diversify diversity
@helpers src/solver/history.rs src/solver/genetic/genetic.rs

@fn src/solver/history.rs HistoricSolution@From::from
@ret r
@subst individual . phenotype . clone () ==> clone_routes(&individual.phenotype)
@spec
ensures r.cost@ == individual.evaluation.penalized_cost@, r.routes@.len() == individual.phenotype@.len(),
    forall|i: int| 0 <= i < r.routes@.len() ==> (#[trigger] r.routes@[i])@ == individual.phenotype@[i]@,
@endfn
@fn src/solver/history.rs SearchHistory::new
@ret r
@spec
ensures hist_ok(&r), r.history@.len() == 0,
@endfn
@fn src/solver/history.rs SearchHistory::remove_previous_data
@spec
ensures
    final(self).history@.len() == old(self).history@.len(),
    forall|i: int| 0 <= i < old(self).history@.len() - 1 ==> final(self).history@[i] == old(self).history@[i],
    old(self).history@.len() > 0 ==> final(self).history@[old(self).history@.len() - 1].solution.routes@.len() == 0
        && final(self).history@[old(self).history@.len() - 1].solution.cost == old(self).history@[old(self).history@.len() - 1].solution.cost,
    final(self).best_cost == old(self).best_cost, final(self).log_new_best == old(self).log_new_best,
@endfn
@fn src/solver/history.rs SearchHistory::add_message
@params message
@spec
ensures hist_kept(old(self), final(self)),
@endfn
@fn src/solver/history.rs SearchHistory::add
@params _ctx individual
@ptype _ctx: -
@spec
requires hist_ok(old(self)), individual.evaluation.penalized_cost@ < old(self).best_cost@,
ensures appended(old(self), final(self), *individual), hist_ok(final(self)), final(self).log_new_best == old(self).log_new_best,
@at exit
proof { lem_appended(old(self), self, *individual); }
@endfn
@fn src/solver/history.rs SearchHistory::last_entry
@ret r
@spec
ensures self.history@.len() == 0 ==> r is None,
    self.history@.len() > 0 ==> r == Some(&self.history@[self.history@.len() - 1]),
@endfn
@fn src/solver/genetic/genetic.rs GeneticAlgorithm::update_best
@params ctx
@mut ctx
@subst search_history . add (ctx , & self . child) ==> search_history.add(&self.child)
@spec
requires
    hist_ok(&old(ctx).search_history), old(ctx).wf(), sound(old(ctx), old(self).child),
ensures
    hist_ok(&final(ctx).search_history),
    final(ctx).problem == old(ctx).problem, final(ctx).matrix_provider == old(ctx).matrix_provider, final(ctx).config == old(ctx).config,
    final(self).child == old(self).child, final(self).iterations == old(self).iterations,
    // something is recorded only if it is feasible, complete and cheaper than everything recorded before
    final(ctx).search_history.history@.len() != old(ctx).search_history.history@.len() ==>
        old(self).child.evaluation.feasible && eval_feasible(old(ctx), old(self).child.phenotype@)
        && old(self).child.evaluation.penalized_cost@ < old(ctx).search_history.best_cost@ - EPSILON_spec()
        && appended(&old(ctx).search_history, &final(ctx).search_history, old(self).child),
    final(ctx).search_history.history@.len() == old(ctx).search_history.history@.len() ==> hist_kept(&old(ctx).search_history, &final(ctx).search_history),
    // a feasible individual that beats the search's own best and the history is recorded
    old(self).child.evaluation.feasible && old(self).child.evaluation.penalized_cost@ < old(self).current_best_solution_cost@ - EPSILON_spec()
        ==> final(self).current_best_solution_cost@ == old(self).child.evaluation.penalized_cost@ && final(self).best_iteration == old(self).iterations
            && final(ctx).search_history.best_cost@ <= old(self).child.evaluation.penalized_cost@ + EPSILON_spec(),
    !(old(self).child.evaluation.feasible && old(self).child.evaluation.penalized_cost@ < old(self).current_best_solution_cost@ - EPSILON_spec())
        ==> *final(self) == *old(self) && *final(ctx) == *old(ctx),
@endfn
