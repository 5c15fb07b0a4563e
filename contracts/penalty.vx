## C15: adaptation of the capacity penalty
@include prelude/base.vx
@include prelude/individual.vx
@include prelude/evalspec.vx
@include prelude/sort.vx
@usefn evaluate.vx Individual::evaluate
@usefn evaluate.vx Individual::penalized_cost
@raw
impl Individual { pub open spec fn penalized_cost_spec(&self) -> R { self.evaluation.penalized_cost } }
pub struct SubPopulation { pub population: Vec<Individual> }
pub struct Population { pub feasible: SubPopulation, pub infeasible: SubPopulation, pub feasible_history: Vec<bool> }
pub open spec fn num_feasible(h: Seq<bool>, k: int) -> int
    decreases k
{ if k <= 0 { 0 } else { num_feasible(h, k - 1) + if h[k - 1] { 1int } else { 0int } } }
pub proof fn lem_num_feasible(h: Seq<bool>, k: int)
    requires 0 <= k <= h.len()
    ensures 0 <= num_feasible(h, k) <= k
    decreases k
{ if k > 0 { lem_num_feasible(h, k - 1); } }
pub open spec fn share(h: Seq<bool>) -> real { (num_feasible(h, h.len() as int) as real) / (h.len() as int as real) }
pub open spec fn adapted(pen: real, share: real, target: real, inc: real, dec: real) -> real {
    rmax(0.0001real, rmin(10000000real, if share < target - 0.05real { pen * inc } else if share > target + 0.05real { pen * dec } else { pen }))
}
pub open spec fn cost_le() -> spec_fn(Individual, Individual) -> bool { |a: Individual, b: Individual| a.evaluation.penalized_cost@ <= b.evaluation.penalized_cost@ }
// b is a under a new evaluation
pub open spec fn same_tours(a: Individual, b: Individual) -> bool {
    a.number == b.number && a.genotype == b.genotype && a.phenotype == b.phenotype && a.fitness == b.fitness
}
pub open spec fn reevaluated(ctx: &Context, a: Seq<Individual>, b: Seq<Individual>, q: Seq<int>) -> bool {
    &&& b.len() == a.len() && is_perm_map(q, a.len() as int)
    &&& forall|i: int| 0 <= i < b.len() ==> same_tours(a[q[i]], #[trigger] b[i]) && eval_of(ctx, b[i].evaluation, b[i].phenotype@)
}
pub open spec fn sorted_by_cost(s: Seq<Individual>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).evaluation.penalized_cost@ <= (#[trigger] s[j]).evaluation.penalized_cost@ }
@struct src/solver/genetic/genetic.rs GeneticAlgorithm
@omit state ls rr split iterations next_log_interval child num_initialized best_solution best_iteration diversified_start diversify current_best_solution_cost diversity
@helpers src/solver/genetic/genetic.rs
@fn src/solver/genetic/genetic.rs GeneticAlgorithm::update_penalty
@mut ctx
@params ctx
@sort 0 Individual
@spec
requires
    old(ctx).wf(),
    old(self).population.feasible_history@.len() > 0,
    old(self).next_penalty_update as int + old(ctx).config.penalty_update_interval as int <= u64::MAX,
    forall|i: int| 0 <= i < old(self).population.infeasible.population@.len() ==> nodes_ok(old(ctx), (#[trigger] old(self).population.infeasible.population@[i]).phenotype@),
ensures
    final(self).next_penalty_update == old(self).next_penalty_update + old(ctx).config.penalty_update_interval,
    final(ctx).pen() == adapted(old(ctx).pen(), share(old(self).population.feasible_history@), old(ctx).config.feasibility_proportion_target@,
        old(ctx).config.penalty_inc_multiplier@, old(ctx).config.penalty_dec_multiplier@),
    0.0001real <= final(ctx).pen() <= 10000000real,
    final(ctx).problem == old(ctx).problem, final(ctx).matrix_provider == old(ctx).matrix_provider,
    final(self).population.feasible == old(self).population.feasible, final(self).population.feasible_history == old(self).population.feasible_history,
    exists|q: Seq<int>| #[trigger] reevaluated(final(ctx), old(self).population.infeasible.population@, final(self).population.infeasible.population@, q),
    sorted_by_cost(final(self).population.infeasible.population@),
@at start
let ghost h0 = self.population.feasible_history@;
let ghost inf0 = self.population.infeasible.population@;
@loop 0
invariant
    __i0 <= self.population.feasible_history@.len(), __a0 as int == num_feasible(self.population.feasible_history@, __i0 as int), __a0 <= __i0,
decreases self.population.feasible_history@.len() - __i0
@at before loop 1
let ghost gctx = *ctx;
proof { assert((h0.len() as int as real) != 0real); }
@loop 1
invariant
    __i1 <= inf0.len(), self.population.infeasible.population@.len() == inf0.len(),
    *ctx == gctx, gctx.wf(),
    forall|i: int| 0 <= i < inf0.len() ==> nodes_ok(&gctx, (#[trigger] inf0[i]).phenotype@),
    self.population.feasible_history@ == h0, self.population.feasible == old(self).population.feasible, self.next_penalty_update == old(self).next_penalty_update + old(ctx).config.penalty_update_interval,
    forall|i: int| 0 <= i < inf0.len() ==> same_tours(inf0[i], #[trigger] self.population.infeasible.population@[i]),
    forall|i: int| 0 <= i < __i1 ==> eval_of(&gctx, (#[trigger] self.population.infeasible.population@[i]).evaluation, self.population.infeasible.population@[i].phenotype@),
decreases inf0.len() - __i1
@at before call sort_by_spec
let ghost inf1 = self.population.infeasible.population@;
proof { assert(total_preorder(cost_le())); }
@at exit
proof {
    let b = self.population.infeasible.population@;
    let q = choose|q: Seq<int>| permuted_by(inf1, b, q);
    assert(permuted_by(inf1, b, q));
    assert(reevaluated(ctx, inf0, b, q));
}
@endfn
