@include prelude/base.vx
@include prelude/evalspec.vx
@raw
#[verifier::opaque]
pub open spec fn links_done(pred: Seq<usize>, succ: Seq<usize>, s: Seq<Vec<usize>>, k: int) -> bool {
    forall|i: int, j: int| 0 <= i < k && 0 <= j < s[i]@.len() ==>
        pred[#[trigger] s[i]@[j] as int] == pred_of(s[i]@, j) && succ[s[i]@[j] as int] == succ_of(s[i]@, j)
}
// links of the first j customers of route r; the successor of the j-th is still open
#[verifier::opaque]
pub open spec fn route_links(pred: Seq<usize>, succ: Seq<usize>, r: Seq<usize>, j: int) -> bool {
    (forall|q: int| 0 <= q < j ==> pred[#[trigger] r[q] as int] == pred_of(r, q))
    && (forall|q: int| 0 <= q < j - 1 ==> succ[#[trigger] r[q] as int] == succ_of(r, q))
}
#[verifier::opaque]
pub open spec fn untouched(p0: Seq<usize>, p1: Seq<usize>, r: Seq<usize>) -> bool {
    p0.len() == p1.len() && forall|x: int| 0 < x < p0.len() && (forall|q: int| 0 <= q < r.len() ==> r[q] != x) ==> #[trigger] p1[x] == p0[x]
}
pub proof fn lem_inner(s: Seq<Vec<usize>>, k: int, p0: Seq<usize>, s0: Seq<usize>, pred: Seq<usize>, succ: Seq<usize>, j: int, n: int)
    requires no_dup(s), 0 <= k < s.len(), 0 <= j < s[k]@.len(), pred.len() == n, succ.len() == n, s[k]@[j] < n, n > 0,
        forall|q: int| 0 <= q < s[k]@.len() ==> 0 < #[trigger] s[k]@[q] < n,
        route_links(pred, succ, s[k]@, j), untouched(p0, pred, s[k]@), untouched(s0, succ, s[k]@),
    ensures ({ let p1 = pred.update(s[k]@[j] as int, last_of(s[k]@, j) as usize); let s1 = succ.update(last_of(s[k]@, j), s[k]@[j]);
        route_links(p1, s1, s[k]@, j + 1) && untouched(p0, p1, s[k]@) && untouched(s0, s1, s[k]@) })
{
    reveal(no_dup); reveal(route_links); reveal(untouched);
    let r = s[k]@;
    let p1 = pred.update(r[j] as int, last_of(r, j) as usize); let s1 = succ.update(last_of(r, j), r[j]);
    assert(forall|q: int| 0 <= q < j ==> #[trigger] r[q] != r[j]);
    if j > 0 { assert(0 < r[j - 1] < n); assert(forall|q: int| 0 <= q < j - 1 ==> #[trigger] r[q] != r[j - 1]); }
}
pub proof fn lem_route(s: Seq<Vec<usize>>, k: int, p0: Seq<usize>, s0: Seq<usize>, pred: Seq<usize>, succ: Seq<usize>, n: int)
    requires no_dup(s), 0 <= k < s.len(), pred.len() == n, succ.len() == n, n > 0,
        forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s[i]@.len() ==> 0 < #[trigger] s[i]@[j] < n,
        links_done(p0, s0, s, k), route_links(pred, succ, s[k]@, s[k]@.len() as int), untouched(p0, pred, s[k]@), untouched(s0, succ, s[k]@),
    ensures links_done(pred, succ.update(last_of(s[k]@, s[k]@.len() as int), 0), s, k + 1)
{
    reveal(no_dup); reveal(route_links); reveal(untouched); reveal(links_done);
    let r = s[k]@; let s1 = succ.update(last_of(r, r.len() as int), 0);
    assert forall|i: int, j: int| 0 <= i < k + 1 && 0 <= j < s[i]@.len() implies
        pred[#[trigger] s[i]@[j] as int] == pred_of(s[i]@, j) && s1[s[i]@[j] as int] == succ_of(s[i]@, j) by {
        let x = s[i]@[j];
        if i < k {
            assert forall|q: int| 0 <= q < r.len() implies r[q] != x by { if r[q] == x { assert(s[k]@[q] == s[i]@[j]); } }
            assert(pred[x as int] == p0[x as int]); assert(succ[x as int] == s0[x as int]);
            if r.len() > 0 { assert(r[r.len() - 1] != x); }
        } else {
            if j < r.len() - 1 { assert(r[j] != r[r.len() - 1]); }
        }
    }
}
@struct src/solver/evaluate.rs RouteEvaluation
@attr #[verifier::allow(autoderive_clone_without_spec)] #[derive(Clone)]
@struct src/solver/evaluate.rs SolutionEvaluation

@fn src/solver/evaluate.rs route_cost
@params distance overload penalty
@ret r
@spec
ensures r@ == distance@ + penalty@ * rmax(0real, overload@), r == mk(r@)
@endfn
@fn src/solver/evaluate.rs RouteEvaluation::is_feasible
@ret r
@spec
ensures r == (self.overload@ < EPSILON_spec())
@endfn
@fn src/solver/evaluate.rs RouteEvaluation::empty
@ret r
@endfn
@fn src/solver/evaluate.rs SolutionEvaluation::reset
@params num_routes num_nodes
@spec
ensures
    final(self).routes@.len() == num_routes,
    final(self).predecessors@.len() == num_nodes,
    final(self).successors@.len() == num_nodes,
@endfn
@fn src/solver/evaluate.rs SolutionEvaluation::is_feasible
@ret r
@spec
ensures r == self.feasible
@endfn
@fn src/solver/evaluate.rs SolutionEvaluation::evaluate
@params ctx solution
@spec
requires ctx.wf(), nodes_ok(ctx, solution@),
ensures
    eval_routes(ctx, *final(self), solution@),
    final(self).penalized_cost@ == total_cost(ctx, solution@, solution@.len() as int),
    final(self).feasible == eval_feasible(ctx, solution@),
    final(self).predecessors@.len() == ctx.n(), final(self).successors@.len() == ctx.n(),
    eval_links(*final(self), solution@),
@at before loop 0
proof { assert(links_done(self.predecessors@, self.successors@, solution@, 0)) by { reveal(links_done); } }
@loop 0
invariant
    ctx.wf(), nodes_ok(ctx, solution@), __i0 <= solution@.len(),
    self.routes@.len() == solution@.len(),
    self.predecessors@.len() == ctx.n(), self.successors@.len() == ctx.n(),
    depot_node == 0, capacity@ == ctx.cap(), penalty_capacity@ == ctx.pen(),
    forall|i: int| 0 <= i < __i0 ==> (#[trigger] self.routes@[i]).distance@ == route_dist(ctx, solution@[i]@)
        && self.routes@[i].overload@ == route_over(ctx, solution@[i]@)
        && self.routes@[i].penalized_cost@ == route_pcost(ctx, solution@[i]@),
    total_penalized_cost@ == total_cost(ctx, solution@, __i0 as int),
    feasible == (forall|i: int| 0 <= i < __i0 ==> route_over(ctx, #[trigger] solution@[i]@) <= EPSILON_spec()),
    no_dup(solution@) ==> links_done(self.predecessors@, self.successors@, solution@, __i0 as int),
decreases solution@.len() - __i0
@at before loop 1
let ghost p0 = self.predecessors@;
let ghost s0 = self.successors@;
proof {
    assert(route_links(p0, s0, route@, 0)) by { reveal(route_links); }
    assert(untouched(p0, p0, route@) && untouched(s0, s0, route@)) by { reveal(untouched); }
}
@loop 1
invariant
    __i1 <= route@.len(), route@ == solution@[route_index as int]@, route_index < solution@.len(), __i0 == route_index + 1,
    self.routes@.len() == solution@.len(),
    self.predecessors@.len() == ctx.n(), self.successors@.len() == ctx.n(),
    last_node == last_of(route@, __i1 as int), last_node < ctx.n(),
    route_distance@ == prefix_dist(ctx, route@, __i1 as int),
    load@ == prefix_load(ctx, route@, __i1 as int),
    forall|i: int| 0 <= i < route_index ==> (#[trigger] self.routes@[i]).distance@ == route_dist(ctx, solution@[i]@)
        && self.routes@[i].overload@ == route_over(ctx, solution@[i]@)
        && self.routes@[i].penalized_cost@ == route_pcost(ctx, solution@[i]@),
    no_dup(solution@) ==> route_links(self.predecessors@, self.successors@, route@, __i1 as int)
        && untouched(p0, self.predecessors@, route@) && untouched(s0, self.successors@, route@),
decreases route@.len() - __i1
@at loop 1 start
proof {
    assert(route@[__i1 - 1] == solution@[route_index as int]@[__i1 - 1]);
    if no_dup(solution@) { lem_inner(solution@, route_index as int, p0, s0, self.predecessors@, self.successors@, __i1 - 1, ctx.n()); }
}
@at after loop 1
proof { if no_dup(solution@) { lem_route(solution@, route_index as int, p0, s0, self.predecessors@, self.successors@, ctx.n()); } }
@at exit
proof { reveal(eval_links); reveal(links_done); }
@endfn
@struct src/solver/genetic/individual.rs Individual
@fn src/solver/genetic/individual.rs Individual::evaluate
@params ctx
@spec
requires ctx.wf(), nodes_ok(ctx, old(self).phenotype@),
ensures
    final(self).number == old(self).number, final(self).genotype == old(self).genotype, final(self).phenotype == old(self).phenotype, final(self).fitness == old(self).fitness,
    eval_of(ctx, final(self).evaluation, final(self).phenotype@),
@endfn
@fn src/solver/genetic/individual.rs Individual::is_feasible
@ret r
@spec
ensures r == self.evaluation.feasible,
@endfn
@fn src/solver/genetic/individual.rs Individual::penalized_cost
@ret r
@spec
ensures r@ == self.evaluation.penalized_cost@, r == self.evaluation.penalized_cost,
@endfn
