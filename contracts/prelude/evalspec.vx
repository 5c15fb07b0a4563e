@raw
pub open spec fn excess(load: real, cap: real) -> real { rmax(0real, load - cap) }
// ---- the mathematical definitions the evaluation must agree with
pub open spec fn prefix_dist(ctx: &Context, r: Seq<usize>, k: int) -> real
    decreases k
{ if k <= 0 { 0real } else { prefix_dist(ctx, r, k - 1) + ctx.d(if k == 1 { 0 } else { r[k - 2] as int }, r[k - 1] as int) } }
pub open spec fn last_of(r: Seq<usize>, k: int) -> int { if k == 0 { 0 } else { r[k - 1] as int } }
pub open spec fn route_dist(ctx: &Context, r: Seq<usize>) -> real {
    prefix_dist(ctx, r, r.len() as int) + ctx.d(last_of(r, r.len() as int), 0)
}
pub open spec fn prefix_load(ctx: &Context, r: Seq<usize>, k: int) -> real
    decreases k
{ if k <= 0 { 0real } else { prefix_load(ctx, r, k - 1) + ctx.demand(r[k - 1] as int) } }
pub open spec fn route_load(ctx: &Context, r: Seq<usize>) -> real { prefix_load(ctx, r, r.len() as int) }
pub open spec fn route_over(ctx: &Context, r: Seq<usize>) -> real { route_load(ctx, r) - ctx.cap() }
pub open spec fn route_pcost(ctx: &Context, r: Seq<usize>) -> real { route_dist(ctx, r) + ctx.pen() * rmax(0real, route_over(ctx, r)) }
pub open spec fn total_cost(ctx: &Context, s: Seq<Vec<usize>>, k: int) -> real
    decreases k
{ if k <= 0 { 0real } else { total_cost(ctx, s, k - 1) + route_pcost(ctx, s[k - 1]@) } }
pub open spec fn nodes_ok(ctx: &Context, s: Seq<Vec<usize>>) -> bool {
    forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s[i]@.len() ==> 0 < #[trigger] s[i]@[j] < ctx.n()
}
// every customer occurs at most once
#[verifier::opaque]
pub open spec fn no_dup(s: Seq<Vec<usize>>) -> bool {
    forall|i: int, j: int, a: int, b: int| 0 <= i < s.len() && 0 <= j < s[i]@.len() && 0 <= a < s.len() && 0 <= b < s[a]@.len()
        && #[trigger] s[i]@[j] == #[trigger] s[a]@[b] ==> i == a && j == b
}
pub open spec fn pred_of(r: Seq<usize>, j: int) -> int { if j == 0 { 0 } else { r[j - 1] as int } }
pub open spec fn succ_of(r: Seq<usize>, j: int) -> int { if j == r.len() - 1 { 0 } else { r[j + 1] as int } }
// the evaluation describes the routes
pub open spec fn eval_routes(ctx: &Context, e: SolutionEvaluation, s: Seq<Vec<usize>>) -> bool {
    e.routes@.len() == s.len()
    && forall|i: int| 0 <= i < s.len() ==> (#[trigger] e.routes@[i]).distance@ == route_dist(ctx, s[i]@)
        && e.routes@[i].overload@ == route_over(ctx, s[i]@)
        && e.routes@[i].penalized_cost@ == route_pcost(ctx, s[i]@)
}
pub open spec fn eval_feasible(ctx: &Context, s: Seq<Vec<usize>>) -> bool { forall|i: int| 0 <= i < s.len() ==> route_over(ctx, #[trigger] s[i]@) <= EPSILON_spec() }
#[verifier::opaque]
pub open spec fn eval_links(e: SolutionEvaluation, s: Seq<Vec<usize>>) -> bool {
    no_dup(s) ==> forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s[i]@.len() ==>
        e.predecessors@[#[trigger] s[i]@[j] as int] == pred_of(s[i]@, j)
        && e.successors@[s[i]@[j] as int] == succ_of(s[i]@, j)
}
pub open spec fn eval_of(ctx: &Context, e: SolutionEvaluation, s: Seq<Vec<usize>>) -> bool {
    &&& eval_routes(ctx, e, s)
    &&& e.penalized_cost@ == total_cost(ctx, s, s.len() as int)
    &&& e.feasible == eval_feasible(ctx, s)
    &&& e.predecessors@.len() == ctx.n() && e.successors@.len() == ctx.n()
    &&& eval_links(e, s)
}
