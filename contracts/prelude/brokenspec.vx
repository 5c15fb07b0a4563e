@raw
pub open spec fn succ_broken(a: SolutionEvaluation, b: SolutionEvaluation, c: int) -> int {
    if a.successors@[c] != b.successors@[c] && a.successors@[c] != b.predecessors@[c] { 1int } else { 0int }
}
pub open spec fn start_broken(a: SolutionEvaluation, b: SolutionEvaluation, c: int) -> int {
    if a.predecessors@[c] == 0 && b.predecessors@[c] != 0 && b.successors@[c] != 0 { 1int } else { 0int }
}
// the definition: customers 1..k
pub open spec fn broken_pairs(a: SolutionEvaluation, b: SolutionEvaluation, k: int) -> int
    decreases k
{ if k <= 0 { 0 } else { broken_pairs(a, b, k - 1) + succ_broken(a, b, k) + start_broken(a, b, k) } }
pub open spec fn eval_covers(e: SolutionEvaluation, n: int) -> bool { e.successors@.len() == n && e.predecessors@.len() == n }
pub proof fn lem_bounds(a: SolutionEvaluation, b: SolutionEvaluation, k: int)
    requires k >= 0
    ensures 0 <= broken_pairs(a, b, k) <= 2 * k
    decreases k
{ if k > 0 { lem_bounds(a, b, k - 1); } }
// the same route, in either direction of travel
pub open spec fn same_adj(a: SolutionEvaluation, b: SolutionEvaluation, c: int) -> bool {
    (a.successors@[c] == b.successors@[c] && a.predecessors@[c] == b.predecessors@[c])
    || (a.successors@[c] == b.predecessors@[c] && a.predecessors@[c] == b.successors@[c])
}
pub proof fn lem_zero(a: SolutionEvaluation, b: SolutionEvaluation, k: int)
    requires k >= 0, forall|c: int| 1 <= c <= k ==> #[trigger] same_adj(a, b, c),
    ensures broken_pairs(a, b, k) == 0
    decreases k
{ if k > 0 { lem_zero(a, b, k - 1); assert(same_adj(a, b, k)); } }
// it only depends on who is next to whom, not on the order of the routes
pub proof fn lem_order(a: SolutionEvaluation, b: SolutionEvaluation, a2: SolutionEvaluation, b2: SolutionEvaluation, k: int)
    requires k >= 0,
        forall|c: int| 1 <= c <= k ==> #[trigger] a.successors@[c] == a2.successors@[c], forall|c: int| 1 <= c <= k ==> #[trigger] a.predecessors@[c] == a2.predecessors@[c],
        forall|c: int| 1 <= c <= k ==> #[trigger] b.successors@[c] == b2.successors@[c], forall|c: int| 1 <= c <= k ==> #[trigger] b.predecessors@[c] == b2.predecessors@[c],
    ensures broken_pairs(a, b, k) == broken_pairs(a2, b2, k)
    decreases k
{ if k > 0 { lem_order(a, b, a2, b2, k - 1); } }
