@raw
// the routes kept by the last entry are complete, feasible and recorded with the cost they had when they were found
pub open spec fn found(c: &Context, p: &Context, e: HistoryEntry, x: Individual) -> bool {
    records(e, x) && complete(c.n(), x.phenotype@) && eval_feasible(c, x.phenotype@) && same_data(c, p) && eval_of(p, x.evaluation, x.phenotype@)
}
pub open spec fn holds_best(c: &Context, h: &SearchHistory) -> bool {
    h.history@.len() > 0 ==> exists|x: Individual, p: Context| #[trigger] found(c, &p, h.history@[h.history@.len() - 1], x)
}
pub proof fn lem_frame_feasible(a: &Context, b: &Context, s: Seq<Vec<usize>>)
    requires same_data(a, b)
    ensures eval_feasible(a, s) == eval_feasible(b, s)
{ assert forall|i: int| 0 <= i < s.len() implies route_over(a, #[trigger] s[i]@) == route_over(b, s[i]@) by { lem_frame_route(a, b, s[i]@); }
  if eval_feasible(a, s) { assert forall|i: int| 0 <= i < s.len() implies route_over(b, #[trigger] s[i]@) <= EPSILON_spec() by { assert(route_over(a, s[i]@) <= EPSILON_spec()); } }
  if eval_feasible(b, s) { assert forall|i: int| 0 <= i < s.len() implies route_over(a, #[trigger] s[i]@) <= EPSILON_spec() by { assert(route_over(b, s[i]@) <= EPSILON_spec()); } }
}
pub proof fn lem_holds_frame(a: &Context, b: &Context, h: &SearchHistory, k: &SearchHistory)
    requires holds_best(a, h), same_data(a, b), k.history == h.history
    ensures holds_best(b, k)
{
    if h.history@.len() > 0 {
        let e = h.history@[h.history@.len() - 1];
        let (x, p) = choose|x: Individual, p: Context| #[trigger] found(a, &p, e, x);
        lem_frame_feasible(a, b, x.phenotype@);
        assert(found(b, &p, e, x));
    }
}
