@raw
// every customer 1..n-1 is on exactly one position
pub open spec fn visits(s: Seq<Vec<usize>>, c: int) -> bool { exists|i: int, j: int| 0 <= i < s.len() && 0 <= j < s[i]@.len() && s[i]@[j] == c }
pub open spec fn covers(ctx: &Context, s: Seq<Vec<usize>>) -> bool {
    nodes_ok(ctx, s) && no_dup(s) && forall|c: int| 0 < c < ctx.n() ==> #[trigger] visits(s, c)
}
// a complete individual whose evaluation describes its routes
pub open spec fn sound(ctx: &Context, x: Individual) -> bool { covers(ctx, x.phenotype@) && eval_of(ctx, x.evaluation, x.phenotype@) }
pub open spec fn entry_cost(h: Seq<HistoryEntry>, i: int) -> real { h[i].solution.cost@ }
pub open spec fn hist_ok(h: &SearchHistory) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < h.history@.len() ==> #[trigger] entry_cost(h.history@, i) > #[trigger] entry_cost(h.history@, j)
    &&& h.history@.len() == 0 ==> h.best_cost@ == inf_spec()
    &&& h.history@.len() > 0 ==> h.best_cost@ == entry_cost(h.history@, h.history@.len() - 1)
    &&& forall|i: int| 0 <= i < h.history@.len() - 1 ==> (#[trigger] h.history@[i]).solution.routes@.len() == 0
}
pub open spec fn records(e: HistoryEntry, x: Individual) -> bool { e.solution.cost@ == x.evaluation.penalized_cost@ && e.solution.routes@.len() == x.phenotype@.len()
    && forall|i: int| 0 <= i < x.phenotype@.len() ==> (#[trigger] e.solution.routes@[i])@ == x.phenotype@[i]@ }
// h1 is h0 with one entry more
pub open spec fn appended(h0: &SearchHistory, h1: &SearchHistory, x: Individual) -> bool {
    &&& h1.history@.len() == h0.history@.len() + 1
    &&& records(h1.history@[h1.history@.len() - 1], x)
    &&& h1.best_cost@ == x.evaluation.penalized_cost@
    &&& forall|i: int| 0 <= i < h0.history@.len() ==> #[trigger] entry_cost(h1.history@, i) == entry_cost(h0.history@, i)
}
pub proof fn lem_appended(h0: &SearchHistory, h1: &SearchHistory, x: Individual)
    requires hist_ok(h0), appended(h0, h1, x), x.evaluation.penalized_cost@ < h0.best_cost@,
        forall|i: int| 0 <= i < h1.history@.len() - 1 ==> (#[trigger] h1.history@[i]).solution.routes@.len() == 0,
    ensures hist_ok(h1)
{
    let n = h0.history@.len() as int;
    assert(entry_cost(h1.history@, n) == x.evaluation.penalized_cost@);
    assert forall|i: int, j: int| 0 <= i < j < h1.history@.len() implies #[trigger] entry_cost(h1.history@, i) > #[trigger] entry_cost(h1.history@, j) by {
        assert(entry_cost(h1.history@, i) == entry_cost(h0.history@, i));
        if j < n { assert(entry_cost(h1.history@, j) == entry_cost(h0.history@, j)); }
        else if i < n - 1 { assert(entry_cost(h0.history@, i) > entry_cost(h0.history@, n - 1)); }
    }
}
pub open spec fn hist_kept(h0: &SearchHistory, h1: &SearchHistory) -> bool { h1.history == h0.history && h1.best_cost == h0.best_cost && h1.log_new_best == h0.log_new_best }
