@raw
// the tour t describes the giant tour g of an instance
#[verifier::opaque]
pub open spec fn matches(ctx: &Context, g: Seq<usize>, t: Tour) -> bool {
    &&& tl(t) == ctx.n() && g.len() == ctx.n() - 1 && t.cap == ctx.cap() && t.pen == ctx.pen()
    &&& forall|i: int| 1 <= i < ctx.n() ==> (#[trigger] t.nodes[i]).distance_depot@ == ctx.d(g[i - 1] as int, 0)
    &&& forall|i: int| 2 <= i < ctx.n() ==> #[trigger] t.cd[i]@ == t.cd[i - 1]@ + ctx.d(g[i - 2] as int, g[i - 1] as int)
    &&& forall|i: int| 1 <= i < ctx.n() ==> #[trigger] t.cl[i]@ == t.cl[i - 1]@ + ctx.demand(g[i - 1] as int)
}
// the first k entries are filled in
#[verifier::opaque]
pub open spec fn filled(ctx: &Context, g: Seq<usize>, nodes: Seq<NodeSplit>, cd: Seq<R>, cl: Seq<R>, k: int) -> bool {
    &&& forall|i: int| 1 <= i < k ==> (#[trigger] nodes[i]).distance_depot@ == ctx.d(g[i - 1] as int, 0) && (i < ctx.n() - 1 ==> nodes[i].distance_next@ == ctx.d(g[i - 1] as int, g[i] as int))
    &&& forall|i: int| 2 <= i < k ==> #[trigger] cd[i]@ == cd[i - 1]@ + ctx.d(g[i - 2] as int, g[i - 1] as int)
    &&& forall|i: int| 1 <= i < k ==> #[trigger] cl[i]@ == cl[i - 1]@ + ctx.demand(g[i - 1] as int)
}
pub proof fn lem_filled_step(ctx: &Context, g: Seq<usize>, n0: Seq<NodeSplit>, cd0: Seq<R>, cl0: Seq<R>, n1: Seq<NodeSplit>, cd1: Seq<R>, cl1: Seq<R>, k: int)
    requires filled(ctx, g, n0, cd0, cl0, k), 1 <= k < n0.len(), n0.len() == cd0.len() == cl0.len(), k < ctx.n(),
        n1 == n0.update(k, n1[k]), cd1 == cd0.update(k, cd1[k]), cl1 == cl0.update(k, cl1[k]),
        n1[k].distance_depot@ == ctx.d(g[k - 1] as int, 0), k < ctx.n() - 1 ==> n1[k].distance_next@ == ctx.d(g[k - 1] as int, g[k] as int),
        cd1[k]@ == cd0[k - 1]@ + n1[k - 1].distance_next@, cl1[k]@ == cl0[k - 1]@ + ctx.demand(g[k - 1] as int),
    ensures filled(ctx, g, n1, cd1, cl1, k + 1)
{
    reveal(filled);
    assert forall|i: int| 1 <= i < k + 1 implies (#[trigger] n1[i]).distance_depot@ == ctx.d(g[i - 1] as int, 0) && (i < ctx.n() - 1 ==> n1[i].distance_next@ == ctx.d(g[i - 1] as int, g[i] as int)) by { if i < k { assert(n0[i] == n1[i]); } }
    assert forall|i: int| 2 <= i < k + 1 implies #[trigger] cd1[i]@ == cd1[i - 1]@ + ctx.d(g[i - 2] as int, g[i - 1] as int) by { if i < k { assert(cd0[i] == cd1[i]); assert(cd0[i - 1] == cd1[i - 1]); } else { assert(n0[k - 1] == n1[k - 1]); assert(cd0[k - 1] == cd1[k - 1]); } }
    assert forall|i: int| 1 <= i < k + 1 implies #[trigger] cl1[i]@ == cl1[i - 1]@ + ctx.demand(g[i - 1] as int) by { assert(cl0[i - 1] == cl1[i - 1]); if i < k { assert(cl0[i] == cl1[i]); } }
}
// what a split object needs to be used with an instance
pub open spec fn fits(ctx: &Context, s: &Split) -> bool {
    ctx.wf() && s.nodes@.len() == ctx.n() && s.cum_distance@.len() == ctx.n() && s.cum_load@.len() == ctx.n() && s.vehicle_cap@ == ctx.cap()
    && s.path_cost.ok() && s.predecessors.ok() && s.path_cost.cols == ctx.n() && s.predecessors.cols == ctx.n() && s.path_cost.rows == s.predecessors.rows && s.path_cost.rows >= 1
}
pub open spec fn tour_nodes(ctx: &Context, g: Seq<usize>) -> bool { g.len() == ctx.n() - 1 && forall|i: int| 0 <= i < g.len() ==> 0 < #[trigger] g[i] < ctx.n() }
// nothing but the tables
pub open spec fn same_tour(a: &Split, b: &Split) -> bool { a.nodes == b.nodes && a.cum_distance == b.cum_distance && a.cum_load == b.cum_load && a.vehicle_cap == b.vehicle_cap && a.penalty_capacity == b.penalty_capacity }
// a table whose cells are all unreachable but for the start
#[verifier::opaque]
pub open spec fn fresh(p: Seq<R>) -> bool { forall|i: int| 1 <= i < p.len() ==> #[trigger] p[i]@ == big() }
#[verifier::opaque]
pub open spec fn fresh_to(p: Seq<R>, k: int) -> bool { forall|i: int| 1 <= i < k ==> #[trigger] p[i]@ == big() }
#[verifier::opaque]
pub open spec fn fresh_rows(m: Seq<Seq<R>>, k: int) -> bool { forall|r: int| 0 <= r < k ==> fresh(#[trigger] m[r]) }
pub proof fn lem_fresh_to(p: Seq<R>, q: Seq<R>, k: int)
    requires fresh_to(p, k), 1 <= k < p.len(), q == p.update(k, q[k]), q[k]@ == big()
    ensures fresh_to(q, k + 1), q[0] == p[0]
{ reveal(fresh_to); assert forall|i: int| 1 <= i < k + 1 implies #[trigger] q[i]@ == big() by { if i < k { assert(p[i] == q[i]); } } }
pub proof fn lem_fresh_start(p: Seq<R>) ensures fresh_to(p, 1), fresh_to(p, p.len() as int) ==> fresh(p) { reveal(fresh_to); reveal(fresh); }
