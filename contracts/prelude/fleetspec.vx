@raw
pub open spec fn total(nodes: Seq<Node>, k: int) -> real
    decreases k
{ if k <= 0 { 0real } else { total(nodes, k - 1) + nodes[k - 1].demand@ } }
#[verifier::opaque]
pub open spec fn is_max_demand(nodes: Seq<Node>, k: int, m: real) -> bool {
    (exists|i: int| 0 <= i < k && #[trigger] nodes[i].demand@ == m) && (forall|i: int| 0 <= i < k ==> #[trigger] nodes[i].demand@ <= m)
}
#[verifier::opaque]
pub open spec fn some_positive(nodes: Seq<Node>) -> bool { exists|i: int| 0 <= i < nodes.len() && #[trigger] nodes[i].demand@ > 0real }
pub proof fn lem_some_positive(nodes: Seq<Node>, m: Option<R>)
    requires some_positive(nodes) || nodes.len() == 0, opt_max(nodes, nodes.len() as int, m)
    ensures m matches Some(x) ==> x@ > 0real
{ reveal(some_positive); reveal(is_max_demand); if nodes.len() > 0 { let i = choose|i: int| 0 <= i < nodes.len() && #[trigger] nodes[i].demand@ > 0real; assert(nodes[i].demand@ <= (m->0)@); } }
pub open spec fn opt_max(nodes: Seq<Node>, k: int, m: Option<R>) -> bool {
    (m is None <==> k == 0) && (m matches Some(x) ==> is_max_demand(nodes, k, x@))
}
#[verifier::opaque]
pub open spec fn start_penalty(d: Option<R>, m: Option<R>) -> real {
    match (d, m) { (Some(d), Some(m)) => rmax(0.0001real, rmin(10000real, d@ / m@)), _ => 100real }
}
// smallest number of vehicles whose joint capacity covers the demand
pub open spec fn lower_bound(nodes: Seq<Node>, cap: real) -> int { ceil_spec(total(nodes, nodes.len() as int) / cap) }
pub open spec fn fleet(nodes: Seq<Node>, cap: real) -> int { ceil_spec(1.2real * (lower_bound(nodes, cap) as real) + 2real) }
pub proof fn lem_total_nonneg(nodes: Seq<Node>, k: int)
    requires 0 <= k <= nodes.len(), forall|i: int| 0 <= i < nodes.len() ==> #[trigger] nodes[i].demand@ >= 0real
    ensures total(nodes, k) >= 0real
    decreases k
{ if k > 0 { lem_total_nonneg(nodes, k - 1); assert(nodes[k - 1].demand@ >= 0real); } }
pub open spec fn sizes_ok(ctx: &Context) -> bool {
    ctx.cap() > 0real && lower_bound(ctx.problem.nodes@, ctx.cap()) < 0x1000_0000_0000
    && forall|i: int| 0 <= i < ctx.problem.nodes@.len() ==> #[trigger] ctx.problem.nodes@[i].demand@ >= 0real
}
pub proof fn lem_div_nonneg(a: real, b: real) requires a >= 0real, b > 0real ensures a / b >= 0real {
    assert(a / b >= 0real) by (nonlinear_arith) requires a >= 0real, b > 0real;
}
// meaning of the bound: that many vehicles suffice for the total demand, one fewer do not
pub proof fn lem_lower_bound_meaning(nodes: Seq<Node>, cap: real)
    requires cap > 0real
    ensures (lower_bound(nodes, cap) as real) * cap >= total(nodes, nodes.len() as int),
        ((lower_bound(nodes, cap) - 1) as real) * cap < total(nodes, nodes.len() as int)
{
    let t = total(nodes, nodes.len() as int); let q = t / cap; let l = lower_bound(nodes, cap) as real;
    assert(q * cap == t) by (nonlinear_arith) requires q == t / cap, cap > 0real;
    assert(l >= q && l - 1real < q);
    assert(l * cap >= q * cap) by (nonlinear_arith) requires l >= q, cap > 0real;
    assert((l - 1real) * cap < q * cap) by (nonlinear_arith) requires l - 1real < q, cap > 0real;
    assert(((lower_bound(nodes, cap) - 1) as real) == l - 1real);
}
pub uninterp spec fn max_dist_spec(m: &DistanceMatrix) -> Option<R>;
impl DistanceMatrix {
    // contract proved in unit `matrix`
    #[verifier::external_body] pub fn max(&self) -> (r: Option<R>) ensures r == max_dist_spec(self) { unimplemented!() }
}
