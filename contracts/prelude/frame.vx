@raw
// contexts with the same instance data
pub open spec fn same_data(a: &Context, b: &Context) -> bool { a.problem == b.problem && a.matrix_provider == b.matrix_provider }
pub proof fn lem_frame_prefix(a: &Context, b: &Context, r: Seq<usize>, k: int)
    requires same_data(a, b)
    ensures prefix_dist(a, r, k) == prefix_dist(b, r, k), prefix_load(a, r, k) == prefix_load(b, r, k)
    decreases k
{ if k > 0 { lem_frame_prefix(a, b, r, k - 1); } }
pub proof fn lem_frame_route(a: &Context, b: &Context, r: Seq<usize>)
    requires same_data(a, b)
    ensures route_dist(a, r) == route_dist(b, r), route_over(a, r) == route_over(b, r), a.pen() == b.pen() ==> route_pcost(a, r) == route_pcost(b, r)
{ lem_frame_prefix(a, b, r, r.len() as int); }
pub proof fn lem_frame_total(a: &Context, b: &Context, s: Seq<Vec<usize>>, k: int)
    requires same_data(a, b), a.pen() == b.pen()
    ensures total_cost(a, s, k) == total_cost(b, s, k)
    decreases k
{ if k > 0 { lem_frame_total(a, b, s, k - 1); lem_frame_route(a, b, s[k - 1]@); } }
