## C08/C09: ruin and recreate steps
@include prelude/base.vx
@include prelude/individual.vx
@include prelude/evalspec.vx
@include prelude/sort.vx
@include prelude/perm.vx
@include prelude/hashset.vx
@include prelude/occ.vx
@include prelude/rrspec.vx
@struct src/solver/improvement/ruin_recreate/ruin.rs AdjacentStringRemoval
@struct src/solver/improvement/ruin_recreate/recreate.rs GreedyBlink
@raw
pub trait VecHas<T> { spec fn elems(&self) -> Seq<T>; fn contains(&self, x: &T) -> (r: bool) ensures r == self.elems().contains(*x); }
impl VecHas<usize> for Vec<usize> { open spec fn elems(&self) -> Seq<usize> { self@ } #[verifier::external_body] fn contains(&self, x: &usize) -> (r: bool) { unimplemented!() } }
// the recorded locations after route r has been written
pub proof fn lem_located_updates(n: int, rs: Seq<Route>, un: Seq<usize>, l0: Seq<NodeLocation>, l1: Seq<NodeLocation>, ex: Set<usize>, r: int)
    requires partition(n, rs, un), loc_good(rs, l0, ex), 0 <= r < rs.len() <= usize::MAX, l0.len() == l1.len() == n, loc_route(rs, l1, r),
        forall|x: int| 0 <= x < n && !occurs(rs[r].nodes@, x) ==> #[trigger] l1[x] == l0[x],
        nodes_in(rs, n),
    ensures loc_good(rs, l1, ex.remove(r as usize))
{
    reveal(loc_good);
    assert forall|q: int| 0 <= q < rs.len() && !ex.remove(r as usize).contains(q as usize) implies #[trigger] loc_route(rs, l1, q) by {
        if q != r {
            assert(loc_route(rs, l0, q));
            assert forall|i: int| 0 <= i < rs[q].nodes@.len() implies loc_is(#[trigger] l1[rs[q].nodes@[i] as int], q, i) by {
                let x = rs[q].nodes@[i];
                if occurs(rs[r].nodes@, x as int) { let j = choose|j: int| 0 <= j < rs[r].nodes@.len() && rs[r].nodes@[j] == x; lem_distinct(n, rs, un, q, i, r, j); }
                assert(nodes_in_at(rs, n, q, i));
                assert(loc_is(l0[rs[q].nodes@[i] as int], q, i));
            }
        }
    }
}
pub open spec fn occurs(s: Seq<usize>, x: int) -> bool { exists|j: int| 0 <= j < s.len() && s[j] == x }
pub open spec fn nodes_in_at(rs: Seq<Route>, n: int, q: int, i: int) -> bool { 0 < rs[q].nodes@[i] < n }
pub open spec fn nodes_in(rs: Seq<Route>, n: int) -> bool { forall|q: int, i: int| 0 <= q < rs.len() && 0 <= i < rs[q].nodes@.len() ==> #[trigger] nodes_in_at(rs, n, q, i) }
@fn src/solver/improvement/ruin_recreate/node.rs NodeLocation::new
@ret r
@params route_index node_index
@spec
ensures r.route_index == route_index, r.node_index == node_index,
@endfn
@fn src/solver/improvement/ruin_recreate/node.rs NodeLocation::update
@params route_index node_index
@spec
ensures loc_is(*final(self), route_index as int, node_index as int),
@endfn
@fn src/solver/improvement/ruin_recreate/node.rs NodeLocation::update_from_other
@params other
@spec
ensures *final(self) == *other,
@endfn
@fn src/solver/improvement/ruin_recreate/node.rs Route::remove
@params index ctx
@ret r
@spec
requires ctx.wf(), index < old(self).nodes@.len(), route_ok(ctx, *old(self)),
ensures r == old(self).nodes@[index as int], final(self).nodes@ == old(self).nodes@.remove(index as int), route_ok(ctx, *final(self)),
@at start
proof { lem_route_remove(ctx, self.nodes@, index as int);
    if index > 0 { assert(0 < self.nodes@[index - 1] < ctx.n()); } assert(0 < self.nodes@[index as int] < ctx.n()); if index + 1 < self.nodes@.len() { assert(0 < self.nodes@[index + 1] < ctx.n()); }
    let s = self.nodes@; let t = s.remove(index as int);
    assert forall|i: int| 0 <= i < t.len() implies 0 < #[trigger] t[i] < ctx.n() by { let k = if i < index { i } else { i + 1 }; assert(t[i] == s[k]); }
}
@endfn
@fn src/solver/improvement/ruin_recreate/node.rs Route::delta_distance
@params index node ctx
@ret r
@spec
requires ctx.wf(), index <= self.nodes@.len(), route_ok(ctx, *self), node < ctx.n(),
ensures r@ == insert_delta(ctx, self.nodes@, index as int, node),
@at start
proof { if index > 0 { assert(0 < self.nodes@[index - 1] < ctx.n()); } if index < self.nodes@.len() { assert(0 < self.nodes@[index as int] < ctx.n()); } }
@endfn
@fn src/solver/improvement/ruin_recreate/node.rs Route::add
@params index node ctx
@spec
requires ctx.wf(), index <= old(self).nodes@.len(), route_ok(ctx, *old(self)), 0 < node < ctx.n(),
ensures final(self).nodes@ == old(self).nodes@.insert(index as int, node), route_ok(ctx, *final(self)),
@at start
proof { lem_route_insert(ctx, self.nodes@, index as int, node);
    let s = self.nodes@; let t = s.insert(index as int, node);
    assert forall|i: int| 0 <= i < t.len() implies 0 < #[trigger] t[i] < ctx.n() by { if i < index { assert(t[i] == s[i]); } else if i > index { assert(t[i] == s[i - 1]); } } }
@endfn
@fn src/solver/improvement/ruin_recreate/node.rs Route::update_from_other
@params other
@spec
ensures final(self).nodes@ == other.nodes@, final(self).distance == other.distance, final(self).overload == other.overload,
@loop 0
invariant __i0 <= other.nodes@.len(), self.nodes@ == other.nodes@.take(__i0 as int), self.distance == other.distance, self.overload == other.overload,
decreases other.nodes@.len() - __i0
@at loop 0 end
proof { assert(other.nodes@.take(__i0 as int) =~= other.nodes@.take(__i0 - 1).push(other.nodes@[__i0 - 1])); }
@at exit
proof { assert(other.nodes@.take(other.nodes@.len() as int) =~= other.nodes@); }
@endfn
@fn src/solver/improvement/ruin_recreate/mod.rs RuinRecreateSolution::is_feasible
@ret r
@spec
ensures r == (rabs(total_over(self.routes@, self.routes@.len() as int)) < EPSILON_spec()),
@loop 0
invariant __i0 <= self.routes@.len(), __a0@ == total_over(self.routes@, __i0 as int),
decreases self.routes@.len() - __i0
@endfn
@raw
// the sum of what is recorded for the routes
pub open spec fn rec_cost(ctx: &Context, rs: Seq<Route>, k: int) -> real
    decreases k
{ if k <= 0 { 0real } else { rec_cost(ctx, rs, k - 1) + (rs[k - 1].distance@ + rmax(0real, rs[k - 1].overload@) * ctx.pen()) } }
pub proof fn lem_rec_cost(ctx: &Context, rs: Seq<Route>, k: int)
    requires routes_ok(ctx, rs), 0 <= k <= rs.len()
    ensures rec_cost(ctx, rs, k) == rr_cost(ctx, rs, k)
    decreases k
{ if k > 0 { lem_rec_cost(ctx, rs, k - 1); reveal(routes_ok); assert(route_ok(ctx, rs[k - 1])); let a = rmax(0real, rs[k - 1].overload@); let p = ctx.pen(); assert(a * p == p * a) by (nonlinear_arith); } }
pub open spec fn without(ex: Set<usize>, l: Seq<usize>, k: int) -> Set<usize>
    decreases k
{ if k <= 0 { ex } else { without(ex, l, k - 1).remove(l[k - 1]) } }
pub proof fn lem_without(ex: Set<usize>, l: Seq<usize>, k: int, x: usize)
    requires 0 <= k <= l.len()
    ensures without(ex, l, k).contains(x) ==> ex.contains(x) && !l.take(k).contains(x)
    decreases k
{
    if k > 0 { lem_without(ex, l, k - 1, x);
        if l.take(k).contains(x) { let j = choose|j: int| 0 <= j < k && l.take(k)[j] == x; if j < k - 1 { assert(l.take(k - 1)[j] == x); } }
    }
}
@fn src/solver/improvement/ruin_recreate/mod.rs RuinRecreateSolution::evaluate
@params ctx updated_routes
@generics
@ptype updated_routes: &Vec<usize>
@subst in updated_routes ==> in updated_routes.iter()
@spec
requires
    ctx.small(), 1 <= old(self).routes@.len() <= usize::MAX, old(self).locations@.len() == ctx.n(),
    routes_ok(ctx, old(self).routes@), partition(ctx.n(), old(self).routes@, old(self).unassigned@),
    loc_good(old(self).routes@, old(self).locations@, updated_routes@.to_set()),
    forall|k: int| 0 <= k < updated_routes@.len() ==> #[trigger] updated_routes@[k] < old(self).routes@.len(),
ensures
    same_routes(final(self), old(self)), final(self).cost@ == rr_cost(ctx, final(self).routes@, final(self).routes@.len() as int),
    final(self).locations@.len() == ctx.n(), located(final(self).routes@, final(self).locations@, Set::empty()),
@at start
let ghost rs = self.routes@; let ghost un = self.unassigned@; let ghost n = ctx.n(); let ghost ex = updated_routes@.to_set(); let ghost s0 = *self;
proof { lem_un_len(ctx, rs, un); lem_rec_cost(ctx, rs, rs.len() as int);
    assert forall|q: int, i: int| 0 <= q < rs.len() && 0 <= i < rs[q].nodes@.len() implies #[trigger] nodes_in_at(rs, n, q, i) by { assert(0 < rs[q].nodes@[i] < n); } }
@loop 0
invariant __i0 <= self.routes@.len(), __a0@ == rec_cost(ctx, self.routes@, __i0 as int), penalty_capacity@ == ctx.pen(),
decreases self.routes@.len() - __i0
@loop 1
invariant __i1 <= updated_routes@.len(), same_routes(self, &s0), s0.routes@ == rs, s0.unassigned@ == un, n == ctx.n(), n >= 2, 
    partition(n, rs, un), nodes_in(rs, n), self.locations@.len() == n, rs.len() <= usize::MAX,
    self.cost@ == rr_cost(ctx, rs, rs.len() as int),
    loc_good(rs, self.locations@, without(ex, updated_routes@, __i1 as int)),
    forall|k: int| 0 <= k < updated_routes@.len() ==> #[trigger] updated_routes@[k] < rs.len(),
decreases updated_routes@.len() - __i1
@at loop 1 start
let ghost l0 = self.locations@;
@at loop 1 end
proof {
    lem_located_updates(n, rs, un, l0, self.locations@, without(ex, updated_routes@, __i1 - 1), route_index as int);
}
@loop 2
invariant __i2 <= rs[route_index as int].nodes@.len(), same_routes(self, &s0), s0.routes@ == rs, s0.unassigned@ == un, n == ctx.n(), route_index < rs.len(),
    partition(n, rs, un), nodes_in(rs, n), self.locations@.len() == n, l0.len() == n,
    self.cost@ == rr_cost(ctx, rs, rs.len() as int),
    forall|i: int| 0 <= i < __i2 ==> loc_is(#[trigger] self.locations@[rs[route_index as int].nodes@[i] as int], route_index as int, i),
    forall|x: int| 0 <= x < n && !occurs(rs[route_index as int].nodes@, x) ==> #[trigger] self.locations@[x] == l0[x],
decreases rs[route_index as int].nodes@.len() - __i2
@at loop 2 start
proof { assert(nodes_in_at(rs, n, route_index as int, __i2 - 1)); }
@at loop 2 end
proof {
    assert forall|i: int| 0 <= i < __i2 implies loc_is(#[trigger] self.locations@[rs[route_index as int].nodes@[i] as int], route_index as int, i) by {
        if i < __i2 - 1 && rs[route_index as int].nodes@[i] == rs[route_index as int].nodes@[__i2 - 1] { lem_distinct(n, rs, un, route_index as int, i, route_index as int, __i2 - 1); }
    }
    assert(occurs(rs[route_index as int].nodes@, rs[route_index as int].nodes@[__i2 - 1] as int));
}
@at exit
proof {
    let l = updated_routes@;
    assert forall|r: usize| r < rs.len() implies !#[trigger] without(ex, l, l.len() as int).contains(r) by { lem_without(ex, l, l.len() as int, r); assert(l.take(l.len() as int) =~= l); }
    lem_loc_all(rs, self.locations@, without(ex, l, l.len() as int));
}
@endfn
@fn src/solver/improvement/ruin_recreate/mod.rs RuinRecreateSolution::reevaluate
@params ctx
@spec
requires routes_ok(ctx, old(self).routes@),
ensures same_routes(final(self), old(self)), final(self).locations == old(self).locations, final(self).cost@ == rr_cost(ctx, final(self).routes@, final(self).routes@.len() as int),
@at start
proof { lem_rec_cost(ctx, self.routes@, self.routes@.len() as int); }
@loop 0
invariant __i0 <= self.routes@.len(), __a0@ == rec_cost(ctx, self.routes@, __i0 as int), penalty_capacity@ == ctx.pen(),
decreases self.routes@.len() - __i0
@endfn
@fn src/solver/improvement/ruin_recreate/mod.rs RuinRecreateSolution::from
@params other
@spec
requires old(self).routes@.len() == other.routes@.len(), old(self).locations@.len() == other.locations@.len(),
ensures final(self).cost == other.cost, final(self).locations@ == other.locations@, final(self).unassigned == old(self).unassigned, final(self).ruined_routes == old(self).ruined_routes,
    final(self).routes@.len() == other.routes@.len(), forall|r: int| 0 <= r < other.routes@.len() ==> route_eq(#[trigger] final(self).routes@[r], other.routes@[r]),
@loop 0
invariant __i0 <= self.locations@.len(), self.locations@.len() == other.locations@.len(), self.cost == other.cost, self.routes == old(self).routes, self.unassigned == old(self).unassigned, self.ruined_routes == old(self).ruined_routes,
    forall|i: int| 0 <= i < __i0 ==> #[trigger] self.locations@[i] == other.locations@[i],
decreases self.locations@.len() - __i0
@loop 1
invariant __i1 <= self.routes@.len(), self.routes@.len() == other.routes@.len(), self.cost == other.cost, self.locations@ =~= other.locations@, self.unassigned == old(self).unassigned, self.ruined_routes == old(self).ruined_routes,
    forall|r: int| 0 <= r < __i1 ==> route_eq(#[trigger] self.routes@[r], other.routes@[r]),
decreases self.routes@.len() - __i1
@endfn
@fn src/solver/improvement/ruin_recreate/ruin.rs AdjacentStringRemoval::average_tour_cardinality
@params solution
@ret r
@spec
requires solution.routes@.len() >= 1,
ensures r@ >= 0real,
@loop 0
invariant __i0 <= solution.routes@.len(), __a0@ >= 0real,
decreases solution.routes@.len() - __i0
@at exit
proof { assert forall|a: R, b: R| a@ >= 0real && b@ > 0real implies round_spec((#[trigger] vstd::std_specs::ops::DivSpec::div_spec(a, b))@) >= 0 by { let x = a@; let y = b@; assert(x / y >= 0real) by (nonlinear_arith) requires x >= 0real, y > 0real; } }
@endfn
@raw
// while the string is being taken off a route
pub open spec fn mid(ctx: &Context, base: RuinRecreateSolution, s: RuinRecreateSolution, s0: RuinRecreateSolution, ex: Set<usize>) -> bool {
    &&& routes_ok(ctx, s.routes@)
    &&& partition(ctx.n(), s.routes@, s.unassigned@)
    &&& located(s.routes@, s.locations@, ex)
    &&& shrunk(s.routes@, base.routes@, ex)
    &&& s.routes@.len() == base.routes@.len() && s.routes@.len() <= usize::MAX
    &&& s.locations == base.locations && s.locations@.len() == ctx.n()
    &&& s.cost == base.cost
    &&& s.ruined_routes == s0.ruined_routes
}
pub open spec fn node_here(s: &RuinRecreateSolution, node: usize, r: usize) -> bool {
    r < s.routes@.len() && !s.ruined_routes@.contains(r) && node < s.locations@.len() && s.locations@[node as int].route_index == r
    && s.locations@[node as int].node_index < s.routes@[r as int].nodes@.len()
}
@fn src/solver/improvement/ruin_recreate/ruin.rs AdjacentStringRemoval::ruin_route
@params ctx solution node route_number lt
@attr #[verifier::exec_allows_no_decreases_clause]
@attr #[verifier::allow_complex_invariants]
@addparams Ghost(base): Ghost<RuinRecreateSolution>
@spec
requires
    ctx.small(), old(solution).ok(ctx), node_here(old(solution), node, route_number), ruined(ctx, &base, old(solution)),
    1 <= lt <= old(solution).routes@[route_number as int].nodes@.len(),
ensures
    ruined(ctx, &base, final(solution)),
    final(solution).ruined_routes@ == old(solution).ruined_routes@.insert(route_number),
@at start
let ghost ex = solution.ruined_routes@.insert(route_number);
let ghost s0 = *solution;
proof {
    lem_un_len(ctx, solution.routes@, solution.unassigned@);
    lem_more_except(solution.routes@, solution.locations@, solution.ruined_routes@, base.routes@, route_number);
}
@loop 0
invariant __i0 <= lt, __e0 == lt, mid(ctx, base, *solution, s0, ex), ctx.small(), route_number < solution.routes@.len(), ex.contains(route_number),
    solution.routes@[route_number as int].nodes@.len() + __i0 == route_length, start_index + lt <= route_length,
decreases lt - __i0
@at loop 0 start
let ghost s1 = *solution;
proof { reveal(routes_ok); assert(route_ok(ctx, solution.routes@[route_number as int])); }
@at loop 0 end
proof { lem_take_off(ctx, s1.routes@, solution.routes@, s1.unassigned@, solution.unassigned@, s1.locations@, ex, base.routes@, route_number as int, start_index as int); }
@loop 1
invariant 1 <= m <= m_max,
@loop 2
invariant_except_break
    index < solution.routes@[route_number as int].nodes@.len(),
invariant
    mid(ctx, base, *solution, s0, ex), ctx.small(), route_number < solution.routes@.len(), ex.contains(route_number), m_index + m <= usize::MAX,
@at loop 2 start
let ghost s1 = *solution; let ghost i1 = index;
proof { reveal(routes_ok); assert(route_ok(ctx, solution.routes@[route_number as int])); }
@at loop 2 end
proof { if solution.unassigned@.len() != s1.unassigned@.len() { lem_take_off(ctx, s1.routes@, solution.routes@, s1.unassigned@, solution.unassigned@, s1.locations@, ex, base.routes@, route_number as int, i1 as int); } }
@at loop 2 break
proof { if solution.unassigned@.len() != s1.unassigned@.len() { lem_take_off(ctx, s1.routes@, solution.routes@, s1.unassigned@, solution.unassigned@, s1.locations@, ex, base.routes@, route_number as int, i1 as int); } }
@at exit
proof { assert(solution.ruined_routes@ =~= ex); reveal(in_fleet); }
@endfn
@raw
pub proof fn lem_mul_share()
    ensures forall|u: R, t: R| 0real <= u@ < 1real && t@ >= 0real ==> 0real <= (#[trigger] vstd::std_specs::ops::MulSpec::mul_spec(u, t))@ && vstd::std_specs::ops::MulSpec::mul_spec(u, t)@ <= t@
        && (t@ > 0real ==> vstd::std_specs::ops::MulSpec::mul_spec(u, t)@ < t@)
{
    assert forall|u: R, t: R| 0real <= u@ < 1real && t@ >= 0real implies 0real <= (#[trigger] vstd::std_specs::ops::MulSpec::mul_spec(u, t))@ && vstd::std_specs::ops::MulSpec::mul_spec(u, t)@ <= t@
        && (t@ > 0real ==> vstd::std_specs::ops::MulSpec::mul_spec(u, t)@ < t@) by { let x = u@; let y = t@;
        assert(0real <= x * y <= y && (y > 0real ==> x * y < y)) by (nonlinear_arith) requires 0real <= x < 1real, y >= 0real; }
}
pub proof fn lem_share_bounds()
    ensures forall|u: R, t: R| 0real <= u@ < 1real && t@ <= 0real ==> (#[trigger] vstd::std_specs::ops::MulSpec::mul_spec(u, t))@ <= 0real,
        forall|a: R, b: R| a@ >= 0real && b@ >= 1real ==> 0real <= (#[trigger] vstd::std_specs::ops::DivSpec::div_spec(a, b))@ <= a@
{
    assert forall|u: R, t: R| 0real <= u@ < 1real && t@ <= 0real implies (#[trigger] vstd::std_specs::ops::MulSpec::mul_spec(u, t))@ <= 0real by { let x = u@; let y = t@; assert(x * y <= 0real) by (nonlinear_arith) requires 0real <= x, y <= 0real; }
    assert forall|a: R, b: R| a@ >= 0real && b@ >= 1real implies 0real <= (#[trigger] vstd::std_specs::ops::DivSpec::div_spec(a, b))@ <= a@ by { let x = a@; let y = b@; assert(0real <= x / y <= x) by (nonlinear_arith) requires x >= 0real, y >= 1real; }
}
pub proof fn lem_ruined_refl(ctx: &Context, s: &RuinRecreateSolution)
    requires s.ok(ctx)
    ensures ruined(ctx, s, s)
{ reveal(shrunk); assert forall|r: int| 0 <= r < s.routes@.len() implies subseq((#[trigger] s.routes@[r]).nodes@, s.routes@[r].nodes@) by { lem_subseq_refl(s.routes@[r].nodes@); } }
pub proof fn lem_node_here(ctx: &Context, s: &RuinRecreateSolution, x: usize)
    requires s.ok(ctx), 0 < x < ctx.n(), !s.unassigned@.contains(x), !s.ruined_routes@.contains(s.locations@[x as int].route_index)
    ensures node_here(s, x, s.locations@[x as int].route_index)
{
    let p = lem_assigned(ctx.n(), s.routes@, s.unassigned@, x);
    reveal(located);
    assert(loc_home(s.routes@, s.locations@, p.0));
    assert(s.locations@[s.routes@[p.0].nodes@[p.1] as int].route_index == p.0);
    assert(loc_route(s.routes@, s.locations@, p.0));
    assert(loc_is(s.locations@[s.routes@[p.0].nodes@[p.1] as int], p.0, p.1));
}
@fn src/solver/improvement/ruin_recreate/ruin.rs AdjacentStringRemoval@Ruin::run
@params ctx solution
@passargs ruin_route Ghost(base)
@spec
requires ctx.small(), old(solution).ok(ctx), self.cavg <= u32::MAX,
ensures ruined(ctx, old(solution), final(solution)),
@at start
let ghost base = *solution;
proof { lem_ruined_refl(ctx, solution); lem_mul_share(); lem_share_bounds(); }
@loop 0
invariant __i0 <= neighbors@.len(), ctx.small(), ruined(ctx, &base, solution), lsmax@ >= 0real, 
    forall|i: int| 0 <= i < neighbors@.len() ==> 0 < #[trigger] neighbors@[i] < ctx.n(),
decreases neighbors@.len() - __i0
@at loop 0 start
proof {
    lem_mul_share();
    assert(0 < neighbors@[__i0 - 1] < ctx.n());
    if !solution.unassigned@.contains(neighbor) && !solution.ruined_routes@.contains(solution.locations@[neighbor as int].route_index) { lem_node_here(ctx, solution, neighbor); }
    lem_un_len(ctx, solution.routes@, solution.unassigned@);
}
@endfn
@raw
// a solution under reconstruction: routes outside upd have exact locations
pub open spec fn rebuilding(ctx: &Context, s: RuinRecreateSolution, un: Seq<usize>, upd: Set<usize>) -> bool {
    &&& routes_ok(ctx, s.routes@)
    &&& partition(ctx.n(), s.routes@, un)
    &&& loc_good(s.routes@, s.locations@, upd)
    &&& in_fleet(upd, s.routes@.len() as int)
    &&& in_fleet(s.ruined_routes@, s.routes@.len() as int)
    &&& s.locations@.len() == ctx.n()
    &&& 1 <= s.routes@.len() <= usize::MAX
}
// customer v, first in un0, is put on route r at position i
pub proof fn lem_put_on(ctx: &Context, s0: RuinRecreateSolution, s1: RuinRecreateSolution, un0: Seq<usize>, upd: Set<usize>, r: usize, i: int)
    requires rebuilding(ctx, s0, un0, upd), un0.len() > 0, r < s0.routes@.len(), 0 <= i <= s0.routes@[r as int].nodes@.len(),
        s1.routes@.len() == s0.routes@.len(), forall|k: int| 0 <= k < s0.routes@.len() && k != r ==> #[trigger] s1.routes@[k] == s0.routes@[k],
        s1.routes@[r as int].nodes@ == s0.routes@[r as int].nodes@.insert(i, un0[0]), route_ok(ctx, s1.routes@[r as int]),
        s1.locations == s0.locations, s1.ruined_routes == s0.ruined_routes,
    ensures rebuilding(ctx, s1, un0.remove(0), upd.insert(r))
{
    let rs0 = s0.routes@; let rs1 = s1.routes@; let m = rs0.len() as int; let s = rs0[r as int].nodes@; let v = un0[0];
    assert(rs1 =~= rs0.update(r as int, rs1[r as int]));
    assert(partition(ctx.n(), rs1, un0.remove(0))) by {
        reveal(partition);
        assert forall|x: usize| #[trigger] total_occ(rs1, un0.remove(0), x) == if 0 < x < ctx.n() { 1int } else { 0int } by {
            lem_rocc_update(rs0, r as int, rs1[r as int], m, x); lem_occ_insert(s, i, v, x); lem_occ_remove(un0, 0, x);
            assert(total_occ(rs0, un0, x) == if 0 < x < ctx.n() { 1int } else { 0int });
        }
    }
    assert(routes_ok(ctx, rs1)) by { reveal(routes_ok); assert forall|q: int| 0 <= q < rs1.len() implies route_ok(ctx, #[trigger] rs1[q]) by { if q != r { assert(rs1[q] == rs0[q]); } } }
    assert(loc_good(rs1, s1.locations@, upd.insert(r))) by {
        reveal(loc_good);
        assert forall|q: int| 0 <= q < rs1.len() && !upd.insert(r).contains(q as usize) implies #[trigger] loc_route(rs1, s1.locations@, q) by { assert(q != r); assert(loc_route(rs0, s0.locations@, q)); assert(rs1[q] == rs0[q]); }
    }
    assert(in_fleet(upd.insert(r), m)) by { reveal(in_fleet); }
}
pub proof fn lem_finite(ctx: &Context, rs: Seq<Route>, un: Seq<usize>, r: int, i: int, x: usize)
    requires ctx.small(), ctx.finite(), routes_ok(ctx, rs), partition(ctx.n(), rs, un), 0 <= r < rs.len(), 0 <= i <= rs[r].nodes@.len(), 0 < x < ctx.n()
    ensures insert_delta(ctx, rs[r].nodes@, i, x) + rmax(0real, rs[r].overload@ + ctx.demand(x as int)) * ctx.pen() < fmax_spec() - EPSILON_spec()
{
    reveal(routes_ok); reveal(Context::finite); lem_un_len(ctx, rs, un);
    let s = rs[r].nodes@; let p = last_of(s, i); let q = node_at(s, i);
    assert(route_ok(ctx, rs[r]));
    if i > 0 { assert(0 < s[i - 1] < ctx.n()); } if i < s.len() { assert(0 < s[i] < ctx.n()); }
    assert(rs[r].nodes@.len() < ctx.n());
    let a = ctx.d(p, q); let b = ctx.d(p, x as int); let c = route_over(ctx, s);
}
pub open spec fn only_reordered(a: &RuinRecreateSolution, b: &RuinRecreateSolution) -> bool {
    rearranged(b.unassigned@, a.unassigned@) && a.routes == b.routes && a.ruined_routes == b.ruined_routes && a.locations == b.locations && a.cost == b.cost
}
pub proof fn lem_reordered(ctx: &Context, a: &RuinRecreateSolution, b: &RuinRecreateSolution)
    requires b.ok(ctx), only_reordered(a, b)
    ensures a.ok(ctx)
{ lem_occ_same(b.unassigned@, a.unassigned@); reveal(partition);
  assert forall|x: usize| #[trigger] total_occ(a.routes@, a.unassigned@, x) == if 0 < x < ctx.n() { 1int } else { 0int } by { assert(total_occ(b.routes@, b.unassigned@, x) == if 0 < x < ctx.n() { 1int } else { 0int }); } }
pub proof fn lem_route_ok(ctx: &Context, rs: Seq<Route>, r: int)
    requires routes_ok(ctx, rs), 0 <= r < rs.len()
    ensures route_ok(ctx, rs[r])
{ reveal(routes_ok); }
@fn src/solver/improvement/ruin_recreate/recreate.rs sort_on_demand
@params ctx solution
@sort 0 usize
@spec
ensures only_reordered(final(solution), old(solution)),
@endfn
@fn src/solver/improvement/ruin_recreate/recreate.rs sort_farthest_away_from_depot
@params ctx solution
@sort 0 usize
@spec
ensures only_reordered(final(solution), old(solution)),
@endfn
@fn src/solver/improvement/ruin_recreate/recreate.rs sort_closest_to_depot
@params ctx solution
@sort 0 usize
@spec
ensures only_reordered(final(solution), old(solution)),
@endfn
@fn src/solver/improvement/ruin_recreate/recreate.rs GreedyBlink::sort_unassigned
@params ctx solution
@subst solution . unassigned . as_mut_slice () ==> &mut solution.unassigned
@spec
ensures only_reordered(final(solution), old(solution)),
@endfn
@fn src/solver/improvement/ruin_recreate/recreate.rs GreedyBlink@Recreate::run
@params ctx solution
@subst evaluate (ctx , updated_routes . iter ()) ==> evaluate(ctx, &updated_routes.listed())
@subst updated_routes . iter () ==> updated_routes.listed().iter()
@subst solution . routes . get_mut (route_number) . unwrap () ==> &solution.routes[route_number]
@subst solution . routes . iter_mut () ==> solution.routes.iter()
@spec
requires ctx.small(), ctx.finite(), old(solution).ok(ctx),
ensures final(solution).full(ctx), final(solution).routes@.len() == old(solution).routes@.len(),
@at after call sort_unassigned
proof { lem_reordered(ctx, solution, old(solution)); lem_loc_good(solution.routes@, solution.locations@, solution.ruined_routes@, solution.ruined_routes@); }
@loop 0
invariant ctx.small(), ctx.finite(), rebuilding(ctx, *solution, solution.unassigned@, updated_routes@), solution.routes@.len() == old(solution).routes@.len(), problem == ctx.problem,
decreases solution.unassigned@.len()
@at loop 0 start
let ghost s0 = *solution; let ghost un0 = solution.unassigned@; let ghost upd0 = updated_routes@;
proof { lem_un_len(ctx, s0.routes@, un0); assert(0 < un0[0] < ctx.n());  }
@loop 1
invariant un0.len() > 0, customer == un0[0], 0 < customer < ctx.n(), ctx.small(), rebuilding(ctx, s0, un0, updated_routes@), solution.routes == s0.routes, __i1 <= __v1@.len(),
    forall|k: int| 0 <= k < __v1@.len() ==> #[trigger] __v1@[k] < s0.routes@.len(),
    best_route matches Some(r) ==> r < s0.routes@.len() && best_node_index <= s0.routes@[r as int].nodes@.len(),
decreases __v1@.len() - __i1
@at loop 1 start
proof { lem_un_len(ctx, s0.routes@, un0); assert(__v1@[__c1 as int] < s0.routes@.len()); lem_route_ok(ctx, s0.routes@, __v1@[__c1 as int] as int); }
@loop 2
invariant __e2 == route.nodes@.len(), __i2 <= __e2 + 1, __e2 < ctx.n(), ctx.small(), 0 < customer < ctx.n(), route_number < s0.routes@.len(), *route == s0.routes@[route_number as int], route_ok(ctx, *route),
    best_route matches Some(r) ==> r < s0.routes@.len() && best_node_index <= s0.routes@[r as int].nodes@.len(),
decreases __e2 + 1 - __i2
@loop 3
invariant un0.len() > 0, customer == un0[0], 0 < customer < ctx.n(), ctx.small(), ctx.finite(), rebuilding(ctx, s0, un0, updated_routes@), solution.routes == s0.routes, __i3 <= s0.routes@.len(), demand@ == ctx.demand(customer as int),
    best_route matches Some(r) ==> r < s0.routes@.len() && best_node_index <= s0.routes@[r as int].nodes@.len(),
    best_route is None ==> best_cost@ == fmax_spec(),
    __i3 > 0 ==> best_route is Some,
decreases s0.routes@.len() - __i3
@at loop 3 start
proof { lem_over_forms(s0.routes@[__c3 as int].overload@ + demand@, ctx.pen()); lem_un_len(ctx, s0.routes@, un0); lem_route_ok(ctx, s0.routes@, __c3 as int); }
@loop 4
invariant __e4 == route.nodes@.len(), __i4 <= __e4 + 1, __e4 < ctx.n(), ctx.small(), ctx.finite(), 0 < customer < ctx.n(), route_number < s0.routes@.len(), *route == s0.routes@[route_number as int], route_ok(ctx, *route), demand@ == ctx.demand(customer as int),
    routes_ok(ctx, s0.routes@), partition(ctx.n(), s0.routes@, un0), overload_cost@ == rmax(0real, route.overload@ + demand@) * ctx.pen(),
    best_route matches Some(r) ==> r < s0.routes@.len() && best_node_index <= s0.routes@[r as int].nodes@.len(),
    best_route is None ==> best_cost@ == fmax_spec(),
    __i4 > 0 ==> best_route is Some,
decreases __e4 + 1 - __i4
@at loop 4 start
proof { lem_finite(ctx, s0.routes@, un0, route_number as int, __c4 as int, customer); }
@at before loop 1
proof { reveal(in_fleet); }
@at before call add
proof { lem_route_ok(ctx, s0.routes@, best_route_number as int); assert(solution.unassigned@ == un0.remove(0)); }
@at after call insert
proof { lem_put_on(ctx, s0, *solution, un0, upd0, best_route_number, best_node_index as int); }
@at before call evaluate
proof { reveal(in_fleet); }
@at exit
proof { reveal(in_fleet); }
@endfn
