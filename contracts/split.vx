## C03/C04: splitting the giant tour into routes
@include prelude/base.vx
@include prelude/individual.vx
@include prelude/evalspec.vx
@include prelude/sort.vx
@include prelude/perm.vx
@include prelude/occ.vx
@include prelude/flat.vx
@include prelude/fleetspec.vx
@include prelude/frame.vx
@include prelude/tables.vx
@struct src/solver/genetic/split.rs MyVecDeque
@struct src/solver/genetic/split.rs NodeSplit
@attr #[verifier::allow(autoderive_clone_without_spec)] #[derive(Clone)]
@struct src/solver/genetic/split.rs Split
@include prelude/splitspec.vx
@include prelude/splitctx.vx
@include prelude/splitparts.vx
@include prelude/splitbell.vx
@helpers src/solver/genetic/split.rs
@usefn individual.vx Individual::sort_routes
@usefn evaluate.vx Individual::evaluate
@usefn fleet.vx Context::vehicle_lower_bound
@fn src/solver/genetic/individual.rs Individual::genotype_node
@params index
@ret r
@spec
requires 1 <= index <= self.genotype@.len(),
ensures r == self.genotype@[index - 1],
@endfn
@fn src/solver/genetic/split.rs MyVecDeque::new
@params size
@ret r
@spec
ensures r.queue@.len() == 0,
@endfn
@fn src/solver/genetic/split.rs MyVecDeque::len
@ret r
@spec
ensures r == self.queue@.len(),
@endfn
@fn src/solver/genetic/split.rs MyVecDeque::is_empty
@ret r
@spec
ensures r == (self.queue@.len() == 0),
@endfn
@fn src/solver/genetic/split.rs MyVecDeque::clear
@spec
ensures final(self).queue@.len() == 0,
@endfn
@fn src/solver/genetic/split.rs MyVecDeque::pop_back
@ret r
@spec
requires old(self).queue@.len() > 0,
ensures final(self).queue@ == old(self).queue@.drop_last(), r == old(self).queue@.last(),
@endfn
@fn src/solver/genetic/split.rs MyVecDeque::pop_front
@ret r
@spec
requires old(self).queue@.len() > 0,
ensures final(self).queue@ == old(self).queue@.drop_first(), r == old(self).queue@[0],
@endfn
@fn src/solver/genetic/split.rs MyVecDeque::push_back
@params value
@spec
ensures final(self).queue@ == old(self).queue@.push(value),
@endfn
@fn src/solver/genetic/split.rs MyVecDeque::push_front
@params value
@spec
ensures final(self).queue@ == seq![value] + old(self).queue@,
@endfn
@fn src/solver/genetic/split.rs MyVecDeque::front
@ret r
@spec
requires self.queue@.len() > 0,
ensures *r == self.queue@[0],
@endfn
@fn src/solver/genetic/split.rs MyVecDeque::back
@ret r
@spec
requires self.queue@.len() > 0,
ensures *r == self.queue@.last(),
@endfn
@fn src/solver/genetic/split.rs MyVecDeque::next_front
@ret r
@spec
requires old(self).queue@.len() > 1,
ensures r == old(self).queue@[1], final(self).queue@ =~= old(self).queue@,
@endfn
@fn src/solver/genetic/split.rs Split::load
@params ctx individual
@subst self . nodes . get_mut ( i ) . expect ( "No node" ) ==> & mut self . nodes [ i ]
@spec
requires fits(ctx, old(self)), tour_nodes(ctx, individual.genotype@),
ensures fits(ctx, final(self)), matches(ctx, individual.genotype@, tour(final(self))), final(self).path_cost == old(self).path_cost, final(self).predecessors == old(self).predecessors,
@at start
let ghost g = individual.genotype@;
proof { reveal(filled); }
@loop 0
invariant 1 <= __i0, __e0 == ctx.n(), num_nodes == ctx.n(), fits(ctx, self), g == individual.genotype@, tour_nodes(ctx, g), self.path_cost == old(self).path_cost, self.predecessors == old(self).predecessors, self.penalty_capacity@ == ctx.pen(),
    filled(ctx, g, self.nodes@, self.cum_distance@, self.cum_load@, __i0 as int),
decreases __e0 - __i0
@at loop 0 start
let ghost n0 = self.nodes@; let ghost cd0 = self.cum_distance@; let ghost cl0 = self.cum_load@;
proof { assert(0 < g[i - 1] < ctx.n()); if i < ctx.n() - 1 { assert(0 < g[i as int] < ctx.n()); } }
@at loop 0 end
proof { lem_filled_step(ctx, g, n0, cd0, cl0, self.nodes@, self.cum_distance@, self.cum_load@, i as int); }
@at end
proof { reveal(filled); reveal(matches); }
@endfn
@fn src/solver/genetic/split.rs Split::reset
@params limited_fleet
@spec
requires old(self).path_cost.ok(), old(self).path_cost.rows >= 1, old(self).path_cost.cols >= 1,
ensures
    same_tour(old(self), final(self)), final(self).predecessors == old(self).predecessors, final(self).path_cost.ok(), final(self).path_cost.rows == old(self).path_cost.rows, final(self).path_cost.cols == old(self).path_cost.cols,
    final(self).path_cost.line(0)[0]@ == 0real, fresh(final(self).path_cost.line(0)),
    limited_fleet ==> fresh_rows(final(self).path_cost.g@, final(self).path_cost.rows as int),
@loop 0
invariant __e0 == self.path_cost.rows, __e0 == old(self).path_cost.rows, self.path_cost.cols == old(self).path_cost.cols, same_tour(old(self), self), self.predecessors == old(self).predecessors, self.path_cost.ok(), self.path_cost.rows >= 1, self.path_cost.cols >= 1,
    self.path_cost.line(0)[0]@ == 0real, fresh_rows(self.path_cost.g@, __i0 as int),
decreases __e0 - __i0
@at loop 0 start
let ghost g0 = self.path_cost.g@;
proof { lem_fresh_start(g0[__c0 as int]); }
@loop 1
invariant __i0 == row + 1, __c0 == row, row < __e0, __e1 == self.path_cost.cols, 1 <= __i1, __i1 <= __e1, __e0 == self.path_cost.rows, self.path_cost.cols == old(self).path_cost.cols, self.path_cost.rows == old(self).path_cost.rows, same_tour(old(self), self), self.predecessors == old(self).predecessors, self.path_cost.ok(), self.path_cost.cols >= 1,
    self.path_cost.line(0)[0]@ == 0real, forall|r: int| 0 <= r < row ==> #[trigger] self.path_cost.g@[r] == g0[r],
    fresh_to(self.path_cost.line(row as int), __i1 as int),
decreases __e1 - __i1
@at loop 1 start
let ghost p0 = self.path_cost.line(row as int);
@at loop 1 end
proof { lem_fresh_to(p0, self.path_cost.line(row as int), __c1 as int); }
@at after loop 1
proof { lem_fresh_start(self.path_cost.line(row as int)); assert(fresh_rows(self.path_cost.g@, row + 1)) by { reveal(fresh_rows); assert forall|r: int| 0 <= r < row + 1 implies fresh(#[trigger] self.path_cost.g@[r]) by { if r < row { assert(fresh(g0[r])); } } } }
@at after call set
proof { reveal(fresh_rows); lem_fresh_start(self.path_cost.line(0)); }
@loop 2
invariant __e2 == self.path_cost.cols, 1 <= __i2, __i2 <= __e2, self.path_cost.cols == old(self).path_cost.cols, self.path_cost.rows == old(self).path_cost.rows, same_tour(old(self), self), self.predecessors == old(self).predecessors, self.path_cost.ok(), self.path_cost.cols >= 1, self.path_cost.rows >= 1,
    self.path_cost.line(0)[0]@ == 0real, fresh_to(self.path_cost.line(0), __i2 as int),
decreases __e2 - __i2
@at loop 2 start
let ghost p2 = self.path_cost.line(0);
@at loop 2 end
proof { lem_fresh_to(p2, self.path_cost.line(0), __c2 as int); }
@at after loop 2
proof { lem_fresh_start(self.path_cost.line(0)); }
@endfn
@fn src/solver/genetic/split.rs Split::propagate
@params i j k
@ret r
@spec
requires k < self.path_cost.rows, self.path_cost.ok(), i < j < self.path_cost.cols, self.path_cost.cols == self.nodes@.len() == self.cum_distance@.len() == self.cum_load@.len(), self.penalty_capacity@ >= 0real,
ensures r@ == fx(tour(self), self.path_cost.line(k as int), i as int, j as int),
@at start
proof { lem_sc_max(self.penalty_capacity@, self.cum_load@[j as int]@, self.cum_load@[i as int]@, self.vehicle_cap@); }
@endfn
@fn src/solver/genetic/split.rs Split::dominates
@params i j k
@ret r
@spec
requires k < self.path_cost.rows, self.path_cost.ok(), i + 1 < self.path_cost.cols, j + 1 < self.path_cost.cols, self.path_cost.cols == self.nodes@.len() == self.cum_distance@.len() == self.cum_load@.len(), self.penalty_capacity@ >= 0real,
ensures r == ({ let t = tour(self); let p = self.path_cost.line(k as int); hq(t, p, j as int) > hq(t, p, i as int) + scl(t, j as int) - scl(t, i as int) }),
@at start
proof { lem_sc_max(self.penalty_capacity@, self.cum_load@[j as int]@, self.cum_load@[i as int]@, 0real); }
@endfn
@fn src/solver/genetic/split.rs Split::dominates_right
@params i j k
@ret r
@spec
requires k < self.path_cost.rows, self.path_cost.ok(), i + 1 < self.path_cost.cols, j + 1 < self.path_cost.cols, self.path_cost.cols == self.nodes@.len() == self.cum_distance@.len() == self.cum_load@.len(),
ensures r == ({ let t = tour(self); let p = self.path_cost.line(k as int); hq(t, p, j as int) < hq(t, p, i as int) + EPSILON_spec() }),
@endfn
@fn src/solver/genetic/split.rs Split::split
@params ctx individual max_vehicles
@ret r
@spec
requires fits(ctx, old(self)), tour_nodes(ctx, old(individual).genotype@), matches(ctx, old(individual).genotype@, tour(old(self))), plain(ctx), max_vehicles <= ctx.config.num_vehicles, ctx.n() >= 1,
ensures fits(ctx, final(self)), same_tour(old(self), final(self)), final(self).path_cost.rows == old(self).path_cost.rows,
    final(individual).genotype == old(individual).genotype, final(individual).number == old(individual).number,
    ctx.n() == 1 ==> r,
    r ==> splits(ctx, old(individual).genotype@, final(individual).phenotype@, max_vehicles as int, ctx.config.linear_split),
@at start
let ghost g = individual.genotype@; let ghost t = tour(self); let ghost n = ctx.n(); let ghost lin = ctx.config.linear_split; let ghost mut sum: real = 0real; let ghost mut P: Seq<R> = Seq::empty(); let ghost mut D: Seq<usize> = Seq::empty(); let ghost mut m0: int = 0; let ghost cl = cap_limit(ctx);
proof { lem_heavier(ctx, g, t); lem_rising(ctx, g, t); assert(tl(t) == n && t.pen == ctx.pen() && t.cap == ctx.cap()) by { reveal(matches); } }
@at before loop 0
let ghost mut pops: int = 0;
proof { lem_exact_start(t, self.path_cost.line(0), self.path_cost.line(0), self.predecessors.line(0), 0); lem_lopt_start(t, self.path_cost.line(0), queue.queue@, 0); reveal(lined); }
@loop 0
invariant 1 <= __i0 <= __e0, __e0 == n, dim == n, fits(ctx, self), same_tour(old(self), self), t == tour(self), self.path_cost.rows == old(self).path_cost.rows, *individual == *old(individual), rising(t), tl(t) == n, t.pen >= 0real,
    queue.queue@.len() > 0, lined(queue.queue@, 0, __i0 as int), self.path_cost.line(0)[0]@ == 0real,
    exact_to(t, self.path_cost.line(0), self.path_cost.line(0), self.predecessors.line(0), 0, __i0 as int),
    steep(t) ==> least_to(t, self.path_cost.line(0), self.path_cost.line(0), 0, __i0 as int) && (__i0 < n ==> lopt(t, self.path_cost.line(0), queue.queue@, __i0 as int, 0, pops) && fronted(t, self.path_cost.line(0), queue.queue@, __i0 as int)),
decreases __e0 - __i0
@at loop 0 start
let ghost p0 = self.path_cost.line(0); let ghost d0 = self.predecessors.line(0); let ghost q0 = queue.queue@; let ghost mut pushed = false;
proof { lem_lined_sub(q0, 0, i as int); if steep(t) { lem_front_least(t, p0, q0, i as int, 0, pops, true, 0real); } assert(self.predecessors.line(0).len() == n); }
@at before loop 1
proof { if steep(t) { lem_lopt_frame(t, p0, self.path_cost.line(0), q0, i as int, 0, pops); lem_mid_start(t, self.path_cost.line(0), q0, i as int, 0, pops); } }
@loop 1
invariant 1 <= i, i + 1 < n, dim == n, fits(ctx, self), t == tour(self), rising(t), tl(t) == n, t.pen >= 0real, lined(queue.queue@, 0, i as int),
    steep(t) ==> mid(t, self.path_cost.line(0), queue.queue@, i as int, 0, pops),
decreases queue.queue@.len()
@at loop 1 start
proof { lem_lined_sub(queue.queue@, 0, i as int); if steep(t) { lem_pop_back(t, self.path_cost.line(0), queue.queue@, i as int, 0, pops); } pops = pops + 1; }
@at after loop 1
proof { pushed = true; lem_lined_sub(queue.queue@, 0, i as int); lem_lined_push(queue.queue@, 0, i); if steep(t) { lem_push(t, self.path_cost.line(0), queue.queue@, i, 0, pops); } }
@at before loop 2
proof { if !pushed { lem_lined_sub(q0, 0, i as int); if steep(t) { lem_lopt_frame(t, p0, self.path_cost.line(0), q0, i as int, 0, pops); lem_skip(t, self.path_cost.line(0), q0, i as int, 0, pops); } } }
@loop 2
invariant 1 <= i, i + 1 < n, dim == n, fits(ctx, self), t == tour(self), rising(t), tl(t) == n, t.pen >= 0real, lined(queue.queue@, 0, i + 1), queue.queue@.len() > 0,
    steep(t) ==> lopt(t, self.path_cost.line(0), queue.queue@, i + 1, 0, pops),
decreases queue.queue@.len()
@at loop 2 start
proof { lem_lined_sub(queue.queue@, 0, i + 1); if steep(t) { lem_pop_front(t, self.path_cost.line(0), queue.queue@, i + 1, 0, pops); } pops = pops + 1; }
@at after loop 2
proof { if steep(t) { lem_fronted(t, self.path_cost.line(0), queue.queue@, i + 1, 0, pops); } }
@at loop 0 end
proof { if !(i < n - 1) { lem_lined_sub(q0, 0, i as int); } lem_row_step(t, p0, self.path_cost.line(0), p0, self.path_cost.line(0), d0, self.predecessors.line(0), 0, i as int, q0[0] as int); }
@at after loop 0
proof { assert(self.path_cost.line(0).len() == n); lem_exact_linked2(ctx, g, t, self.path_cost.line(0), self.predecessors.line(0)); }
@at before loop 3
proof { lem_linked_start(self.path_cost.line(0), self.predecessors.line(0)); lem_near_fresh(t, self.path_cost.line(0), self.path_cost.line(0), self.predecessors.line(0), 0real, 0real); lem_beats_start(t, self.path_cost.line(0), self.path_cost.line(0), 0, cl, true); }
@loop 3
invariant __e3 == n - 1, dim == n, cap@ == ctx.cap(), fits(ctx, self), same_tour(old(self), self), t == tour(self), self.path_cost.rows == old(self).path_cost.rows, *individual == *old(individual),
    near(t, self.path_cost.line(0), self.path_cost.line(0), self.predecessors.line(0)), beats(t, self.path_cost.line(0), self.path_cost.line(0), 0, cl, true, __i3 as int, 0), heavier(t), tl(t) == n, __i3 <= __e3 || n == 0,
    linked(self.path_cost.line(0), self.path_cost.line(0), self.predecessors.line(0), 0), self.path_cost.line(0)[0]@ == 0real,
decreases __e3 - __i3
@at before loop 4
proof { lem_beats_first(t, self.path_cost.line(0), self.path_cost.line(0), 0, cl, true, from_index as int); }
@loop 4
invariant from_index < to_index <= n, dim == n, cap@ == ctx.cap(), fits(ctx, self), same_tour(old(self), self), t == tour(self), self.path_cost.rows == old(self).path_cost.rows, *individual == *old(individual),
    near(t, self.path_cost.line(0), self.path_cost.line(0), self.predecessors.line(0)), beats(t, self.path_cost.line(0), self.path_cost.line(0), 0, cl, true, from_index as int, to_index as int), load@ == lw(t, from_index as int, to_index - 1), to_index > from_index + 1 ==> cost@ == t.cd[to_index - 1]@ - t.cd[from_index + 1]@ + ctx.d(0, g[from_index as int] as int),
    heavier(t), tl(t) == n, cl == cap_limit(ctx), capacity_factor == ctx.config.split_capacity_factor,
    linked(self.path_cost.line(0), self.path_cost.line(0), self.predecessors.line(0), 0), self.path_cost.line(0)[0]@ == 0real, cost@ >= 0real,
decreases dim - to_index
@at loop 4 start
let ghost p1 = self.path_cost.line(0); let ghost d1 = self.predecessors.line(0);
proof { lem_tour_step(ctx, g, t, to_index as int); assert(0 < g[to_index - 1] < n); assert(ctx.d(g[to_index - 1] as int, 0) >= 0real); assert(ctx.d(0, g[to_index - 1] as int) >= 0real);
    if to_index > 1 { assert(0 < g[to_index - 2] < n); assert(ctx.d(g[to_index - 2] as int, g[to_index - 1] as int) >= 0real); } }
@at after let new_path_cost
let ghost base = new_path_cost@;
proof { lem_surplus(load@, cap@, self.penalty_capacity@); }
@at loop 4 end
proof { let z = to_index - 1; assert(ctx.config.linear_split == lin); lem_bell_cost(ctx, g, t, from_index as int, z, load@, cost@, new_path_cost@ - base); if new_path_cost@ < p1[z]@ { assert(p1.len() == n && d1.len() == n); lem_linked_self_set(p1, d1, self.path_cost.line(0), self.predecessors.line(0), z, from_index as int); lem_near_self(t, p1, d1, self.path_cost.line(0), self.predecessors.line(0), z, from_index as int); } assert(self.path_cost.line(0) =~= p1.update(z, self.path_cost.line(0)[z])); lem_beats_self(t, p1, self.path_cost.line(0), cl, from_index as int, z); }
@at after loop 4
proof { if to_index < n { lem_tour_step(ctx, g, t, to_index as int); } lem_beats_row(t, self.path_cost.line(0), self.path_cost.line(0), 0, cl, true, from_index as int, to_index as int); }
@at after loop 3
proof { lem_beats_end(t, self.path_cost.line(0), self.path_cost.line(0), 0, cl, true, n - 1); }
@at before loop 5
proof { P = self.path_cost.line(0); D = self.predecessors.line(0); lem_parts_start(ctx, g); assert(parts(ctx, g, individual.phenotype@, end as int, 0real, 0real)); assert(P.len() == n); }
@loop 5
invariant end + individual.phenotype@.len() <= n - 1, P == self.path_cost.line(0), D == self.predecessors.line(0), fits(ctx, self), P[end as int]@ <= reach(), linked(P, P, D, 0), P.len() == n,
    individual.genotype == old(individual).genotype, individual.number == old(individual).number,
    parts(ctx, g, individual.phenotype@, end as int, individual.phenotype@.len() as int as real, sum), lin ==> exact_to(t, P, P, D, 0, n) && sum + P[end as int]@ == P[n - 1]@,
    !lin ==> near(t, P, P, D) && sum + P[end as int]@ <= P[n - 1]@ + reps(slop(t), individual.phenotype@.len() as int),
decreases end
@at loop 5 start
let ghost e0 = end as int; let ghost s0 = individual.phenotype@;
proof { lem_linked_at(P, P, D, 0, e0); if lin { lem_exact_at(t, P, P, D, 0, e0); } else { lem_near_at(t, P, P, D, e0); } }
@loop 6
invariant begin <= __i6 <= __e6, __e6 == e0, e0 == end, 0 < e0 <= n - 1, new_route@ == g.subrange(begin as int, __i6 as int), individual.genotype == old(individual).genotype, individual.number == old(individual).number, individual.phenotype@ == s0,
decreases __e6 - __i6
@at loop 6 end
proof { assert(new_route@ =~= g.subrange(begin as int, __i6 as int)); }
@at after loop 6
let ghost nr = new_route;
@at loop 5 end
proof {
    lem_parts_push(ctx, g, s0, nr, begin as int, e0, s0.len() as int as real, sum);
    assert(individual.phenotype@ == s0.push(nr));
    lem_seg(ctx, g, t, begin as int, e0); assert(reps(slop(t), s0.len() as int + 1) == reps(slop(t), s0.len() as int) + slop(t));
    sum = sum + route_pcost(ctx, g.subrange(begin as int, e0));
}
@at before loop 7
proof { m0 = individual.phenotype@.len() as int; }
@loop 7
invariant num_vehicles == m0, n == 1 ==> m0 == 0, num_vehicles_ub == ctx.config.num_vehicles, m0 <= individual.phenotype@.len(), individual.phenotype@.len() > m0 ==> individual.phenotype@.len() <= num_vehicles_ub, individual.genotype == old(individual).genotype, individual.number == old(individual).number, parts(ctx, g, individual.phenotype@, 0, m0 as real, sum),
decreases num_vehicles_ub - individual.phenotype@.len()
@at loop 7 start
let ghost s1 = individual.phenotype@;
@at loop 7 end
proof { lem_parts_pad(ctx, g, s1, individual.phenotype@.last(), 0, m0 as real, sum); assert(individual.phenotype@ =~= s1.push(individual.phenotype@.last())); }
@at end
proof { if num_vehicles <= max_vehicles {
    if lin && weighty(ctx) { assert forall|c: Seq<int>| #[trigger] cut_at(c, g.len() as int) && c.len() - 1 <= max_vehicles implies sum <= cutcost(ctx, g, c) + reps(slk(ctx.n()), c.len() - 1) by { lem_best_row(ctx, g, t, P, c, g.len() as int); } }
    if !lin { lem_slop(t); lem_reps(slop(t), m0, max_vehicles as int); assert forall|c: Seq<int>| #[trigger] cut_at(c, g.len() as int) && c.len() - 1 <= max_vehicles && light(ctx, g, c) implies sum <= cutcost(ctx, g, c) + reps(sc(ctx.pen(), EPSILON_spec()), max_vehicles as int) by { lem_bell_row(ctx, g, t, P, c, g.len() as int); } }
    assert(split_done(ctx, g, individual.phenotype@, max_vehicles as int, lin, m0 as real, sum));
} }
@endfn
@fn src/solver/genetic/split.rs Split::split_limited_fleet_with
@params ctx individual max_vehicles linear_split
@ret r
@addparams Ghost(b): Ghost<real>
@attr #[verifier::allow_complex_invariants]
@spec
requires fits(ctx, old(self)), tour_nodes(ctx, old(individual).genotype@), matches(ctx, old(individual).genotype@, tour(old(self))), plain(ctx), moderate(ctx, old(individual).genotype@, b), 1 <= max_vehicles <= ctx.config.num_vehicles, max_vehicles < old(self).path_cost.rows, ctx.n() >= 2,
ensures fits(ctx, final(self)), same_tour(old(self), final(self)), final(self).path_cost.rows == old(self).path_cost.rows,
    final(individual).genotype == old(individual).genotype, final(individual).number == old(individual).number,
    linear_split ==> r, !linear_split && !r ==> nolight(ctx, old(individual).genotype@, max_vehicles as int),
    r ==> splits(ctx, old(individual).genotype@, final(individual).phenotype@, max_vehicles as int, linear_split),
@at start
let ghost g = individual.genotype@; let ghost t = tour(self); let ghost n = ctx.n(); let ghost lin = linear_split;
let ghost mut sum: real = 0real; let ghost mut M: Seq<Seq<R>> = Seq::empty(); let ghost mut E: Seq<Seq<usize>> = Seq::empty(); let ghost mut m0: int = 0; let ghost mut pops: int = 0; let ghost mut fin = false; let ghost cl = cap_limit(ctx);
proof { lem_heavier(ctx, g, t); lem_rising(ctx, g, t); lem_calm(ctx, g, t, b); assert(tl(t) == n && t.pen == ctx.pen() && t.cap == ctx.cap()) by { reveal(matches); } }
@at before loop 0
proof { lem_rows_start(t, self.path_cost.g@, self.predecessors.g@, b); }
@loop 0
invariant __e0 == max_vehicles, __i0 <= __e0, dim == n, fits(ctx, self), same_tour(old(self), self), t == tour(self), self.path_cost.rows == old(self).path_cost.rows, *individual == *old(individual), rising(t), bounded(t, b), tl(t) == n, t.pen >= 0real,
    self.path_cost.line(0)[0]@ == 0real, fresh(self.path_cost.line(0)), fresh_from(self.path_cost.g@, __i0 + 1),
    all_links(self.path_cost.g@, self.predecessors.g@, __i0 as int), all_exact(t, self.path_cost.g@, self.predecessors.g@, __i0 as int), all_low(t, self.path_cost.g@, __i0 as int, b),
    steep(t) ==> all_least(t, self.path_cost.g@, __i0 as int),
decreases __e0 - __i0
@at loop 0 start
let ghost M0 = self.path_cost.g@; let ghost E0 = self.predecessors.g@; let ghost p = M0[k as int]; let ghost hi: int = if k == 0 { 1 } else { n };
proof { pops = 0; }
@at before loop 1
proof { lem_exact_start(t, p, self.path_cost.line(k + 1), self.predecessors.line(k + 1), k as int); lem_lopt_start(t, p, queue.queue@, k as int); lem_row_fresh(M0, k + 1); reveal(lined); lem_low_start(self.path_cost.line(k + 1), k + 1, reps(b, k + 1)); lem_low_of(t, M0, k as int, b); assert(queue.queue@ =~= seq![k]); }
@loop 1
invariant k < max_vehicles, __e1 == n, k + 1 <= __i1, __i1 <= __e1 || __i1 == k + 1, dim == n, fits(ctx, self), same_tour(old(self), self), t == tour(self), self.path_cost.rows == old(self).path_cost.rows, *individual == *old(individual), rising(t), bounded(t, b), tl(t) == n, t.pen >= 0real,
    same_but(M0, self.path_cost.g@, k + 1), same_but(E0, self.predecessors.g@, k + 1), low_to(p, k as int, hi, reps(b, k as int)), p == M0[k as int], k == 0 ==> p[0]@ == 0real && fresh(p), hi == if k == 0 { 1 } else { n },
    queue.queue@.len() > 0, lined(queue.queue@, k as int, __i1 as int), k == 0 ==> queue.queue@ == seq![0usize],
    exact_to(t, p, self.path_cost.line(k + 1), self.predecessors.line(k + 1), k as int, __i1 as int), low_to(self.path_cost.line(k + 1), k + 1, __i1 as int, reps(b, k + 1)),
    forall|y: int| 1 <= y <= k && y < n ==> (#[trigger] self.path_cost.g@[k + 1][y])@ > reach(),
    steep(t) ==> least_to(t, p, self.path_cost.line(k + 1), k as int, __i1 as int) && (__i1 < n ==> lopt(t, p, queue.queue@, __i1 as int, k as int, pops) && fronted(t, p, queue.queue@, __i1 as int)),
ensures __i1 >= __e1,
decreases __e1 - __i1
@at loop 1 start
let ghost r0 = self.path_cost.line(k + 1); let ghost d0 = self.predecessors.line(k + 1); let ghost q0 = queue.queue@; let ghost mut pushed = false; let ghost f = q0[0] as int;
proof { lem_lined_sub(q0, k as int, i as int); if steep(t) { lem_front_least(t, p, q0, i as int, k as int, pops, true, 0real); } assert(self.predecessors.line(k + 1).len() == n); assert(self.path_cost.line(k + 1).len() == n); assert(p.len() == n); lem_low_at(t, p, b, k as int, f, i as int, hi); }
@at before loop 2
proof { if k == 0 { lem_fresh_at(p, i as int); lem_far(t, p, b, i as int); assert(q0.last() == 0); assert(false); } if steep(t) { lem_mid_start(t, p, q0, i as int, k as int, pops); } }
@loop 2
invariant k >= 1, k < i, i + 1 < n, dim == n, fits(ctx, self), t == tour(self), rising(t), tl(t) == n, t.pen >= 0real, lined(queue.queue@, k as int, i as int), p == self.path_cost.line(k as int), k < self.path_cost.rows,
    steep(t) ==> mid(t, p, queue.queue@, i as int, k as int, pops),
decreases queue.queue@.len()
@at loop 2 start
proof { lem_lined_sub(queue.queue@, k as int, i as int); if steep(t) { lem_pop_back(t, p, queue.queue@, i as int, k as int, pops); } pops = pops + 1; }
@at after loop 2
proof { pushed = true; lem_lined_sub(queue.queue@, k as int, i as int); lem_lined_push(queue.queue@, k as int, i); if steep(t) { lem_push(t, p, queue.queue@, i, k as int, pops); } }
@at before loop 3
proof { if !pushed { lem_lined_sub(q0, k as int, i as int); if steep(t) { lem_skip(t, p, q0, i as int, k as int, pops); } } }
@loop 3
invariant k < i, i + 1 < n, dim == n, fits(ctx, self), t == tour(self), rising(t), tl(t) == n, t.pen >= 0real, lined(queue.queue@, k as int, i + 1), queue.queue@.len() > 0, p == self.path_cost.line(k as int), k < self.path_cost.rows, k == 0 ==> queue.queue@ == seq![0usize],
    steep(t) ==> lopt(t, p, queue.queue@, i + 1, k as int, pops),
decreases queue.queue@.len()
@at loop 3 start
proof { lem_lined_sub(queue.queue@, k as int, i + 1); if steep(t) { lem_pop_front(t, p, queue.queue@, i + 1, k as int, pops); } pops = pops + 1; }
@at after loop 3
proof { if steep(t) { lem_fronted(t, p, queue.queue@, i + 1, k as int, pops); } }
@at loop 1 end
proof { if !(i < n - 1) { lem_lined_sub(q0, k as int, i as int); } lem_row_step(t, p, p, r0, self.path_cost.line(k + 1), d0, self.predecessors.line(k + 1), k as int, i as int, f);
    lem_low_step(r0, self.path_cost.line(k + 1), k + 1, i as int, reps(b, k + 1)); assert forall|y: int| 1 <= y <= k && y < n implies (#[trigger] self.path_cost.g@[k + 1][y])@ > reach() by { assert(r0[y]@ > reach()); } }
@at after loop 1
proof { lem_row_done(t, M0, E0, self.path_cost.g@, self.predecessors.g@, k as int, b, __i1 as int); }
@at before loop 4
proof { lem_rows_start(t, self.path_cost.g@, self.predecessors.g@, b); lem_bell_first(t, self.path_cost.g@, self.predecessors.g@, cl, b); }
@loop 4
invariant __e4 == max_vehicles, __i4 <= __e4, dim == n, fits(ctx, self), same_tour(old(self), self), t == tour(self), self.path_cost.rows == old(self).path_cost.rows, *individual == *old(individual),
    self.path_cost.line(0)[0]@ == 0real, fresh(self.path_cost.line(0)), fresh_from(self.path_cost.g@, __i4 + 1), all_links(self.path_cost.g@, self.predecessors.g@, __i4 as int),
    heavier(t), bounded(t, b), tl(t) == n, max_vehicles < self.path_cost.rows, all_bell(t, self.path_cost.g@, self.predecessors.g@, cl, b, __i4 as int), solid(t, self.path_cost.g@[__i4 as int], cl, __i4 as int), lowp(self.path_cost.g@[__i4 as int], __i4 as int, reps(b, __i4 as int)),
decreases __e4 - __i4
@at loop 4 start
let ghost v = vehicle_index as int; let ghost M0 = self.path_cost.g@; let ghost E0 = self.predecessors.g@; let ghost p = M0[v];
@at before loop 5
proof { lem_row_fresh(M0, v + 1); lem_linked_fresh(p, M0[v + 1], E0[v + 1], v); lem_near_fresh(t, p, M0[v + 1], E0[v + 1], cl, reps(b, v + 1)); lem_beats_start(t, p, M0[v + 1], v, cl, false); fin = false; }
@loop 5
invariant_except_break !fin,
invariant fin ==> beats(t, p, self.path_cost.line(v + 1), v, cl, false, tl(t), 0), !fin ==> beats(t, p, self.path_cost.line(v + 1), v, cl, false, __i5 as int, 0),
    v < max_vehicles, v == vehicle_index, __e5 == n - 1, v <= __i5, dim == n, cap@ == ctx.cap(), fits(ctx, self), same_tour(old(self), self), t == tour(self), self.path_cost.rows == old(self).path_cost.rows, *individual == *old(individual),
    same_but(M0, self.path_cost.g@, v + 1), same_but(E0, self.predecessors.g@, v + 1), p == M0[v], linked(p, self.path_cost.line(v + 1), self.predecessors.line(v + 1), v),
    near(t, p, self.path_cost.line(v + 1), self.predecessors.line(v + 1)), modest(t, self.path_cost.line(v + 1), self.predecessors.line(v + 1), cl, reps(b, v + 1)), heavier(t), bounded(t, b), tl(t) == n, solid(t, p, cl, v), lowp(p, v, reps(b, v)),
decreases __e5 - __i5
@at loop 5 start
proof { lem_beats_first(t, p, self.path_cost.line(v + 1), v, cl, false, from_index as int); if p[from_index as int]@ > reach() { fin = true; lem_beats_stop(t, p, self.path_cost.line(v + 1), v, cl, from_index as int); } }
@loop 6
invariant v < max_vehicles, v == vehicle_index, v <= from_index < to_index <= n, dim == n, cap@ == ctx.cap(), fits(ctx, self), same_tour(old(self), self), t == tour(self), self.path_cost.rows == old(self).path_cost.rows, *individual == *old(individual),
    same_but(M0, self.path_cost.g@, v + 1), same_but(E0, self.predecessors.g@, v + 1), p == M0[v], linked(p, self.path_cost.line(v + 1), self.predecessors.line(v + 1), v), p[from_index as int]@ <= reach(),
    near(t, p, self.path_cost.line(v + 1), self.predecessors.line(v + 1)), modest(t, self.path_cost.line(v + 1), self.predecessors.line(v + 1), cl, reps(b, v + 1)), heavier(t), bounded(t, b), tl(t) == n, solid(t, p, cl, v), lowp(p, v, reps(b, v)), cl == cap_limit(ctx), capacity_factor == ctx.config.split_capacity_factor,
    beats(t, p, self.path_cost.line(v + 1), v, cl, false, from_index as int, to_index as int), load@ == lw(t, from_index as int, to_index - 1), to_index > from_index + 1 ==> cost@ == t.cd[to_index - 1]@ - t.cd[from_index + 1]@ + ctx.d(0, g[from_index as int] as int),
decreases dim - to_index
@at after let new_path_cost
let ghost base = new_path_cost@;
@at after loop 6
proof { if to_index < n { lem_tour_step(ctx, g, t, to_index as int); } lem_beats_row(t, p, self.path_cost.line(v + 1), v, cl, false, from_index as int, to_index as int); }
@at loop 6 start
let ghost q1 = self.path_cost.line(v + 1); let ghost d1 = self.predecessors.line(v + 1);
proof { lem_tour_step(ctx, g, t, to_index as int); assert(0 < g[to_index - 1] < n); if to_index > 1 { assert(0 < g[to_index - 2] < n); } }
@at loop 6 end
proof { let z = to_index - 1; lem_bell_cost(ctx, g, t, from_index as int, z, load@, cost@, new_path_cost@ - base); lem_low_reach(t, p, v, b, from_index as int, z); if new_path_cost@ < q1[z]@ { assert(q1.len() == n && d1.len() == n); lem_linked_set(p, q1, d1, self.path_cost.line(v + 1), self.predecessors.line(v + 1), v, z, from_index as int); lem_near_set(t, p, q1, d1, self.path_cost.line(v + 1), self.predecessors.line(v + 1), cl, reps(b, v + 1), z, from_index as int); } assert(self.path_cost.line(v + 1) =~= q1.update(z, self.path_cost.line(v + 1)[z])); lem_beats_set(t, p, q1, self.path_cost.line(v + 1), v, cl, from_index as int, z); }
@at after loop 5
proof { if !fin { lem_beats_end(t, p, self.path_cost.line(v + 1), v, cl, false, __i5 as int); } lem_links_done(M0, E0, self.path_cost.g@, self.predecessors.g@, v); lem_bell_done(t, M0, E0, self.path_cost.g@, self.predecessors.g@, cl, b, v); }
@at before loop 7
proof { M = self.path_cost.g@; E = self.predecessors.g@; assert(M.len() == self.path_cost.rows); assert(M[0].len() == n); if lin { lem_low_of(t, M, max_vehicles as int, b); } }
@loop 7
invariant __e7 == max_vehicles, __i7 >= 1, M == self.path_cost.g@, E == self.predecessors.g@, fits(ctx, self), last_customer_index == n - 1, 1 <= num_routes <= max_vehicles, max_vehicles < self.path_cost.rows,
    min_cost@ == M[num_routes as int][n - 1]@, min_cost@ <= M[max_vehicles as int][n - 1]@, forall|x: int| 1 <= x < __i7 && x < max_vehicles ==> min_cost@ <= (#[trigger] M[x])[n - 1]@,
decreases __e7 - __i7
@at after loop 7
proof { assert forall|x: int| 1 <= x <= max_vehicles implies min_cost@ <= (#[trigger] M[x])[n - 1]@ by {} if lin { lem_low_last(t, M, max_vehicles as int, b); assert(min_cost@ <= M[1][n - 1]@); }
    if !lin && min_cost@ > reach() { assert(nolight(ctx, g, max_vehicles as int)) by { reveal(nolight); assert forall|c: Seq<int>| #[trigger] cut_at(c, g.len() as int) && c.len() - 1 <= max_vehicles implies !light(ctx, g, c) by { if light(ctx, g, c) { lem_bell_rows(ctx, g, t, M, E, b, c, g.len() as int, max_vehicles as int); assert(c.len() > 1); assert(min_cost@ <= M[c.len() - 1][n - 1]@); } } } } }
@at before loop 8
proof { lem_parts_start(ctx, g); assert(parts(ctx, g, individual.phenotype@, end as int, 0real, 0real)); }
@loop 8
invariant end <= n - 1, vehicle_number <= num_routes, M == self.path_cost.g@, E == self.predecessors.g@, fits(ctx, self), 1 <= num_routes <= max_vehicles, max_vehicles < self.path_cost.rows, M[vehicle_number as int][end as int]@ <= reach(), vehicle_number > 0 ==> end >= 1, all_links(M, E, max_vehicles as int), M[0][0]@ == 0real, fresh(M[0]),
    individual.genotype == old(individual).genotype, individual.number == old(individual).number, individual.phenotype@.len() + vehicle_number == num_routes,
    parts(ctx, g, individual.phenotype@, end as int, individual.phenotype@.len() as int as real, sum), !lin ==> all_bell(t, M, E, cl, b, max_vehicles as int) && sum + M[vehicle_number as int][end as int]@ <= M[num_routes as int][n - 1]@ + reps(slop(t), individual.phenotype@.len() as int),
    lin ==> all_exact(t, M, E, max_vehicles as int) && sum + M[vehicle_number as int][end as int]@ == M[num_routes as int][n - 1]@,
decreases vehicle_number
@at loop 8 start
let ghost e0 = end as int; let ghost s0 = individual.phenotype@; let ghost w = vehicle_number as int;
proof { lem_trace(t, M, E, max_vehicles as int, w, e0, n, lin); if !lin { lem_bell_at(t, M, E, cl, b, max_vehicles as int, w, e0); } }
@loop 9
invariant begin <= __i9 <= __e9, __e9 == e0, e0 == end, 0 < e0 <= n - 1, new_route@ == g.subrange(begin as int, __i9 as int), individual.genotype == old(individual).genotype, individual.number == old(individual).number, individual.phenotype@ == s0,
decreases __e9 - __i9
@at loop 9 end
proof { assert(new_route@ =~= g.subrange(begin as int, __i9 as int)); }
@at after loop 9
let ghost nr = new_route;
@at loop 8 end
proof {
    lem_parts_insert(ctx, g, s0, nr, begin as int, e0, s0.len() as int as real, sum);
    assert(individual.phenotype@ == s0.insert(0, nr));
    lem_seg(ctx, g, t, begin as int, e0);
    assert(reps(slop(t), s0.len() as int + 1) == reps(slop(t), s0.len() as int) + slop(t));
    sum = sum + route_pcost(ctx, g.subrange(begin as int, e0));
}
@at after loop 8
proof { if end > 0 { lem_fresh_at(M[0], end as int); } }
@at before loop 10
proof { m0 = individual.phenotype@.len() as int; }
@loop 10
invariant num_vehicles_ub == ctx.config.num_vehicles, m0 <= individual.phenotype@.len(), individual.phenotype@.len() <= num_vehicles_ub, individual.genotype == old(individual).genotype, individual.number == old(individual).number, parts(ctx, g, individual.phenotype@, 0, m0 as real, sum),
decreases num_vehicles_ub - individual.phenotype@.len()
@at loop 10 start
let ghost s1 = individual.phenotype@;
@at loop 10 end
proof { lem_parts_pad(ctx, g, s1, individual.phenotype@.last(), 0, m0 as real, sum); assert(individual.phenotype@ =~= s1.push(individual.phenotype@.last())); }
@at end
proof {
    if lin && weighty(ctx) { assert forall|c: Seq<int>| #[trigger] cut_at(c, g.len() as int) && c.len() - 1 <= max_vehicles implies sum <= cutcost(ctx, g, c) + reps(slk(ctx.n()), c.len() - 1) by {
        lem_best_rows(ctx, g, t, M, c, g.len() as int, max_vehicles as int); assert(c.len() > 1); assert(M[num_routes as int][n - 1]@ <= M[c.len() - 1][n - 1]@); } }
    if !lin { lem_slop(t); lem_reps(slop(t), m0, max_vehicles as int); assert forall|c: Seq<int>| #[trigger] cut_at(c, g.len() as int) && c.len() - 1 <= max_vehicles && light(ctx, g, c) implies sum <= cutcost(ctx, g, c) + reps(sc(ctx.pen(), EPSILON_spec()), max_vehicles as int) by { lem_bell_rows(ctx, g, t, M, E, b, c, g.len() as int, max_vehicles as int); assert(c.len() > 1); assert(M[num_routes as int][n - 1]@ <= M[c.len() - 1][n - 1]@); } }
    assert(split_done(ctx, g, individual.phenotype@, max_vehicles as int, lin, m0 as real, sum));
}
@endfn
@fn src/solver/genetic/split.rs Split::split_limited_fleet
@params ctx individual max_vehicles
@ret r
@passargs split_limited_fleet_with Ghost(b)
@addparams Ghost(b): Ghost<real>
@spec
requires fits(ctx, old(self)), tour_nodes(ctx, old(individual).genotype@), matches(ctx, old(individual).genotype@, tour(old(self))), plain(ctx), moderate(ctx, old(individual).genotype@, b), 1 <= max_vehicles <= ctx.config.num_vehicles, max_vehicles < old(self).path_cost.rows, ctx.n() >= 2,
ensures fits(ctx, final(self)), same_tour(old(self), final(self)), final(self).path_cost.rows == old(self).path_cost.rows,
    final(individual).genotype == old(individual).genotype, final(individual).number == old(individual).number,
    splits(ctx, old(individual).genotype@, final(individual).phenotype@, max_vehicles as int, ctx.config.linear_split),
@at end
proof { let s = individual.phenotype@; let g = individual.genotype@;
    assert forall|cnt: real, cost: real| #[trigger] split_done(ctx, g, s, max_vehicles as int, true, cnt, cost) implies split_done(ctx, g, s, max_vehicles as int, true, cnt, cost) by {} if !linear_split && splits(ctx, g, s, max_vehicles as int, true) && nolight(ctx, g, max_vehicles as int) { lem_no_light(ctx, g, s, max_vehicles as int); } }
@endfn
@fn src/solver/genetic/split.rs Split::run
@params ctx individual max_vehicles
@addparams Ghost(b): Ghost<real>
@passargs split_limited_fleet Ghost(b)
@spec
requires fits(ctx, old(self)), giant(ctx.n(), old(individual).genotype@), plain(ctx), moderate(ctx, old(individual).genotype@, b), sizes_ok(ctx), ctx.n() <= usize::MAX,
    1 <= fleet_limit(ctx, max_vehicles) <= ctx.config.num_vehicles, fleet_limit(ctx, max_vehicles) < old(self).path_cost.rows,
ensures fits(ctx, final(self)), final(self).path_cost.rows == old(self).path_cost.rows, final(individual).number == old(individual).number,
    complete(ctx.n(), final(individual).phenotype@), runs(old(individual).genotype@, final(individual).phenotype@),
    used(final(individual).phenotype@) <= fleet_limit(ctx, max_vehicles) as real, final(individual).phenotype@.len() == ctx.config.num_vehicles,
    final(individual).genotype@ == flat_all(final(individual).phenotype@), eval_of(ctx, final(individual).evaluation, final(individual).phenotype@),
    ctx.config.linear_split && weighty(ctx) ==> cheapest(ctx, old(individual).genotype@, final(individual).evaluation.penalized_cost@, fleet_limit(ctx, max_vehicles)),
    !ctx.config.linear_split ==> cheapest_light(ctx, old(individual).genotype@, final(individual).evaluation.penalized_cost@, fleet_limit(ctx, max_vehicles)),
@at start
let ghost g = individual.genotype@; let ghost n = ctx.n(); let ghost lim = fleet_limit(ctx, max_vehicles);
proof { assert(tour_nodes(ctx, g)) by { assert forall|i: int| 0 <= i < g.len() implies 0 < #[trigger] g[i] < ctx.n() by { assert(in_1n(g[i], n - 1)); } } }
@at before call sort_routes
let ghost s0 = individual.phenotype@;
proof { lem_splits_end(ctx, n, g, s0, lim, ctx.config.linear_split); }
@at after call sort_routes
let ghost s1 = individual.phenotype@;
proof { lem_sorted_end(ctx, n, g, s0, s1, lim, ctx.config.linear_split); assert(individual.genotype@.take(n - 1) =~= individual.genotype@); }
@endfn
@fn src/solver/genetic/split.rs NodeSplit::new
@ret r
@endfn
@fn src/solver/genetic/split.rs Split::new
@params ctx
@ret r
@spec
requires ctx.wf(), ctx.config.num_vehicles < u64::MAX, (ctx.config.num_vehicles + 1) * ctx.problem.nodes@.len() <= 0x1ff_ffff_ffff_ffff,
ensures fits(ctx, &r), r.path_cost.rows == ctx.config.num_vehicles + 1,
@endfn
