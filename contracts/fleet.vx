## C23: fleet size and initial penalty
@include prelude/base.vx
@include prelude/fleetspec.vx
@helpers src/solver/context.rs src/models/problem.rs
@fn src/models/problem.rs Problem::total_demand
@ret r
@spec
ensures r@ == total(self.nodes@, self.nodes@.len() as int),
@loop 0
invariant __i0 <= self.nodes@.len(), __a0@ == total(self.nodes@, __i0 as int),
decreases self.nodes@.len() - __i0
@endfn
@fn src/models/problem.rs Problem::max_demand
@ret r
@spec
ensures
    opt_max(self.nodes@, self.nodes@.len() as int, r),
@at start
proof { reveal(is_max_demand); }
@loop 0
invariant __i0 <= self.nodes@.len(),
    opt_max(self.nodes@, __i0 as int, __a0),
decreases self.nodes@.len() - __i0
@at loop 0 end
proof {
    let q = __i0 - 1;
    assert(self.nodes@[q].demand@ == self.nodes@[q].demand@);
    assert(is_max_demand(self.nodes@, __i0 as int, (__a0->0)@));
}
@endfn
@fn src/solver/context.rs Context::vehicle_lower_bound
@ret r
@spec
requires sizes_ok(self),
ensures r as int == lower_bound(self.problem.nodes@, self.cap()),
    (r as int as real) * self.cap() >= total(self.problem.nodes@, self.problem.nodes@.len() as int),
    ((r as int - 1) as real) * self.cap() < total(self.problem.nodes@, self.problem.nodes@.len() as int),
@at start
proof {
    lem_total_nonneg(self.problem.nodes@, self.problem.nodes@.len() as int);
    lem_div_nonneg(total(self.problem.nodes@, self.problem.nodes@.len() as int), self.cap());
    lem_lower_bound_meaning(self.problem.nodes@, self.cap());
    let q = total(self.problem.nodes@, self.problem.nodes@.len() as int) / self.cap();
    let c = lower_bound(self.problem.nodes@, self.cap());
    assert((c as real).floor() == c);
}
@endfn
@fn src/solver/context.rs Context::initial_num_vehicles
@ret r
@spec
requires sizes_ok(self),
ensures r as int == fleet(self.problem.nodes@, self.cap()), r as int >= lower_bound(self.problem.nodes@, self.cap()),
@at start
proof {
    lem_total_nonneg(self.problem.nodes@, self.problem.nodes@.len() as int);
    lem_div_nonneg(total(self.problem.nodes@, self.problem.nodes@.len() as int), self.cap());
    let c = fleet(self.problem.nodes@, self.cap());
    assert((c as real).floor() == c);
}
@endfn
@fn src/solver/context.rs Context::initial_penalty
@params max_distance max_demand
@ret r
@spec
requires max_demand matches Some(m) ==> m@ != 0real,
ensures r@ == start_penalty(max_distance, max_demand),
    0.0001real <= r@ <= 10000real,
@at start
proof { reveal(start_penalty); }
@endfn
@fn src/solver/context.rs Context::reset_penalty
@mut self
@at after let max_demand
proof { lem_some_positive(self.problem.nodes@, max_demand); }
@spec
requires some_positive(old(self).problem.nodes@) || old(self).problem.nodes@.len() == 0,
ensures
    final(self).problem == old(self).problem, final(self).matrix_provider == old(self).matrix_provider, final(self).random == old(self).random,
    final(self).config.num_vehicles == old(self).config.num_vehicles,
    old(self).problem.nodes@.len() == 0 ==> final(self).pen() == 100real,
    old(self).problem.nodes@.len() > 0 ==> exists|m: R| is_max_demand(old(self).problem.nodes@, old(self).problem.nodes@.len() as int, m@)
        && final(self).pen() == #[trigger] start_penalty(max_dist_spec(&old(self).matrix_provider.distance), Some(m)),
@at exit
proof {
    if max_demand is Some { assert(is_max_demand(old(self).problem.nodes@, old(self).problem.nodes@.len() as int, (max_demand->0)@)); assert(self.pen() == start_penalty(max_distance, Some(max_demand->0))); }
    else { reveal(start_penalty); }
}
@endfn
@fn src/solver/context.rs Context::setup
@mut self
@spec
requires sizes_ok(old(self)), some_positive(old(self).problem.nodes@) || old(self).problem.nodes@.len() == 0,
ensures
    final(self).problem == old(self).problem,
    final(self).config.num_vehicles as int == fleet(old(self).problem.nodes@, old(self).cap()),
    final(self).config.num_vehicles as int >= lower_bound(old(self).problem.nodes@, old(self).cap()),
    old(self).problem.nodes@.len() > 0 ==> exists|m: R| is_max_demand(old(self).problem.nodes@, old(self).problem.nodes@.len() as int, m@)
        && final(self).pen() == #[trigger] start_penalty(max_dist_spec(&old(self).matrix_provider.distance), Some(m)),
@endfn
