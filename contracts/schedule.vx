## C10: cooling schedules and acceptance
@include prelude/base.vx
@include prelude/schedspec.vx
@fn src/solver/improvement/ruin_recreate/schedule.rs IterationSchedule::new
@params start_temp iterations
@ret r
@spec
ensures r.temp@ == start_temp@, r.start_temp@ == start_temp@, r.iteration == 0, r.total_iterations == iterations, start_temp@ > 0real && iterations > 0 ==> r.ok(),
@at start
proof { lem_start(start_temp@); if iterations > 0 { lem_progress(0, iterations as int); } }
@endfn
@fn src/solver/improvement/ruin_recreate/schedule.rs IterationSchedule@TemperatureAcceptance::temp
@ret r
@spec
ensures r@ == self.temp@,
@endfn
@fn src/solver/improvement/ruin_recreate/schedule.rs IterationSchedule@TemperatureAcceptance::elapsed
@ret r
@spec
requires self.total_iterations > 0,
ensures r@ == progress(self.iteration as int, self.total_iterations as int),
@endfn
@fn src/solver/improvement/ruin_recreate/schedule.rs TemperatureAcceptance::accept
@as temperature_accept
@self IterationSchedule
@params new_cost old_cost random
@ret r
@subst random . real () ==> draw(random, &mut u)
@spec
ensures decision(self.temp@, new_cost@, old_cost@, r),
@at start
let mut u: Ghost<real> = Ghost(0real);
@at exit
proof { lem_decision(self.temp@, new_cost@, old_cost@, u@); }
@endfn
@raw
// draws a number and remembers it for the contract
pub fn draw(random: &Random, u: &mut Ghost<real>) -> (r: R)
    ensures 0real <= r@ < 1real, final(u)@ == r@
{ let r = random.real(); *u = Ghost(r@); r }
@fn src/solver/improvement/ruin_recreate/schedule.rs IterationSchedule@Acceptance::accept
@params new_cost old_cost random
@ret r
@subst < Self as TemperatureAcceptance > :: accept ==> Self::temperature_accept
@spec
ensures decision(self.temp@, new_cost@, old_cost@, r),
@endfn
@fn src/solver/improvement/ruin_recreate/schedule.rs IterationSchedule@Acceptance::update
@spec
requires old(self).ok(), old(self).iteration < usize::MAX,
ensures
    final(self).ok(), final(self).iteration == old(self).iteration + 1,
    final(self).start_temp == old(self).start_temp, final(self).total_iterations == old(self).total_iterations,
    final(self).temp@ < old(self).temp@,
    final(self).iteration == final(self).total_iterations ==> rabs(final(self).temp@) <= final(self).start_temp@ * 0.000000000000001real,
@at exit
proof {
    lem_progress(old(self).iteration as int, self.total_iterations as int);
    lem_temp_forms(self.start_temp@, progress(self.iteration as int, self.total_iterations as int));
    lem_decreasing(self.start_temp@, progress(old(self).iteration as int, self.total_iterations as int), progress(self.iteration as int, self.total_iterations as int));
    lem_end(self.start_temp@);
}
@endfn
@fn src/solver/improvement/ruin_recreate/schedule.rs IterationSchedule@Acceptance::completed
@ret r
@spec
ensures r == (self.iteration >= self.total_iterations),
@endfn
@fn src/solver/improvement/ruin_recreate/schedule.rs IterationSchedule@Acceptance::reset
@spec
requires old(self).ok(),
ensures final(self).ok(), final(self).iteration == 0, final(self).temp@ == old(self).start_temp@,
    final(self).start_temp == old(self).start_temp, final(self).total_iterations == old(self).total_iterations,
@at exit
proof { lem_start(self.start_temp@); lem_progress(0, self.total_iterations as int); }
@endfn
@fn src/solver/improvement/ruin_recreate/schedule.rs TimeSchedule::new
@params start_temp duration
@ret r
@spec
ensures r.fresh(), r.start_temp@ == start_temp@, r.duration@ == duration.secs(), start_temp@ > 0real && r.duration@ > 0real ==> r.ok(),
@at start
proof { lem_start(start_temp@); }
@endfn
@fn src/solver/improvement/ruin_recreate/schedule.rs TimeSchedule::set_update_rate
@params rate
@spec
ensures final(self).update_rate == rate, final(self).temp == old(self).temp, final(self).completed == old(self).completed,
@endfn
@fn src/solver/improvement/ruin_recreate/schedule.rs TimeSchedule@TemperatureAcceptance::temp
@ret r
@spec
ensures r@ == self.temp@,
@endfn
@fn src/solver/improvement/ruin_recreate/schedule.rs TimeSchedule@TemperatureAcceptance::elapsed
@ret r
@spec
requires self.duration@ > 0real,
ensures r@ >= 0real,
@at exit
proof { assert forall|a: R, b: R| a@ >= 0real && b@ > 0real implies (#[trigger] vstd::std_specs::ops::DivSpec::div_spec(a, b))@ >= 0real by { let x = a@; let y = b@; assert(x / y >= 0real) by (nonlinear_arith) requires x >= 0real, y > 0real; } }
@endfn
@fn src/solver/improvement/ruin_recreate/schedule.rs TemperatureAcceptance::accept
@as temperature_accept
@self TimeSchedule
@params new_cost old_cost random
@ret r
@subst random . real () ==> draw(random, &mut u)
@spec
ensures decision(self.temp@, new_cost@, old_cost@, r),
@at start
let mut u: Ghost<real> = Ghost(0real);
@at exit
proof { lem_decision(self.temp@, new_cost@, old_cost@, u@); }
@endfn
@fn src/solver/improvement/ruin_recreate/schedule.rs TimeSchedule@Acceptance::accept
@params new_cost old_cost random
@ret r
@subst < Self as TemperatureAcceptance > :: accept ==> Self::temperature_accept
@spec
ensures decision(self.temp@, new_cost@, old_cost@, r),
@endfn
@fn src/solver/improvement/ruin_recreate/schedule.rs TimeSchedule@Acceptance::update
@spec
requires old(self).ok(), old(self).iterations < usize::MAX,
ensures
    final(self).ok(), final(self).iterations == old(self).iterations + 1,
    final(self).start_temp == old(self).start_temp, final(self).duration == old(self).duration, final(self).update_rate == old(self).update_rate,
    // between two refreshes nothing changes
    old(self).iterations_since_update + 1 != old(self).update_rate ==>
        final(self).temp == old(self).temp && final(self).completed == old(self).completed && final(self).iterations_since_update == old(self).iterations_since_update + 1,
    // a refresh takes the temperature of the elapsed share of the duration and completes once it is used up
    old(self).iterations_since_update + 1 == old(self).update_rate ==> final(self).iterations_since_update == 0 &&
        exists|t: real| t >= 0real && final(self).temp@ == #[trigger] temp_at(final(self).start_temp@, t) && final(self).completed == (old(self).completed || t >= 1real),
@at start
let mut share: Ghost<real> = Ghost(0real);
@at after let t
proof { share@ = t@; }
@at exit
proof { lem_temp_forms(self.start_temp@, share@); if self.iterations_since_update == 0 { assert(self.temp@ == temp_at(self.start_temp@, share@)); } else { let t0 = choose|t: real| t >= 0real && old(self).temp@ == #[trigger] temp_at(old(self).start_temp@, t); assert(self.temp@ == temp_at(self.start_temp@, t0)); } }
@endfn
@fn src/solver/improvement/ruin_recreate/schedule.rs TimeSchedule@Acceptance::completed
@ret r
@spec
ensures r == self.completed,
@endfn
@fn src/solver/improvement/ruin_recreate/schedule.rs TimeSchedule@Acceptance::reset
@spec
requires old(self).ok(),
ensures final(self).ok(), final(self).fresh(), final(self).start_temp == old(self).start_temp, final(self).duration == old(self).duration, final(self).update_rate == old(self).update_rate,
@at exit
proof { lem_start(self.start_temp@); }
@endfn
@raw
impl AcceptanceCriterion {
    pub open spec fn ok(&self) -> bool { match self { AcceptanceCriterion::Iteration(s) => s.ok() && s.iteration < usize::MAX, AcceptanceCriterion::Time(s) => s.ok() && s.iterations < usize::MAX } }
    pub open spec fn cur_temp(&self) -> real { match self { AcceptanceCriterion::Iteration(s) => s.temp@, AcceptanceCriterion::Time(s) => s.temp@ } }
    pub open spec fn start(&self) -> real { match self { AcceptanceCriterion::Iteration(s) => s.start_temp@, AcceptanceCriterion::Time(s) => s.start_temp@ } }
}
@fn src/solver/improvement/ruin_recreate/schedule.rs AcceptanceCriterion@Acceptance::accept
@params new_cost old_cost random
@ret r
@subst < IterationSchedule as TemperatureAcceptance > :: accept ==> IterationSchedule::temperature_accept
@subst < TimeSchedule as TemperatureAcceptance > :: accept ==> TimeSchedule::temperature_accept
@spec
ensures decision(self.cur_temp(), new_cost@, old_cost@, r),
@endfn
@fn src/solver/improvement/ruin_recreate/schedule.rs AcceptanceCriterion@Acceptance::update
@spec
requires old(self).ok(),
ensures
    *old(self) matches AcceptanceCriterion::Iteration(s) ==> (*final(self) matches AcceptanceCriterion::Iteration(t) && t.ok() && t.iteration == s.iteration + 1 && t.temp@ < s.temp@ && t.total_iterations == s.total_iterations),
    *old(self) matches AcceptanceCriterion::Time(s) ==> (*final(self) matches AcceptanceCriterion::Time(t) && t.ok() && t.iterations == s.iterations + 1),
    final(self).start() == old(self).start(),
@endfn
@fn src/solver/improvement/ruin_recreate/schedule.rs AcceptanceCriterion@Acceptance::completed
@ret r
@spec
ensures r == match self { AcceptanceCriterion::Iteration(s) => s.iteration >= s.total_iterations, AcceptanceCriterion::Time(s) => s.completed },
@endfn
@fn src/solver/improvement/ruin_recreate/schedule.rs AcceptanceCriterion@Acceptance::reset
@spec
requires old(self).ok(),
ensures final(self).ok(), final(self).cur_temp() == old(self).start(), final(self).start() == old(self).start(),
    *final(self) matches AcceptanceCriterion::Iteration(t) ==> t.iteration == 0,
    *final(self) matches AcceptanceCriterion::Time(t) ==> t.fresh(),
@endfn
