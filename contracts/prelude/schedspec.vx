@const src/solver/improvement/ruin_recreate/schedule.rs COOLING_FACTOR
@const src/solver/improvement/ruin_recreate/schedule.rs MIN_VALUE
@struct src/solver/improvement/ruin_recreate/schedule.rs IterationSchedule
@struct src/solver/improvement/ruin_recreate/schedule.rs TimeSchedule
@struct src/solver/improvement/ruin_recreate/schedule.rs AcceptanceCriterion
@raw
// trusted facts about the exponential and the logarithm
pub mod ax { use super::*; use vstd::prelude::*;
verus! {
pub axiom fn exp_zero() ensures exp_spec(0real) == 1real;
pub axiom fn exp_mono(a: real, b: real) ensures a < b ==> exp_spec(a) < exp_spec(b), exp_spec(a) > 0real;
pub axiom fn exp_m2() ensures rabs(exp_spec(-2real) - 0.1353352832366127real) < 0.000000000000001real;
pub axiom fn ln_neg(u: real) requires 0real <= u < 1real ensures ln_spec(u) <= 0real;
} }
// temperature when the share t of the schedule is used
pub open spec fn temp_at(start: real, t: real) -> real { (exp_spec(t * (-COOLING_FACTOR_spec())) - t * MIN_VALUE_spec()) * start }
pub open spec fn progress(k: int, total: int) -> real { (k as real) / (total as real) }
pub proof fn lem_temp_forms(start: real, t: real)
    ensures t * (-COOLING_FACTOR_spec()) == (-COOLING_FACTOR_spec()) * t, t * (-COOLING_FACTOR_spec()) == -(COOLING_FACTOR_spec() * t), t * (-COOLING_FACTOR_spec()) == -(t * COOLING_FACTOR_spec()), t * (-COOLING_FACTOR_spec()) == (-t) * COOLING_FACTOR_spec(),
        t * (-COOLING_FACTOR_spec()) == -2real * t,
        t * MIN_VALUE_spec() == MIN_VALUE_spec() * t,
        temp_at(start, t) == start * (exp_spec(t * (-COOLING_FACTOR_spec())) - t * MIN_VALUE_spec()),
        temp_at(start, t) == start * exp_spec(t * (-COOLING_FACTOR_spec())) - start * (t * MIN_VALUE_spec()),
{
    let e = exp_spec(t * (-COOLING_FACTOR_spec())); let m = t * MIN_VALUE_spec(); let c = COOLING_FACTOR_spec();
    assert(t * (-c) == (-c) * t && t * (-c) == -(c * t) && t * (-c) == -(t * c) && t * (-c) == (-t) * c) by (nonlinear_arith);
    assert(m == MIN_VALUE_spec() * t) by (nonlinear_arith) requires m == t * MIN_VALUE_spec();
    assert((e - m) * start == start * (e - m)) by (nonlinear_arith);
    assert((e - m) * start == start * e - start * m) by (nonlinear_arith);
}
pub proof fn lem_decreasing(start: real, s: real, t: real)
    requires start > 0real, s < t
    ensures temp_at(start, t) < temp_at(start, s)
{
    ax::exp_mono(t * (-COOLING_FACTOR_spec()), s * (-COOLING_FACTOR_spec()));
    let a = exp_spec(t * (-COOLING_FACTOR_spec())) - t * MIN_VALUE_spec(); let b = exp_spec(s * (-COOLING_FACTOR_spec())) - s * MIN_VALUE_spec();
    let c = COOLING_FACTOR_spec(); let m = MIN_VALUE_spec();
    assert(t * (-c) < s * (-c)) by (nonlinear_arith) requires s < t, c > 0real;
    assert(t * m > s * m) by (nonlinear_arith) requires s < t, m > 0real;
    assert(a < b);
    assert(a * start < b * start) by (nonlinear_arith) requires a < b, start > 0real;
}
pub proof fn lem_start(start: real)
    ensures temp_at(start, 0real) == start
{ ax::exp_zero(); assert(0real * (-COOLING_FACTOR_spec()) == 0real); assert((1real - 0real) * start == start); assert(0real * MIN_VALUE_spec() == 0real); }
pub proof fn lem_end(start: real)
    requires start > 0real
    ensures rabs(temp_at(start, 1real)) <= start * 0.000000000000001real
{
    ax::exp_m2();
    assert(1real * (-COOLING_FACTOR_spec()) == -2real);
    let a = exp_spec(-2real) - 1real * MIN_VALUE_spec();
    assert(rabs(a) < 0.000000000000001real);
    assert(a * start <= 0.000000000000001real * start && a * start >= -0.000000000000001real * start) by (nonlinear_arith) requires -0.000000000000001real < a < 0.000000000000001real, start > 0real;
}
pub proof fn lem_progress(k: int, total: int)
    requires total > 0
    ensures progress(0, total) == 0real, progress(total, total) == 1real, progress(k, total) < progress(k + 1, total)
{
    let t = total as real;
    assert(0real / t == 0real && t / t == 1real) by (nonlinear_arith) requires t > 0real;
    assert((k as real) / t < ((k as real) + 1real) / t) by (nonlinear_arith) requires t > 0real;
    assert((k + 1) as real == (k as real) + 1real);
}
impl IterationSchedule {
    pub open spec fn ok(&self) -> bool { self.start_temp@ > 0real && self.total_iterations > 0 && self.temp@ == temp_at(self.start_temp@, progress(self.iteration as int, self.total_iterations as int)) }
}
impl TimeSchedule {
    pub open spec fn ok(&self) -> bool { self.start_temp@ > 0real && self.duration@ > 0real && (exists|t: real| t >= 0real && self.temp@ == #[trigger] temp_at(self.start_temp@, t))
        && self.iterations_since_update <= self.iterations }
    pub open spec fn fresh(&self) -> bool { self.temp == self.start_temp && !self.completed && self.iterations == 0 && self.iterations_since_update == 0 }
}
// metropolis rule with a number u drawn from [0,1)
pub open spec fn accepts(temp: real, new_cost: real, old_cost: real, u: real) -> bool { new_cost < old_cost - temp * ln_spec(u) - EPSILON_spec() }
pub open spec fn decision(temp: real, new_cost: real, old_cost: real, r: bool) -> bool {
    &&& exists|u: real| 0real <= u < 1real && r == #[trigger] accepts(temp, new_cost, old_cost, u)
    &&& temp >= 0real && new_cost < old_cost - EPSILON_spec() ==> r
    &&& temp == 0real && new_cost >= old_cost ==> !r
}
pub proof fn lem_decision(temp: real, new_cost: real, old_cost: real, u: real)
    requires 0real <= u < 1real
    ensures decision(temp, new_cost, old_cost, accepts(temp, new_cost, old_cost, u))
{
    ax::ln_neg(u);
    let l = ln_spec(u);
    if temp >= 0real { assert(temp * l <= 0real) by (nonlinear_arith) requires temp >= 0real, l <= 0real; }
    if temp == 0real { assert(temp * l == 0real) by (nonlinear_arith) requires temp == 0real; }
}
