@include data.vx
@raw
// Distance matrix seen through its contract (proved in unit `matrix`): a total function on [0,n)^2
pub struct DistanceMatrix { pub g: Ghost<(nat, spec_fn(int, int) -> real)> }
impl DistanceMatrix {
    pub open spec fn n(&self) -> nat { self.g@.0 }
    pub open spec fn d(&self, i: int, j: int) -> real { (self.g@.1)(i, j) }
    pub open spec fn get_spec(&self, i: usize, j: usize) -> R { mk(self.d(i as int, j as int)) }
    #[verifier::external_body]
    pub fn get(&self, row: usize, col: usize) -> (r: R)
        requires row < self.n(), col < self.n(),
        ensures r@ == self.d(row as int, col as int), r == mk(r@),
    { unimplemented!() }
}
// Neighbour lists seen through their contract (C17): customers only, never the node itself
pub struct CorrelationMatrix { pub g: Ghost<(nat, spec_fn(int) -> Seq<usize>)> }
impl CorrelationMatrix {
    pub open spec fn n(&self) -> nat { self.g@.0 }
    pub open spec fn list(&self, row: int) -> Seq<usize> { (self.g@.1)(row) }
    #[verifier::external_body]
    pub fn get(&self, row: usize) -> (r: &Vec<usize>)
        requires row < self.n(),
        ensures r@ == self.list(row as int), forall|i: int| 0 <= i < r@.len() ==> 0 < #[trigger] r@[i] < self.n() && r@[i] != row,
    { unimplemented!() }
}
impl CorrelationMatrix {
    #[verifier::external_body]
    pub fn top_slice(&self, row: usize, number: usize) -> (r: &Vec<usize>)
        requires row < self.n(),
        ensures r@.len() <= number, r@.is_prefix_of(self.list(row as int)), forall|i: int| 0 <= i < r@.len() ==> 0 < #[trigger] r@[i] < self.n() && r@[i] != row,
    { unimplemented!() }
    // the caller may only rearrange what it is given
    #[verifier::external_body]
    pub fn top_slice_mut(&mut self, row: usize, number: usize) -> (r: &mut Vec<usize>)
        requires row < old(self).n(),
        ensures r@.len() <= number, r@.is_prefix_of(old(self).list(row as int)), final(self).n() == old(self).n(),
    { unimplemented!() }
}
pub struct MatrixProvider { pub distance: DistanceMatrix, pub correlation: CorrelationMatrix }
// r was drawn from [lower, upper) by the generator: only `range_usize` yields it
pub uninterp spec fn drawn(lower: int, upper: int, r: int) -> bool;
pub struct Random { pub g: Ghost<int> }
impl Random {
    #[verifier::external_body]
    pub fn range_usize(&self, lower: usize, upper: usize) -> (r: usize)
        requires lower < upper,
        ensures lower <= r < upper, drawn(lower as int, upper as int, r as int),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn real(&self) -> (r: R) ensures 0real <= r@ < 1real { unimplemented!() }
    #[verifier::external_body]
    pub fn shuffle<T>(&self, v: &mut Vec<T>) ensures rearranged(old(v)@, final(v)@) { unimplemented!() }
}
pub struct Instant { pub g: Ghost<int> }
pub struct Duration { pub g: Ghost<real> }
impl Copy for Duration {}
impl Clone for Duration { #[verifier::external_body] fn clone(&self) -> (r: Duration) ensures r == *self { unimplemented!() } }
impl Instant { #[verifier::external_body] pub fn now() -> (r: Instant) { unimplemented!() } #[verifier::external_body] pub fn elapsed(&self) -> (r: Duration) { unimplemented!() } }
impl Duration {
    #[verifier::external_body] pub fn as_secs(&self) -> (r: u64) { unimplemented!() }
    pub open spec fn secs(&self) -> real { self.g@ }
    #[verifier::external_body] pub fn as_secs_f64(&self) -> (r: R) ensures r@ == self.secs(), r@ >= 0real { unimplemented!() }
    // panics for a negative number; the rounding to nanoseconds is left out
    #[verifier::external_body] pub fn from_secs_f64(x: R) -> (r: Duration) requires x@ >= 0real ensures r.secs() == x@ { unimplemented!() }
}
@struct src/solver/history.rs HistoricSolution
@struct src/solver/history.rs HistoryEntry
@struct src/solver/history.rs HistoryMessage
@struct src/solver/history.rs SearchHistory
@struct src/solver/context.rs Context
@raw
impl Context {
    // class invariant of Context: matrix dimension equals the number of nodes, at least the depot
    pub open spec fn wf(&self) -> bool {
        self.problem.nodes@.len() >= 1 && self.matrix_provider.distance.n() == self.problem.nodes@.len()
        && self.matrix_provider.correlation.n() == self.problem.nodes@.len()
    }
    pub open spec fn n(&self) -> int { self.problem.nodes@.len() as int }
    pub open spec fn d(&self, i: int, j: int) -> real { self.matrix_provider.distance.d(i, j) }
    pub open spec fn demand(&self, i: int) -> real { self.problem.nodes@[i].demand@ }
    pub open spec fn cap(&self) -> real { self.problem.vehicle.cap@ }
    pub open spec fn pen(&self) -> real { self.config.penalty_capacity@ }
}
@fn src/models/problem.rs Problem::dim
@ret r
@spec
ensures r == self.nodes@.len()
@endfn
