## The linked routes of the local search: raw pointers become values that say which vector and which index
@include base.vx
@include individual.vx
@include sectorspec.vx
@include hashset.vx
@raw
// what a raw pointer into LocalSearch points at. The vectors are never resized after construction, so no pointer dangles;
// every access below carries the obligation that the element exists.
pub enum Ptr { Null, Node(usize), Start(usize), End(usize), Route(usize) }
impl Copy for Ptr {}
impl Clone for Ptr { #[verifier::external_body] fn clone(&self) -> (r: Ptr) ensures r == *self { unimplemented!() } }
pub fn null_mut() -> (r: Ptr) ensures r == Ptr::Null { Ptr::Null }
impl Ptr { pub fn is_null(&self) -> (r: bool) ensures r == (*self == Ptr::Null) { match self { Ptr::Null => true, _ => false } } }
@struct src/solver/improvement/linked_list.rs LinkNode
@struct src/solver/improvement/linked_list.rs LinkRoute
@struct src/solver/improvement/preprocess.rs InsertLocation
@attr #[derive(Copy)]
@struct src/solver/improvement/preprocess.rs ThreeBestInserts
@attr #[derive(Copy)]
@raw
impl Clone for InsertLocation { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for ThreeBestInserts { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
// src/models/matrix.rs Matrix through its contract (proved in unit `matrix`): a table of rows x cols cells (g is its `table()`)
pub struct Matrix<T> { pub rows: usize, pub cols: usize, pub g: Ghost<Seq<Seq<T>>> }
impl<T: Copy> Matrix<T> {
    pub open spec fn at(&self, i: int, j: int) -> T { self.g@[i][j] }
    pub open spec fn ok(&self) -> bool { self.g@.len() == self.rows && forall|k: int| 0 <= k < self.rows ==> (#[trigger] self.g@[k]).len() == self.cols }
    #[verifier::external_body]
    pub fn get(&self, row: usize, col: usize) -> (r: &T)
        requires row < self.rows, col < self.cols,
        ensures *r == self.at(row as int, col as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, row: usize, col: usize) -> (r: &mut T)
        requires row < old(self).rows, col < old(self).cols,
        ensures *r == old(self).at(row as int, col as int), final(self).rows == old(self).rows, final(self).cols == old(self).cols,
            final(self).g@ == old(self).g@.update(row as int, old(self).g@[row as int].update(col as int, *final(r))) { unimplemented!() }
}
@struct src/solver/improvement/moves/mod.rs Moves
@field neighbor: Vec<AnyMove>
@field depot: Vec<AnyMove>
@field empty_route: Vec<AnyMove>
@struct src/solver/improvement/local_search.rs LocalSearch
@field empty_routes: HashSet<usize>
@raw
impl LocalSearch {
    pub open spec fn n(&self) -> int { self.nodes@.len() as int }
    pub open spec fn m(&self) -> int { self.routes@.len() as int }
    pub open spec fn live(&self, p: Ptr) -> bool {
        match p { Ptr::Node(i) => i < self.nodes@.len(), Ptr::Start(i) => i < self.start_depots@.len(), Ptr::End(i) => i < self.end_depots@.len(), _ => false }
    }
    pub open spec fn nd(&self, p: Ptr) -> LinkNode {
        match p { Ptr::Node(i) => self.nodes@[i as int], Ptr::Start(i) => self.start_depots@[i as int], Ptr::End(i) => self.end_depots@[i as int], _ => arbitrary() }
    }
    pub open spec fn live_route(&self, p: Ptr) -> bool { match p { Ptr::Route(i) => i < self.routes@.len(), _ => false } }
    pub open spec fn succ(&self, p: Ptr) -> Ptr { self.nd(p).successor }
    pub open spec fn pred(&self, p: Ptr) -> Ptr { self.nd(p).predecessor }
    pub fn node_ptr(&self, i: usize) -> (r: Ptr) requires i < self.nodes@.len() ensures r == Ptr::Node(i) { Ptr::Node(i) }
    pub fn start_ptr(&self, i: usize) -> (r: Ptr) requires i < self.start_depots@.len() ensures r == Ptr::Start(i) { Ptr::Start(i) }
    pub fn end_ptr(&self, i: usize) -> (r: Ptr) requires i < self.end_depots@.len() ensures r == Ptr::End(i) { Ptr::End(i) }
    pub fn route_ptr(&self, i: usize) -> (r: Ptr) requires i < self.routes@.len() ensures r == Ptr::Route(i) { Ptr::Route(i) }
    pub fn node(&self, p: Ptr) -> (r: &LinkNode) requires self.live(p) ensures *r == self.nd(p)
    { match p { Ptr::Node(i) => &self.nodes[i], Ptr::Start(i) => &self.start_depots[i], Ptr::End(i) => &self.end_depots[i], _ => rt_panic() } }
    pub fn route(&self, p: Ptr) -> (r: &LinkRoute) requires self.live_route(p) ensures *r == self.routes@[p->Route_0 as int]
    { match p { Ptr::Route(i) => &self.routes[i], _ => rt_panic() } }
    pub fn node_mut(&mut self, p: Ptr) -> (r: &mut LinkNode)
        requires old(self).live(p)
        ensures *r == old(self).nd(p), same_but_nodes(*old(self), *final(self)), final(self).routes@ == old(self).routes@,
            forall|q: Ptr| old(self).live(q) ==> #[trigger] final(self).nd(q) == (if q == p { *final(r) } else { old(self).nd(q) })
    { match p { Ptr::Node(i) => &mut self.nodes[i], Ptr::Start(i) => &mut self.start_depots[i], Ptr::End(i) => &mut self.end_depots[i], _ => rt_panic() } }
    pub fn route_mut(&mut self, p: Ptr) -> (r: &mut LinkRoute)
        requires old(self).live_route(p)
        ensures *r == old(self).routes@[p->Route_0 as int], same_but_nodes(*old(self), *final(self)),
            final(self).nodes@ == old(self).nodes@, final(self).start_depots@ == old(self).start_depots@, final(self).end_depots@ == old(self).end_depots@,
            final(self).routes@ == old(self).routes@.update(p->Route_0 as int, *final(r)),
            forall|q: Ptr| #[trigger] final(self).nd(q) == old(self).nd(q)
    { match p { Ptr::Route(i) => &mut self.routes[i], _ => rt_panic() } }
}
// everything except the contents of nodes, depots and routes
pub open spec fn same_but_nodes(a: LocalSearch, b: LocalSearch) -> bool {
    b.ctx == a.ctx && b.customers == a.customers && b.correlation == a.correlation && b.granularity == a.granularity && b.move_count == a.move_count
    && b.moves == a.moves && b.best_inserts == a.best_inserts && b.empty_routes == a.empty_routes && b.penalty_capacity == a.penalty_capacity
    && b.nodes@.len() == a.nodes@.len() && b.start_depots@.len() == a.start_depots@.len() && b.end_depots@.len() == a.end_depots@.len() && b.routes@.len() == a.routes@.len()
}
