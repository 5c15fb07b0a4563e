## C05/C06/C07: building the local search
@include prelude/lsheap.vx proved links
@include prelude/perm.vx proved links
@include prelude/lsspec.vx proved links
@include prelude/lsmoves.vx proved moves
@include prelude/lsrepr.vx proved moves
@include prelude/lsready.vx proved moves
@include prelude/lsxch.vx proved moves
@include prelude/lsmovespec.vx proved moves
@include prelude/lsrev.vx proved twoopt
@include prelude/lstwoopt.vx proved twoopt
@include prelude/insertspec.vx proved inserts
@include prelude/swaplinks.vx proved swapstar
@struct src/solver/improvement/moves/swap_star.rs BestSwapStar
@include prelude/swapspec.vx proved swapstar
@include prelude/movetrait.vx proved lsearch
@include prelude/searchspec.vx proved lsearch
@include prelude/evalspec.vx proved evaluate
@include prelude/occ.vx proved lsload
@include prelude/flat.vx proved lsload
@include prelude/loadspec.vx proved lsload
@usefn inserts.vx ThreeBestInserts::new
@raw
#[verifier::external_body]
pub fn same_context(x: &Context) -> (r: Context) ensures r == *x { unimplemented!() }
// &mut v[i] as *mut LinkNode of the two depot vectors: says which vector and which index (the vectors have their capacity from the start, so they do not move while they are filled)
pub fn start_of(v: &Vec<LinkNode>, i: usize) -> (r: Ptr) requires i < v@.len() ensures r == Ptr::Start(i) { Ptr::Start(i) }
pub fn end_of(v: &Vec<LinkNode>, i: usize) -> (r: Ptr) requires i < v@.len() ensures r == Ptr::End(i) { Ptr::End(i) }
impl<T: Copy> Matrix<T> {
    // proved in unit `matrix`
    #[verifier::external_body]
    pub fn init(init: T, rows: usize, cols: usize) -> (m: Self)
        requires rows * cols <= 0x00ff_ffff_ffff_ffff,
        ensures m.ok(), m.rows == rows, m.cols == cols, forall|i: int, j: int| 0 <= i < rows && 0 <= j < cols ==> #[trigger] m.at(i, j) == init { unimplemented!() }
}
impl CorrelationMatrix { #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub fn PI_val() -> (r: R) ensures r@ == 3.14159265358979323846264338327950288real { r_lit(Ghost(3.14159265358979323846264338327950288real)) }
pub open spec fn starts_new(s: Seq<LinkNode>, k: int) -> bool { s.len() == k && forall|i: int| 0 <= i < k ==> (#[trigger] s[i]).number == 0 && s[i].angle == 0 && s[i].cum_distance@ == 0real && s[i].cum_load@ == 0real }
pub open spec fn ends_new(s: Seq<LinkNode>, k: int) -> bool { s.len() == k && forall|i: int| 0 <= i < k ==> (#[trigger] s[i]).number == 0 && s[i].angle == 0 && s[i].successor == Ptr::Null }
pub open spec fn routes_new(s: Seq<LinkRoute>, k: int) -> bool { s.len() == k && forall|i: int| 0 <= i < k ==> (#[trigger] s[i]).index == i && s[i].start_depot == Ptr::Start(i as usize) && s[i].end_depot == Ptr::End(i as usize) && s[i].sector.nil() }
pub proof fn lem_new(h: &LocalSearch)
    requires
        forall|i: int| 0 <= i < h.n() ==> (#[trigger] h.nodes@[i]).number == i && in_range(h.nodes@[i].angle as int),
        starts_new(h.start_depots@, h.m()), ends_new(h.end_depots@, h.m()), routes_new(h.routes@, h.m()),
    ensures h.nodes_ok(), h.routes_ok(), h.starts_ok(), ends_open(h)
{ reveal(LocalSearch::nodes_ok); reveal(LocalSearch::routes_ok); reveal(LocalSearch::starts_ok); reveal(ends_open);
    assert forall|p: Ptr| h.live(p) implies (#[trigger] h.nd(p)).number == num(p) && in_range(h.nd(p).angle as int) by { match p { Ptr::Node(i) => { assert(h.nodes@[i as int].number == i); }, Ptr::Start(i) => { assert(h.start_depots@[i as int].number == 0); }, Ptr::End(i) => { assert(h.end_depots@[i as int].number == 0); }, _ => {} } }
}
@fn src/models/circle_sector.rs CircleSector::new
@ret r
@spec
ensures r.nil(),
@endfn
@fn src/models/problem.rs Problem::get_angle
@subst std :: f64 :: consts :: PI ==> PI_val()
@params node
@ret r
@spec
requires node < self.nodes@.len(),
ensures in_range(r as int),
@endfn
@fn src/solver/improvement/linked_list.rs LinkNode::new
@ret r
@spec
ensures r.number == number, r.angle == angle, r.successor == Ptr::Null, r.predecessor == Ptr::Null, r.cum_distance@ == 0real, r.cum_load@ == 0real,
@endfn
@fn src/solver/improvement/linked_list.rs LinkRoute::new
@ret r
@spec
ensures r.index == index, r.start_depot == start_depot, r.end_depot == end_depot, r.sector.nil(), r.num_customers == 0,
@endfn
@fn src/solver/improvement/moves/mod.rs Moves::neighborhood_moves
@ret r: Vec<AnyMove>
@subst Box < dyn Move > ==> AnyMove
@subst Box :: new ( RelocateSingle ) ==> AnyMove::RelocateSingle(RelocateSingle {})
@subst Box :: new ( RelocateDouble ) ==> AnyMove::RelocateDouble(RelocateDouble {})
@subst Box :: new ( RelocateDoubleReverse ) ==> AnyMove::RelocateDoubleReverse(RelocateDoubleReverse {})
@subst Box :: new ( SwapOneWithOne ) ==> AnyMove::SwapOneWithOne(SwapOneWithOne {})
@subst Box :: new ( SwapTwoWithOne ) ==> AnyMove::SwapTwoWithOne(SwapTwoWithOne {})
@subst Box :: new ( SwapTwoWithTwo ) ==> AnyMove::SwapTwoWithTwo(SwapTwoWithTwo {})
@subst Box :: new ( TwoOptIntraReverse ) ==> AnyMove::TwoOptIntraReverse(TwoOptIntraReverse {})
@subst Box :: new ( TwoOptInterReverse ) ==> AnyMove::TwoOptInterReverse(TwoOptInterReverse {})
@subst Box :: new ( TwoOptInter ) ==> AnyMove::TwoOptInter(TwoOptInter {})
@endfn
@fn src/solver/improvement/moves/mod.rs Moves::depot_moves
@ret r: Vec<AnyMove>
@subst Box < dyn Move > ==> AnyMove
@subst Box :: new ( RelocateSingle ) ==> AnyMove::RelocateSingle(RelocateSingle {})
@subst Box :: new ( RelocateDouble ) ==> AnyMove::RelocateDouble(RelocateDouble {})
@subst Box :: new ( RelocateDoubleReverse ) ==> AnyMove::RelocateDoubleReverse(RelocateDoubleReverse {})
@subst Box :: new ( SwapOneWithOne ) ==> AnyMove::SwapOneWithOne(SwapOneWithOne {})
@subst Box :: new ( SwapTwoWithOne ) ==> AnyMove::SwapTwoWithOne(SwapTwoWithOne {})
@subst Box :: new ( SwapTwoWithTwo ) ==> AnyMove::SwapTwoWithTwo(SwapTwoWithTwo {})
@subst Box :: new ( TwoOptIntraReverse ) ==> AnyMove::TwoOptIntraReverse(TwoOptIntraReverse {})
@subst Box :: new ( TwoOptInterReverse ) ==> AnyMove::TwoOptInterReverse(TwoOptInterReverse {})
@subst Box :: new ( TwoOptInter ) ==> AnyMove::TwoOptInter(TwoOptInter {})
@endfn
@fn src/solver/improvement/moves/mod.rs Moves::empty_route_moves
@ret r: Vec<AnyMove>
@subst Box < dyn Move > ==> AnyMove
@subst Box :: new ( RelocateSingle ) ==> AnyMove::RelocateSingle(RelocateSingle {})
@subst Box :: new ( RelocateDouble ) ==> AnyMove::RelocateDouble(RelocateDouble {})
@subst Box :: new ( RelocateDoubleReverse ) ==> AnyMove::RelocateDoubleReverse(RelocateDoubleReverse {})
@subst Box :: new ( SwapOneWithOne ) ==> AnyMove::SwapOneWithOne(SwapOneWithOne {})
@subst Box :: new ( SwapTwoWithOne ) ==> AnyMove::SwapTwoWithOne(SwapTwoWithOne {})
@subst Box :: new ( SwapTwoWithTwo ) ==> AnyMove::SwapTwoWithTwo(SwapTwoWithTwo {})
@subst Box :: new ( TwoOptIntraReverse ) ==> AnyMove::TwoOptIntraReverse(TwoOptIntraReverse {})
@subst Box :: new ( TwoOptInterReverse ) ==> AnyMove::TwoOptInterReverse(TwoOptInterReverse {})
@subst Box :: new ( TwoOptInter ) ==> AnyMove::TwoOptInter(TwoOptInter {})
@spec
ensures forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).far(),
@endfn
@fn src/solver/improvement/moves/mod.rs Moves::new
@ret r
@spec
ensures far_ok(&r),
@endfn
@fn src/solver/improvement/local_search.rs LocalSearch::new
@heap heap
@params ctx penalty_multiplier
@ret r
@subst start_depots . get_unchecked_mut ( route_number ) as * mut LinkNode ==> start_of(&start_depots, route_number)
@subst end_depots . get_unchecked_mut ( route_number ) as * mut LinkNode ==> end_of(&end_depots, route_number)
@subst & * ( ctx as * const Context ) ==> same_context(ctx)
@spec
requires ctx.wf(), ctx.demand(0) == 0real, ctx.n() <= 0x7fff_ffff, ctx.config.local_search_granularity >= 1, ctx.config.num_vehicles <= 0x00ff_ffff,
    forall|i: int, j: int| 0 <= i < ctx.n() && 0 <= j < ctx.n() ==> #[trigger] ctx.d(i, j) == ctx.d(j, i),
ensures idle(&r), r.ctx == *ctx, r.m() == ctx.config.num_vehicles, r.penalty_capacity@ == ctx.pen() * penalty_multiplier@,
@item 0 LinkNode
@loop 0
invariant __i0 <= ctx.n(), __a0@.len() == __i0, forall|i: int| 0 <= i < __i0 ==> (#[trigger] __a0@[i]).number == i && in_range(__a0@[i].angle as int),
decreases ctx.n() - __i0
@item 1 usize
@loop 1
invariant 1 <= __i1, __e1 == ctx.n(), forall|i: int| 0 <= i < __a1@.len() ==> 0 < #[trigger] __a1@[i] < ctx.n(),
decreases __e1 - __i1
@at start
proof { assert(ctx.config.num_vehicles * ctx.n() <= 0x00ff_ffff * 0x7fff_ffff) by(nonlinear_arith) requires 0 <= ctx.config.num_vehicles <= 0x00ff_ffff, 0 <= ctx.n() <= 0x7fff_ffff; assert(ctx.n() * ctx.config.num_vehicles == ctx.config.num_vehicles * ctx.n()) by(nonlinear_arith); }
@loop 2
invariant __i2 <= __e2, starts_new(start_depots@, __i2 as int), ends_new(end_depots@, __i2 as int), routes_new(routes@, __i2 as int),
decreases __e2 - __i2
@at exit
proof { lem_new(&__tail); }
@endfn
