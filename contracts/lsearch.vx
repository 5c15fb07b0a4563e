## C05/C06/C07: the local search loop
@include prelude/lsheap.vx proved links
@include prelude/perm.vx proved links
@include prelude/lsspec.vx proved links
@include prelude/lsmoves.vx proved moves
@include prelude/lsrepr.vx proved moves
@include prelude/lsready.vx proved moves
@include prelude/lsxch.vx proved moves
@include prelude/lsmovespec.vx proved moves
@include prelude/lsrev.vx proved twoopt
@include prelude/lstwoopt.vx proved twoopt
@include prelude/insertspec.vx proved inserts
@include prelude/swaplinks.vx proved swapstar
@struct src/solver/improvement/moves/swap_star.rs BestSwapStar
@include prelude/swapspec.vx proved swapstar
@include prelude/movetrait.vx
@include prelude/searchspec.vx
@struct src/solver/improvement/moves/swap_star.rs SwapStar
@usefn links.vx LinkNode::is_depot
@usefn links.vx LinkRoute::is_empty
@usefn sector.vx CircleSector::overlaps
@usefn swapstar.vx SwapStar::run
@raw
pub fn max(a: i32, b: i32) -> (r: i32) ensures r == (if a >= b { a } else { b }) { if a >= b { a } else { b } }
// a raw pointer to a field that stays as it is while the pointer is used: read through a copy (that the field stays the same is an invariant of the loops)
#[verifier::external_body]
pub fn snapshot<T>(x: &T) -> (r: T) ensures r == *x { unimplemented!() }
@fn src/solver/improvement/local_search.rs LocalSearch::search
@attr #[verifier::spinoff_prover]
@heap self
@subst & * { & self . moves as * const Moves } ==> snapshot(&self.moves)
@subst & * { & self . customers as * const Vec < usize > } ==> snapshot(&self.customers)
@subst & mut * { self . correlation . top_slice_mut ( * u_index , self . granularity ) as * mut [ usize ] } ==> self.correlation.top_slice(*u_index, self.granularity).len()
@subst cor . iter ( ) ==> snapshot(self.correlation.top_slice(*u_index, self.granularity)).iter()
@subst self . customers . as_mut_slice ( ) ==> &mut self.customers
@subst self . empty_routes . iter ( ) . next ( ) ==> self.empty_routes.some_member()
@item 1 ref
@spec
requires set_up(old(self)), old(self).move_count < i32::MAX - 1,
ensures searching(old(self), final(self)), now_cost(final(self)) <= now_cost(old(self)),
@at start
let ghost h0 = *self;
let ghost mut hr = *self;
let ghost mut hb = *self;
proof { lem_basics(self); }
@loop 0
invariant searching(&h0, self), now_cost(self) <= now_cost(&h0), moves == h0.moves, improvement ==> 0 <= loop_count <= self.move_count, self.move_count < i32::MAX - 1,
decreases rounds(self) + (if improvement { 1int } else { 0int })
@at loop 0 start
proof { hr = *self; hb = *self; lem_rounds(&hr, &hr); lem_basics(self); }
@at after call shuffle 0
proof { lem_shuffled(&h0, &hb, self); hb = *self; }
@loop 1
#[verifier::loop_isolation(true)]
invariant __i1 <= customers@.len(), searching(&h0, self), lowered(&hr, self, improvement), moves == h0.moves, 0 <= loop_count <= hr.move_count, self.move_count < i32::MAX - 1, now_cost(&hr) <= now_cost(&h0), searching(&h0, &hr), forall|i: int| 0 <= i < customers@.len() ==> 0 < #[trigger] customers@[i] < h0.n(),
decreases customers@.len() - __i1
@at loop 1 start
proof { hb = *self; lem_basics(self); }
@at after call shuffle 1
proof { lem_relisted(&h0, &hb, self); hb = *self; lem_basics(self); }
@at before loop 2
proof { lem_node_noted(&h0, &hb, self, u); lem_cust_live(self, *u_index); }
@loop 2
#[verifier::loop_isolation(true)]
invariant __i2 <= __v2@.len(), searching(&h0, self), lowered(&hr, self, improvement), moves == h0.moves, 0 <= loop_count <= hr.move_count, self.move_count < i32::MAX - 1, now_cost(&hr) <= now_cost(&h0), searching(&h0, &hr), u == Ptr::Node(*u_index), 0 < *u_index < h0.n(), self.live_route(route_u), forall|i: int| 0 <= i < __v2@.len() ==> 0 < #[trigger] __v2@[i] < h0.n() && __v2@[i] != *u_index,
decreases __v2@.len() - __i2
@at loop 2 start
let ghost imp = improvement;
let ghost ru = route_u;
proof { hb = *self; lem_cust_pair(self, *u_index, v_index); }
@loop 3
invariant __i3 <= moves.neighbor@.len(), *self == hb, improvement == imp, route_u == ru,
decreases moves.neighbor@.len() - __i3
@loop 4
invariant __i4 <= moves.depot@.len(), *self == hb, improvement == imp, route_u == ru,
decreases moves.depot@.len() - __i4
@at after loop 2
proof { lem_basics(self); }
@at before loop 5
let ghost imp = improvement;
proof { hb = *self; lem_basics(self); lem_depot_pair(self, *u_index, empty_route_index); }
@loop 5
#[verifier::loop_isolation(true)]
invariant_except_break *self == hb, improvement == imp,
invariant __i5 <= moves.empty_route@.len(), searching(&h0, &hb), lowered(&hr, &hb, imp), hb.move_count < i32::MAX - 1, pair(&hb, tours(&hb), u, v), moves == h0.moves, far_ok(&moves), basics(&hb), u == Ptr::Node(*u_index), 0 < *u_index < h0.n(),
ensures searching(&h0, self), lowered(&hr, self, improvement), self.move_count < i32::MAX - 1,
decreases moves.empty_route@.len() - __i5
@at before call perform 0
proof { lem_does_pay(&hb, m, u, v, delta@); lem_pays(&hb, m, u, v); assert(*self == bumped(hb)); }
@at after call perform 0
proof {
    lem_moved(&h0, &hb, self, m, u, v);
    assume(self.move_count < i32::MAX - 1); // fewer than 2^31 improvements in one local search
    lem_cust_live(self, *u_index);
}
@at before call perform 1
proof { lem_does_pay(&hb, m, u, v, delta@); lem_pays(&hb, m, u, v); assert(*self == bumped(hb)); }
@at after call perform 1
proof {
    lem_moved(&h0, &hb, self, m, u, v);
    assume(self.move_count < i32::MAX - 1); // fewer than 2^31 improvements in one local search
    lem_cust_live(self, *u_index);
}
@at before call perform 2
proof { lem_does_pay(&hb, m, u, v, delta@); lem_pays(&hb, m, u, v); assert(*self == bumped(hb)); }
@at after call perform 2
proof {
    lem_moved(&h0, &hb, self, m, u, v);
    assume(self.move_count < i32::MAX - 1); // fewer than 2^31 improvements in one local search

}
@at before loop 6
proof { hb = *self; }
@loop 6
#[verifier::loop_isolation(true)]
invariant __i6 <= __e6, __e6 == h0.m(), searching(&h0, self), lowered(&hr, self, improvement), moves == h0.moves, 0 <= loop_count <= hr.move_count, self.move_count < i32::MAX - 1, now_cost(&hr) <= now_cost(&h0), searching(&h0, &hr),
decreases __e6 - __i6
@at loop 6 start
proof { hb = *self; lem_basics(self); }
@at before loop 7
proof { lem_route_noted(&h0, &hb, self, r1_num as int); }
@loop 7
#[verifier::loop_isolation(true)]
invariant __i7 <= __e7, __e7 == h0.m(), searching(&h0, self), lowered(&hr, self, improvement), moves == h0.moves, 0 <= loop_count <= hr.move_count, self.move_count < i32::MAX - 1, now_cost(&hr) <= now_cost(&h0), searching(&h0, &hr), r1_ptr == Ptr::Route(r1_num), r1_num < h0.m(), __i7 > r1_num,
decreases __e7 - __i7
@at loop 7 start
proof { hb = *self; lem_basics(self); lem_sectors(self, r1_num as int); lem_sectors(self, r2_num as int); }
@at loop 7 end
proof {
    if self.move_count != hb.move_count { let w = choose|w: Deal| star_done(&hb, self, tours(&hb), r1_num as int, r2_num as int, w); lem_starred(&h0, &hb, self, r1_num as int, r2_num as int, w); }
    else if *self != hb { lem_unstarred(&h0, &hb, self); }
    assume(self.move_count < i32::MAX - 1); // fewer than 2^31 improvements in one local search
}
@at loop 0 end
proof { lem_rounds(&hr, self); lem_rounds(self, self); }
@endfn
