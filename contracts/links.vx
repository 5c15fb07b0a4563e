## C05/C06/C07: link operations and route updates of the local search
@include prelude/lsheap.vx
@include prelude/nomove.vx
@include prelude/perm.vx
@include prelude/lsspec.vx
@usefn sector.vx CircleSector::reset
@usefn sector.vx CircleSector::extend
@usefn evaluate.vx route_cost
@fn src/solver/improvement/linked_list.rs LinkNode::is_depot
@ret r
@spec
ensures r == (self.number == 0)
@endfn
@fn src/solver/improvement/linked_list.rs LinkRoute::is_empty
@ret r
@spec
ensures r == (self.num_customers == 0)
@endfn
@fn src/solver/improvement/linked_list.rs LinkNode::link_nodes
@heap heap
@params node_one node_two
@addparams heap: &mut LocalSearch
@spec
requires old(heap).live(node_one), old(heap).live(node_two),
ensures linked(*old(heap), *final(heap), node_one, node_two),
@endfn
@raw
// ---- update_route
#[verifier::opaque]
pub open spec fn links_kept(a: LocalSearch, b: LocalSearch) -> bool {
    forall|q: Ptr| a.live(q) ==> (#[trigger] b.nd(q)).successor == a.nd(q).successor && b.nd(q).predecessor == a.nd(q).predecessor && node_rest(a.nd(q), b.nd(q))
}
#[verifier::opaque]
pub open spec fn kept_from(a: LocalSearch, b: LocalSearch, s: Tour, k: int) -> bool {
    forall|q: Ptr| a.live(q) && (forall|i: int| 0 <= i < k ==> s[i] != q) ==> #[trigger] b.nd(q) == a.nd(q)
}
pub open spec fn routes_at(a: LocalSearch, b: LocalSearch, r: int) -> bool {
    (forall|q: int| 0 <= q < a.m() && q != r ==> #[trigger] b.routes@[q] == a.routes@[q])
    && b.routes@[r].index == a.routes@[r].index && b.routes@[r].start_depot == a.routes@[r].start_depot && b.routes@[r].end_depot == a.routes@[r].end_depot
    && b.routes@[r].last_tested_swap_star == a.routes@[r].last_tested_swap_star && (b.routes@[r].sector.nil() || b.routes@[r].sector.wf())
}
pub open spec fn at_step(a: LocalSearch, b: LocalSearch, r: int, s: Tour, k: int) -> bool {
    frame(a, b) && b.empty_routes == a.empty_routes && links_kept(a, b) && kept_from(a, b, s, k) && b.placed_to(r, s, k) && routes_at(a, b, r)
}
pub proof fn lem_first(a: LocalSearch, b: LocalSearch, r: int, s: Tour)
    requires a.shape(), a.chain(r, s), frame(a, b), b.empty_routes == a.empty_routes, routes_at(a, b, r),
        forall|q: Ptr| a.live(q) ==> #[trigger] b.nd(q) == (if q == s[0] { LinkNode { route: Ptr::Route(r as usize), position: 0, ..a.nd(q) } } else { a.nd(q) }),
    ensures at_step(a, b, r, s, 1), b.succ(s[0]) == s[1], plen(&a.ctx, s, 0) == 0real, pload(&a.ctx, s, 1) == 0real
{
    reveal(links_kept); reveal(kept_from); reveal(LocalSearch::placed_to); reveal(well_formed); reveal(LocalSearch::chained);
    reveal(LocalSearch::starts_ok);
    assert(b.nd(s[0]) == LinkNode { route: Ptr::Route(r as usize), position: 0, ..a.nd(s[0]) });
    assert(pload(&a.ctx, s, 1) == pload(&a.ctx, s, 0) + a.ctx.demand(num(s[0])));
    assert(a.succ(s[0]) == s[1]);
    assert(a.start_depots@[r].cum_load@ == 0real);
}
pub proof fn lem_step(a: LocalSearch, b: LocalSearch, c: LocalSearch, r: int, s: Tour, k: int)
    requires a.shape(), a.chain(r, s), 0 < k < s.len(), at_step(a, b, r, s, k), frame(a, c), c.empty_routes == a.empty_routes, routes_at(a, c, r),
        forall|q: Ptr| a.live(q) && q != s[k] ==> #[trigger] c.nd(q) == b.nd(q),
        c.nd(s[k]).successor == b.nd(s[k]).successor, c.nd(s[k]).predecessor == b.nd(s[k]).predecessor, node_rest(b.nd(s[k]), c.nd(s[k])),
        c.nd(s[k]).route == Ptr::Route(r as usize), c.nd(s[k]).position == k,
        c.nd(s[k]).cum_distance@ == plen(&a.ctx, s, k), c.nd(s[k]).cum_load@ == pload(&a.ctx, s, k + 1),
    ensures at_step(a, c, r, s, k + 1), c.succ(s[k]) == node_at(s, k + 1)
{
    lem_at(a, r, s, k);
    reveal(links_kept); reveal(kept_from); reveal(LocalSearch::placed_to); reveal(distinct);
    assert forall|i: int| 0 <= i < k + 1 implies c.nd(#[trigger] s[i]).route == Ptr::Route(r as usize) && c.nd(s[i]).position == i
            && c.nd(s[i]).cum_distance@ == plen(&c.ctx, s, i) && c.nd(s[i]).cum_load@ == pload(&c.ctx, s, i + 1) by {
        lem_at(a, r, s, i);
        if i < k { assert(s[i] != s[k]); }
    }
    assert(a.live(s[k]));
    assert(b.nd(s[k]).successor == a.nd(s[k]).successor);
}
pub proof fn lem_last(a: LocalSearch, b: LocalSearch, c: LocalSearch, r: int, s: Tour)
    requires a.shape(), a.chain(r, s), at_step(a, b, r, s, s.len() as int), frame(a, c), routes_at(a, c, r),
        forall|q: Ptr| a.live(q) ==> #[trigger] c.nd(q) == (LinkNode { predecessor: if q == s[0] { Ptr::Null } else { b.nd(q).predecessor }, successor: if q == s[s.len() - 1] { Ptr::Null } else { b.nd(q).successor }, ..b.nd(q) }),
        c.summed(r, s), c.routes@[r].last_modified == a.move_count,
        forall|q: usize| q != r ==> #[trigger] c.empty_routes@.contains(q) == a.empty_routes@.contains(q)
    ensures renewed(a, c, r, s)
{
    reveal(links_kept); reveal(kept_from); reveal(LocalSearch::placed_to);
    reveal(well_formed); reveal(LocalSearch::chained);
    lem_at(a, r, s, s.len() - 1);
    lem_at(a, r, s, 0);
    assert(same_links(a, c, r)) by {
        reveal(same_links);
        assert(b.nd(s[s.len() - 1]).successor == a.nd(s[s.len() - 1]).successor);
    }
    assert(others_kept(a, c, r, s)) by {
        reveal(others_kept);
        assert forall|q: Ptr| a.live(q) && !s.contains(q) implies #[trigger] c.nd(q) == a.nd(q) by {
            assert forall|i: int| 0 <= i < s.len() implies s[i] != q by { if s[i] == q { assert(s.contains(q)); } }
            assert(b.nd(q) == a.nd(q));
            assert(s.contains(s[0])); assert(s.contains(s[s.len() - 1]));
        }
    }
    assert(c.chained(s)) by {
        assert forall|i: int| 0 <= i < s.len() - 1 implies c.succ(#[trigger] s[i]) == s[i + 1] by { lem_at(a, r, s, i); assert(a.succ(s[i]) == s[i + 1]); assert(b.nd(s[i]).successor == a.nd(s[i]).successor); }
    }
    assert(c.placed(r, s)) by {
        assert forall|i: int| 0 <= i < s.len() implies c.nd(#[trigger] s[i]).route == Ptr::Route(r as usize) && c.nd(s[i]).position == i
            && c.nd(s[i]).cum_distance@ == plen(&c.ctx, s, i) && c.nd(s[i]).cum_load@ == pload(&c.ctx, s, i + 1) by { lem_at(a, r, s, i); assert(c.nd(s[i]).route == b.nd(s[i]).route); }
    }
    assert(c.nodes_ok()) by { reveal(LocalSearch::nodes_ok); assert forall|p: Ptr| c.live(p) implies (#[trigger] c.nd(p)).number == num(p) && in_range(c.nd(p).angle as int) by { assert(a.live(p)); assert(b.nd(p).number == a.nd(p).number); } }
    assert(c.routes_ok()) by { reveal(LocalSearch::routes_ok); assert forall|q: int| 0 <= q < c.m() implies (#[trigger] c.routes@[q]).index == q && c.routes@[q].start_depot == Ptr::Start(q as usize) && c.routes@[q].end_depot == Ptr::End(q as usize) && (c.routes@[q].sector.nil() || c.routes@[q].sector.wf()) by { assert(a.routes@[q].index == q); } }
    assert(c.starts_ok()) by { reveal(LocalSearch::starts_ok); assert forall|q: int| 0 <= q < c.m() implies (#[trigger] c.start_depots@[q]).cum_distance@ == 0real && c.start_depots@[q].cum_load@ == 0real by {
        let p = Ptr::Start(q as usize); assert(a.live(p)); assert(c.nd(p).cum_load == b.nd(p).cum_load); assert(a.start_depots@[q].cum_load@ == 0real);
        if q != r { assert forall|i: int| 0 <= i < s.len() implies s[i] != p by { lem_at(a, r, s, i); if 0 < i < s.len() - 1 { assert(customer(s[i], a.n())); } } assert(b.nd(p) == a.nd(p)); }
        else { assert(b.nd(s[0]).cum_load@ == pload(&b.ctx, s, 1)); assert(c.nd(p).cum_distance == b.nd(p).cum_distance); assert(pload(&b.ctx, s, 1) == pload(&b.ctx, s, 0) + a.ctx.demand(num(s[0]))); }
    } }
}
@fn src/solver/improvement/local_search.rs LocalSearch::update_route
@heap self
@params route_ptr
@spec
requires old(self).shape(), old(self).live_route(route_ptr), exists|s: Tour| old(self).chain(route_ptr->Route_0 as int, s),
ensures forall|s: Tour| old(self).chain(route_ptr->Route_0 as int, s) ==> #[trigger] renewed(*old(self), *final(self), route_ptr->Route_0 as int, s),
@at start
let ghost h0 = *self;
let ghost mut h9 = *self;
let ghost mut h8 = *self;
let ghost r = route_ptr->Route_0 as int;
let ghost s = choose|s: Tour| self.chain(r, s);
proof { reveal(well_formed); lem_tour_short(s, r, self.n()); reveal(LocalSearch::routes_ok); assert(self.routes@[r].index == r); lem_at(h0, r, s, 0); }
@at before loop 0
proof { lem_first(h0, *self, r, s); }
@loop 0
invariant h0.shape(), h0.chain(r, s), s.len() >= 2, s.len() <= h0.n() + 1, r == route_ptr->Route_0, h0.live_route(route_ptr),
    1 <= position <= s.len(), prev_node_ptr == s[position - 1], node_ptr == node_at(s, position as int), at_step(h0, *self, r, s, position as int),
    distance@ == plen(&h0.ctx, s, position - 1), load@ == pload(&h0.ctx, s, position as int), num_customers == (if position < s.len() { position - 1 } else { s.len() - 2 }), num_customers > 0 ==> self.routes@[r].sector.wf(),
decreases s.len() - position
@at loop 0 start
let ghost h1 = *self;
proof { lem_at(h0, r, s, position as int); lem_at(h0, r, s, position - 1); 
    reveal(links_kept); assert(self.nd(node_ptr).number == h0.nd(node_ptr).number); assert(self.nd(prev_node_ptr).number == h0.nd(prev_node_ptr).number); }
@at loop 0 end
proof { lem_step(h0, h1, *self, r, s, position - 1); }
@at after loop 0
proof { h9 = *self; }
@at before call insert
proof { h8 = *self; }
@at before call remove
proof { h8 = *self; }
@at exit
proof {
    lem_at(h0, r, s, 0); lem_at(h0, r, s, s.len() - 1); reveal(LocalSearch::routes_ok); assert(h0.routes@[r].index == r); assert(h9.routes@[r].index == r);
    assert(s[0] == Ptr::Start(r as usize)); assert(s[s.len() - 1] == Ptr::End(r as usize));
    assert forall|q: Ptr| h0.live(q) implies #[trigger] self.nd(q) == (LinkNode { predecessor: if q == s[0] { Ptr::Null } else { h9.nd(q).predecessor }, successor: if q == s[s.len() - 1] { Ptr::Null } else { h9.nd(q).successor }, ..h9.nd(q) }) by { assert(self.nodes@ == h8.nodes@ && self.start_depots@ == h8.start_depots@ && self.end_depots@ == h8.end_depots@); assert(self.nd(q) == h8.nd(q)); }
    assert forall|s2: Tour| h0.chain(r, s2) implies #[trigger] renewed(h0, *self, r, s2) by { lem_chain_unique(&h0, r, s, s2); lem_last(h0, h9, *self, r, s); }
}
@endfn
