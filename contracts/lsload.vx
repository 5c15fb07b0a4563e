## C05/C06/C07: loading and storing an individual around the local search
@include prelude/lsheap.vx proved links
@include prelude/perm.vx proved links
@include prelude/lsspec.vx proved links
@include prelude/lsmoves.vx proved moves
@include prelude/lsrepr.vx proved moves
@include prelude/lsready.vx proved moves
@include prelude/lsxch.vx proved moves
@include prelude/lsmovespec.vx proved moves
@include prelude/lsrev.vx proved twoopt
@include prelude/lstwoopt.vx proved twoopt
@include prelude/insertspec.vx proved inserts
@include prelude/swaplinks.vx proved swapstar
@struct src/solver/improvement/moves/swap_star.rs BestSwapStar
@include prelude/swapspec.vx proved swapstar
@include prelude/movetrait.vx proved lsearch
@include prelude/searchspec.vx proved lsearch
@include prelude/evalspec.vx proved evaluate
@include prelude/sort.vx
@include prelude/occ.vx
@include prelude/flat.vx
@include prelude/loadspec.vx
@usefn links.vx LinkNode::is_depot
@usefn links.vx LinkNode::link_nodes
@usefn links.vx LocalSearch::update_route
@usefn inserts.vx ThreeBestInserts::reset
@usefn individual.vx Individual::sort_routes
@usefn evaluate.vx Individual::evaluate
@usefn lsearch.vx LocalSearch::search
@raw
#[verifier::external_body]
pub fn same_context(x: &Context) -> (r: Context) ensures r == *x { unimplemented!() }
@fn src/solver/improvement/local_search.rs LocalSearch::load_individual
@attr #[verifier::spinoff_prover]
@heap self
@passargs link_nodes self
@params individual
@spec
requires idle(old(self)), old(self).move_count == 0, complete(old(self).n(), individual.phenotype@), individual.phenotype@.len() == old(self).m(),
ensures same_frame(*old(self), *final(self)), empties_in(final(self)), repr(final(self), tours_of(individual.phenotype@)), entries_ok(final(self), tours_of(individual.phenotype@)),
@at start
let ghost h0 = *self; let ghost p0 = individual.phenotype@; let ghost t = tours_of(p0);
let ghost mut ha = *self; let ghost mut hb = *self; let ghost mut hc = *self;
proof {
    assert(h0.m() == h0.routes.len());
    assert(held_to(&h0, t, 0)) by { reveal(held_to); }
    assert(stale_to(&h0, 0)) by { reveal(stale_to); }
}
@loop 0
#[verifier::loop_isolation(true)]
invariant __i0 <= p0.len(), p0 == individual.phenotype@, t == tours_of(p0), p0.len() == h0.m(), h0.m() <= usize::MAX, complete(h0.n(), p0), loading(&h0, self, t, __i0 as int),
decreases p0.len() - __i0
@at loop 0 start
let ghost s = t[__i0 - 1];
proof { ha = *self; assert(s == tour_of(__i0 - 1, p0[__i0 - 1]@)); lem_tour_of(h0.n(), p0, __i0 - 1); lem_live_tour(&ha, __i0 - 1, s); lem_lay0(ha, s); lem_complete(h0.n(), p0); }
@loop 1
#[verifier::loop_isolation(true)]
invariant __i1 <= route@.len(), route@ == p0[__c0 as int]@, __c0 < p0.len(), s == tour_of(__c0 as int, p0[__c0 as int]@), laying(ha, *self, s, __i1 as int), prev_node == s[__i1 as int],
    well_formed(s, __c0 as int, ha.n()), distinct(s), forall|i: int| 0 <= i < s.len() ==> ha.live(#[trigger] s[i]), forall|i: int| 0 <= i < route@.len() ==> 0 < #[trigger] route@[i] < ha.n(),
decreases route@.len() - __i1
@at loop 1 start
proof { hb = *self; assert(s[__i1 as int] == Ptr::Node(route@[__i1 - 1])); assert(ha.live(s[__i1 - 1])); }
@at loop 1 end
proof { lem_lay(ha, hb, *self, __c0 as int, s, __i1 - 1); }
@at after loop 1
proof { hb = *self; assert(s[s.len() - 1] == Ptr::End(__c0)); assert(ha.live(s[s.len() - 2])); }
@at after call link_nodes 1
proof { lem_lay(ha, hb, *self, __c0 as int, s, s.len() - 2); hc = *self; lem_laid(ha, hc, __c0 as int, s); assert(self.m() == self.routes.len()); }
@at before loop 2
proof {
    assert(route == Ptr::Route(__c0));
    assert(self.routes@ =~= hc.routes@.update(__c0 as int, LinkRoute { last_tested_swap_star: self.routes@[__c0 as int].last_tested_swap_star, ..hc.routes@[__c0 as int] }));
    assert(entries_reset(hc, *self, __c0 as int, 0)) by { reveal(entries_reset); }
}
@loop 2
#[verifier::loop_isolation(true)]
invariant __i2 <= __e2, __e2 == hc.n(), hc.best_inserts.ok() && hc.best_inserts.rows == hc.m() && hc.best_inserts.cols == hc.n(), renoted(hc, *self, __c0 as int, __i2 as int), route_index == __c0, __c0 < hc.m(),
decreases __e2 - __i2
@at loop 2 start
proof { hb = *self; }
@at loop 2 end
proof { lem_reset_one(hc, hb, *self, __c0 as int, __i2 - 1); }
@at before call update_route
let ghost hd = *self;
proof { lem_renoted(hc, hd, __c0 as int, s, hc.n()); }
@at loop 0 end
proof { lem_loaded(h0, ha, hc, hd, *self, h0.n(), p0, __c0 as int); }
@at exit
proof { lem_all_loaded(h0, *self, h0.n(), p0); }
@endfn
@fn src/solver/improvement/local_search.rs LocalSearch::update_individual
@heap self
@params individual
@subst sort_routes ( self . ctx ) ==> sort_routes(&self.ctx)
@subst evaluate ( self . ctx ) ==> evaluate(&self.ctx)
@spec
requires valid(self), old(individual).phenotype@.len() == self.m(),
ensures described(&self.ctx, final(individual)), final(individual).phenotype@.len() == self.m(), search_cost(&self.ctx, self.penalty_capacity@, final(individual).phenotype@) == cost_of(self, tours(self)),
    final(individual).number == old(individual).number, final(individual).fitness == old(individual).fitness,
@at start
let ghost t = tours(self);
let ghost mut zk: int = 0;
let ghost i0 = *individual;
@loop 0
#[verifier::loop_isolation(true)]
invariant __i0 <= self.routes@.len(), repr(self, t), t.len() == self.m(), individual.phenotype@.len() == self.m(), individual.genotype@ == flat(individual.phenotype@, __i0 as int),
    forall|r: int| 0 <= r < __i0 ==> (#[trigger] individual.phenotype@[r])@ == list_of(t[r]), individual.number == i0.number, individual.fitness == i0.fitness,
decreases self.routes@.len() - __i0
@at loop 0 start
let ghost s = t[__i0 - 1];
let ghost p1 = individual.phenotype@;
proof { zk = 0; lem_route(self, t, __i0 - 1); lem_pos(self, t, __i0 - 1, 0); }
@loop 1
invariant 0 <= zk <= s.len(), next_node == node_at(s, zk), phenotype_nodes@ == list_of(s).take(if zk <= 1 { 0 } else if zk - 1 <= s.len() - 2 { zk - 1 } else { s.len() - 2 }),
decreases s.len() - zk
@at loop 1 start
proof { lem_pos(self, t, __i0 - 1, zk); zk = zk + 1; }
@at loop 1 end
proof { if 1 < zk && zk - 1 <= s.len() - 2 { assert(list_of(s).take(zk - 1) =~= list_of(s).take(zk - 2).push(list_of(s)[zk - 2])); } }
@at after loop 1
proof { if zk < s.len() { lem_pos(self, t, __i0 - 1, zk); } lem_is_customer(s, __i0 - 1, self.n(), 0); assert(list_of(s).take(s.len() - 2) =~= list_of(s)); }
@at loop 0 end
proof { lem_flat_frame(p1, individual.phenotype@, __i0 - 1); }
@at before call sort_routes
let ghost p2 = individual.phenotype@;
proof { lem_lists(self, t, p2); lem_flat_len(p2, p2.len() as int); }
@at before call evaluate
proof {
    let p3 = individual.phenotype@;
    lem_same_complete(self.n(), p2, p3); lem_flat_len(p3, p3.len() as int); lem_complete(self.n(), p3);
    assert(individual.genotype@ =~= flat_all(p3));
    let q = choose|q: Seq<int>| lists_by(p2, p3, q);
    lem_pen_lists(&self.ctx, self.penalty_capacity@, p2, p3, q);
    lem_spelled_cost(&self.ctx, self.penalty_capacity@, t, p2, t.len() as int);
}
@endfn
@fn src/solver/improvement/local_search.rs LocalSearch::update_penalty
@params penalty_multiplier
@spec
ensures *final(self) == (LocalSearch { penalty_capacity: final(self).penalty_capacity, ..*old(self) }), final(self).penalty_capacity@ == old(self).ctx.pen() * penalty_multiplier@,
@endfn
@fn src/solver/improvement/local_search.rs LocalSearch::reset
@heap self
@spec
ensures *final(self) == (LocalSearch { move_count: 0, nodes: final(self).nodes, ..*old(self) }), final(self).nodes@.len() == old(self).nodes@.len(),
    forall|i: int| 0 <= i < old(self).nodes@.len() ==> #[trigger] final(self).nodes@[i] == (LinkNode { last_tested: -1i32, ..old(self).nodes@[i] }),
@at start
let ghost h0 = *self;
@loop 0
invariant __i0 <= self.nodes@.len(), *self == (LocalSearch { move_count: 0, nodes: self.nodes, ..h0 }), self.nodes@.len() == h0.nodes@.len(),
    forall|i: int| 0 <= i < __i0 ==> #[trigger] self.nodes@[i] == (LinkNode { last_tested: -1i32, ..h0.nodes@[i] }), forall|i: int| __i0 <= i < h0.nodes@.len() ==> #[trigger] self.nodes@[i] == h0.nodes@[i],
decreases self.nodes@.len() - __i0
@endfn
@fn src/solver/improvement/local_search.rs LocalSearch::run
@heap self
@subst & * ( ctx as * const Context ) ==> same_context(ctx)
@params ctx individual penalty_multiplier
@spec
requires idle(&(LocalSearch { ctx: *ctx, ..*old(self) })), detours_finite(ctx), ctx.pen() * penalty_multiplier@ >= 0real, forall|i: int, j: int| 0 <= i < ctx.n() && 0 <= j < ctx.n() ==> #[trigger] ctx.d(i, j) >= 0real,
    complete(ctx.n(), old(individual).phenotype@), old(individual).phenotype@.len() == old(self).m(),
ensures idle(final(self)), final(self).ctx == *ctx, final(self).m() == old(self).m(), final(self).penalty_capacity@ == ctx.pen() * penalty_multiplier@,
    // the result visits every customer once, uses as many routes, and is described by its giant tour and evaluation
    described(ctx, final(individual)), final(individual).phenotype@.len() == old(individual).phenotype@.len(), final(individual).number == old(individual).number,
    // and is no dearer under the penalty of the search
    search_cost(ctx, ctx.pen() * penalty_multiplier@, final(individual).phenotype@) <= search_cost(ctx, ctx.pen() * penalty_multiplier@, old(individual).phenotype@),
@at start
let ghost h0 = LocalSearch { ctx: *ctx, ..*self };
let ghost p0 = individual.phenotype@;
let ghost pen = ctx.pen() * penalty_multiplier@;
@at before call load_individual
proof { lem_wiped(&h0, self); }
@at after call load_individual
proof {
    lem_repr_unique(self, tours_of(p0));
    lem_spells(p0);
    lem_spelled_cost(ctx, pen, tours_of(p0), p0, p0.len() as int);
    reveal(set_up); reveal(now_cost);
}
@at after call search
proof { lem_settled(self); reveal(set_up); reveal(now_cost); }
@endfn
