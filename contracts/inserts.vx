## C07: the three cheapest insertion places
@include prelude/lsheap.vx proved links
@include prelude/nomove.vx
@include prelude/perm.vx proved links
@include prelude/lsspec.vx proved links
@include prelude/lsmoves.vx
@include prelude/lsrepr.vx
@usefn links.vx LinkNode::is_depot
@include prelude/insertspec.vx
@fn src/solver/improvement/preprocess.rs InsertLocation::new
@ret r
@spec
ensures r.node == Ptr::Null, r.cost@ == inf_spec(),
@endfn
@fn src/solver/improvement/preprocess.rs InsertLocation::reset
@spec
ensures final(self).node == Ptr::Null, final(self).cost@ == inf_spec(),
@endfn
@fn src/solver/improvement/preprocess.rs ThreeBestInserts::new
@ret r
@spec
ensures wiped(r), best3(r, Seq::empty()),
@at exit
proof { lem_best_none(__tail); }
@endfn
@fn src/solver/improvement/preprocess.rs ThreeBestInserts::reset
@spec
ensures wiped(*final(self)), best3(*final(self), Seq::empty()), final(self).last_calculated == old(self).last_calculated,
@loop 0
invariant __i0 <= 3, self.last_calculated == old(self).last_calculated, forall|i: int| 0 <= i < __i0 ==> (#[trigger] self.locations@[i]).node == Ptr::Null && self.locations@[i].cost@ == inf_spec(),
decreases 3 - __i0
@at exit
proof { lem_best_none(*self); }
@endfn
@fn src/solver/improvement/preprocess.rs ThreeBestInserts::add
@params loc
@addparams Ghost(lst): Ghost<Seq<Place>>
@spec
requires best3(*old(self), lst),
ensures loc.cost@ < inf_spec() ==> best3(*final(self), lst.push(place_of(loc))), final(self).last_calculated == old(self).last_calculated,
@at start
let ghost b0 = *self;
proof { let q = choose|q: Seq<int>| picks(b0, lst, q); assert(picks(b0, lst, q)); }
@at return
proof { if loc.cost@ < inf_spec() { lem_best_more(b0, *self, lst, place_of(loc)); } }
@at exit
proof { if loc.cost@ < inf_spec() { lem_best_more(b0, *self, lst, place_of(loc)); } }
@endfn
@fn src/solver/improvement/local_search.rs LocalSearch::preprocess_insertions
@attr #[verifier::spinoff_prover]
@heap self
@params r1 r2
@passargs add Ghost(places(&h0.ctx, s2, c, j))
@spec
requires valid(old(self)), entries_ok(old(self), tours(old(self))), detours_finite(&old(self).ctx), old(self).live_route(r1), old(self).live_route(r2), r1 != r2,
ensures prepared(old(self), final(self), tours(old(self)), ix(r1), ix(r2), tours(old(self))[ix(r1)].len() - 1), entries_ok(final(self), tours(old(self))), repr(final(self), tours(old(self))), tours(final(self)) == tours(old(self)),
@at start
let ghost n1 = ix(r1);
let ghost n2 = ix(r2);
let ghost h0 = *self;
let ghost t = tours(&h0);
let ghost s1 = t[n1];
let ghost s2 = t[n2];
let ghost mut k = 1int;
let ghost mut j = 1int;
let ghost mut c = 0int;
let ghost mut hb = h0;
let ghost mut hd = h0;
let ghost mut hr = h0;
let ghost mut filled = false;
proof { lem_route(&h0, t, n1); lem_route(&h0, t, n2); lem_pos(&h0, t, n1, 0); lem_pos(&h0, t, n2, 0); lem_prep_none(&h0, t, n1, n2); lem_pos(self, t, n1, 1); }
@loop 0
invariant repr(&h0, t), repr(self, t), 1 <= k < s1.len(), u_ptr == s1[k], pos_facts(self, t, n1, k), prepared(&h0, self, t, n1, n2, k), route_facts(&h0, t, n2), s2.len() >= 2,
decreases s1.len() - k
@at loop 0 start
proof { hb = *self; filled = false; c = num(s1[k]); lem_pos(&h0, t, n1, k); assert(k < s1.len() - 1); lem_pos(&h0, t, n2, 1); lem_route(&h0, t, n2); lem_pos(&h0, t, n1, k - 1); lem_pos(&h0, t, n1, k + 1); lem_prep_quiet(&h0, self, t, n1, n2, k); lem_pos(self, t, n1, k); lem_pos(self, t, n1, k - 1); lem_pos(self, t, n1, k + 1); lem_prep_entry(&h0, self, t, n1, n2, k); }
@at loop 0 end
proof { if !filled { hd = *self; assert(noted_nodes(&hb, self, s1[k])) by { reveal(noted_nodes); } lem_noted_quiet(&hb, &hd, t, s1[k]); lem_entry_self(&hd, n2, c); } lem_prep_step(&h0, &hb, &hd, self, t, n1, n2, k); k = k + 1; lem_prep_quiet(&h0, self, t, n1, n2, k); lem_pos(self, t, n1, k); }
@at before call reset
proof { hd = *self; filled = true; j = 0int; assert(noted_nodes(&hb, self, s1[k])) by { reveal(noted_nodes); } lem_noted_quiet(&hb, self, t, s1[k]); lem_pos(self, t, n2, 0); lem_pos(self, t, n2, 1); lem_pos(self, t, n1, k); lem_places_next(&h0.ctx, s2, c, 0); }
@at after call reset
proof { hr = *self; lem_entry_self(&hd, n2, c); lem_fill(&hd, &hd, self, t, n2, c); }
@at before call add
let ghost ha = *self;
proof { if j == 0 { lem_best_none(bi(self, n2, c)); lem_fill(&hd, &hr, self, t, n2, c); } lem_prep_at(&h0, &hd, self, t, n2, j, c); }
@at after call add
proof { lem_fill(&hd, &ha, self, t, n2, c); lem_places_next(&h0.ctx, s2, c, j); j = j + 1; }
@loop 1
invariant 1 <= j < s2.len(), v_ptr == s2[j], pos_facts(self, t, n2, j), repr(&hd, t), entry_only(&hd, self, n2, c), pos_facts(self, t, n1, k), best3(bi(self, n2, c), places(&h0.ctx, s2, c, j)), bi(self, n2, c).last_calculated == h0.move_count, 0 < c < h0.n(), s1[k] == Ptr::Node(c as usize),
decreases s2.len() - j
@at loop 1 start
proof { lem_entry_quiet(&hd, self, t, n2, c); lem_pos(self, t, n2, j); lem_pos(self, t, n2, j + 1); }
@at loop 1 end
proof { lem_entry_quiet(&hd, self, t, n2, c); lem_pos(self, t, n2, j); lem_pos(self, t, n1, k); }
@at before loop 1
proof { lem_entry_quiet(&hd, self, t, n2, c); lem_pos(self, t, n2, 1); lem_pos(self, t, n1, k); }
@at exit
proof { lem_prep_quiet(&h0, self, t, n1, n2, k); lem_prep_entries_ok(&h0, self, t, n1, n2, k); }
@endfn
@fn src/solver/improvement/local_search.rs LocalSearch::cheapest_insert_and_removal
@heap self
@params u v
@subst get_mut ==> get
@ret r
@spec
requires valid(old(self)), customer(u, old(self).n()), customer(v, old(self).n()),
    best3(bi(old(self), rt(old(self), v), num(u)), all_places(&old(self).ctx, tours(old(self))[rt(old(self), v)], num(u))),
ensures *final(self) == *old(self), lands(&old(self).ctx, tours(old(self))[rt(old(self), v)], num(u), ps(old(self), v), r),
@at start
let ghost t = tours(self);
let ghost n2 = rt(self, v);
let ghost j = ps(self, v);
let ghost s = t[n2];
let ghost c = num(u);
let ghost b = bi(self, n2, c);
let ghost q = choose|q: Seq<int>| picks(b, all_places(&self.ctx, s, c), q);
proof {
    lem_cust(self, t, u); lem_cust(self, t, v); lem_pos(self, t, rt(self, u), ps(self, u)); lem_pos(self, t, n2, j); lem_pos(self, t, n2, j - 1); lem_pos(self, t, n2, j + 1);
    lem_pick(self, t, n2, b, c, q, j, 0); lem_pick(self, t, n2, b, c, q, j, 1); lem_pick(self, t, n2, b, c, q, j, 2);
}
@at exit
proof { lem_lands(&self.ctx, s, b, c, q, j, __tail); }
@endfn
