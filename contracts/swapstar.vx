## C07: SWAP* picks and applies an exchange
@include prelude/lsheap.vx proved links
@include prelude/nomove.vx
@include prelude/perm.vx proved links
@include prelude/lsspec.vx proved links
@include prelude/lsmoves.vx proved inserts
@include prelude/lsrepr.vx proved inserts
@include prelude/lsready.vx
@include prelude/insertspec.vx proved inserts
@include prelude/swaplinks.vx
@struct src/solver/improvement/moves/swap_star.rs BestSwapStar
@usefn links.vx LinkNode::is_depot
@usefn links.vx LinkNode::link_nodes
@usefn links.vx LocalSearch::update_route
@usefn inserts.vx LocalSearch::preprocess_insertions
@usefn inserts.vx LocalSearch::cheapest_insert_and_removal
@fn src/solver/improvement/moves/swap_star.rs BestSwapStar::new
@ret r
@spec
ensures r.cost@ == inf_spec(), r.u == Ptr::Null, r.v == Ptr::Null, r.pos_u == Ptr::Null, r.pos_v == Ptr::Null,
@endfn
@fn src/solver/improvement/linked_list.rs LinkNode::insert_node
@heap heap
@params p q
@passargs link_nodes heap
@addparams heap: &mut LocalSearch
@spec
requires exists|g: Ins| ins_ok(old(heap), g, p, q),
ensures forall|g: Ins| #[trigger] ins_ok(old(heap), g, p, q) ==> ins_done(old(heap), final(heap), g),
@at start
let ghost b = *heap;
proof { let g = choose|g: Ins| ins_ok(heap, g, p, q); lem_ins_facts(heap, g, p, q); }
@at exit
proof { assert forall|g: Ins| #[trigger] ins_ok(&b, g, p, q) implies ins_done(&b, heap, g) by { lem_ins_facts(&b, g, p, q); assert(rewoven(&b, heap, g)) by { reveal(rewoven); } lem_ins_done(&b, heap, g, p, q); } }
@endfn
@include prelude/swapspec.vx
@struct src/solver/improvement/moves/swap_star.rs SwapStar
@fn src/solver/improvement/moves/swap_star.rs SwapStar::run
@attr #[verifier::spinoff_prover]
@heap ls
@params ls r1 r2
@passargs insert_node ls
@ret r
@spec
requires valid(old(ls)), entries_ok(old(ls), tours(old(ls))), detours_finite(&old(ls).ctx), old(ls).live_route(r1), old(ls).live_route(r2), r1 != r2, old(ls).move_count < i32::MAX,
ensures 
    !r ==> quiet(old(ls), final(ls)) && same_setup(old(ls), final(ls)) && final(ls).move_count == old(ls).move_count && final(ls).routes@ == old(ls).routes@ && entries_ok(final(ls), tours(old(ls))) && none_below(old(ls), tours(old(ls)), ix(r1), ix(r2), -EPSILON_spec()),
    r ==> exists|m: Deal| star_done(old(ls), final(ls), tours(old(ls)), ix(r1), ix(r2), m),
@at start
let ghost h0 = *ls;
let ghost t = tours(&h0);
let ghost n1 = ix(r1);
let ghost n2 = ix(r2);
let ghost s1 = t[n1];
let ghost s2 = t[n2];
let ghost mut h1 = h0;
let ghost mut h2 = h0;
let ghost mut zi = 1int;
let ghost mut zj = 1int;
let ghost mut tried = false;
let ghost mut zx = (Ptr::Null, arbitrary::<R>());
let ghost mut zy = (Ptr::Null, arbitrary::<R>());
let ghost mut zp = (0real, 0real);
let ghost mut bm0 = arbitrary::<BestSwapStar>();
let ghost mut zm = arbitrary::<Deal>();
let ghost mut hb = h0;
let ghost mut hc = h0;
proof { lem_route(&h0, t, n1); lem_route(&h0, t, n2); lem_pos(&h0, t, n1, 0); lem_pos(&h0, t, n1, 1); }
@at after call preprocess_insertions 0
proof { h1 = *ls; }
@at after call preprocess_insertions 1
proof {
    h2 = *ls;
    lem_primed(&h0, &h1, &h2, t, n1, n2); lem_prep_quiet(&h0, &h1, t, n1, n2, s1.len() - 1); lem_prep_quiet(&h1, &h2, t, n2, n1, s2.len() - 1); lem_quiet_trans(&h0, &h1, &h2);
    lem_route(&h2, t, n1); lem_route(&h2, t, n2); lem_pos(&h2, t, n1, 0); lem_pos(&h2, t, n1, 1); lem_done_start(&h2, t, n1, n2, best_move.cost@);
    zi = 1int;
}
@loop 0
invariant *ls == h2, 1 <= zi < s1.len(), u_ptr == s1[zi], pos_facts(&h2, t, n1, zi), bm_ok(&h2, t, n1, n2, best_move), pairs_done(&h2, t, n1, n2, best_move.cost@, zi, 1),
decreases s1.len() - zi
@at loop 0 start
proof { zj = 1int; lem_pos(&h2, t, n2, 0); lem_pos(&h2, t, n2, 1); lem_pos(&h2, t, n1, zi + 1); }
@loop 1
invariant *ls == h2, 1 <= zj < s2.len(), v_ptr == s2[zj], pos_facts(&h2, t, n2, zj), bm_ok(&h2, t, n1, n2, best_move), pairs_done(&h2, t, n1, n2, best_move.cost@, zi, zj),
decreases s2.len() - zj
@at loop 1 start
proof { tried = false; bm0 = best_move; lem_pos(&h2, t, n2, zj + 1); lem_primed_at(&h2, t, n1, n2, zi); lem_primed_at(&h2, t, n2, n1, zj); }
@at after call cheapest_insert_and_removal 1
proof { tried = true; zx = (best_pos_u, delta_insertion_u); zy = (best_pos_v, delta_insertion_v); zp = (delta_penalty_r1@, delta_penalty_r2@); }
@at loop 1 end
proof {
    lem_pen_forms(&h2, s1, h2.ctx.demand(num(s2[zj])) - h2.ctx.demand(num(s1[zi]))); lem_pen_forms(&h2, s2, h2.ctx.demand(num(s1[zi])) - h2.ctx.demand(num(s2[zj])));
    if tried {
        let b = BestSwapStar { cost: mk(removal(&h2.ctx, s1, zi) + zp.0 + zx.1@ + removal(&h2.ctx, s2, zj) + zp.1 + zy.1@), u: s1[zi], v: s2[zj], pos_u: zx.0, pos_v: zy.0 };
        lem_pair_deal(&h2, t, n1, n2, zi, zj, b, zx, zy, zp.0, zp.1);
        if best_move != bm0 { lem_same_bm(&h2, t, n1, n2, b, best_move); }
    }
    lem_pair_step(&h2, t, n1, n2, zi, zj, bm0.cost@, best_move.cost@);
    zj = zj + 1;
}
@at loop 0 end
proof { lem_row_done(&h2, t, n1, n2, best_move.cost@, zi); zi = zi + 1; }
@at before loop 2
proof { zi = 1int; lem_done_start(&h2, t, n1, n2, best_move.cost@); lem_pos(&h2, t, n1, 1); }
@loop 2
invariant *ls == h2, 1 <= zi < s1.len(), u_ptr == s1[zi], pos_facts(&h2, t, n1, zi), bm_ok(&h2, t, n1, n2, best_move), pairs_done(&h2, t, n1, n2, best_move.cost@, s1.len() - 1, 1), left_done(&h2, t, n1, n2, best_move.cost@, zi),
decreases s1.len() - zi
@at loop 2 start
proof { bm0 = best_move; lem_pos(&h2, t, n1, zi + 1); lem_primed_at(&h2, t, n1, n2, zi); }
@at loop 2 end
proof {
    let e = bi(&h2, n2, num(s1[zi])); let k = choose|k: int| first_is(&h2, t, n1, n2, zi, e, k);
    let b = BestSwapStar { cost: mk(removal(&h2.ctx, s1, zi) + e.locations@[0].cost@ + pen_d(&h2, s1, -h2.ctx.demand(num(s1[zi]))) + pen_d(&h2, s2, h2.ctx.demand(num(s1[zi])))), u: s1[zi], v: Ptr::Null, pos_u: e.locations@[0].node, pos_v: Ptr::Null };
    lem_pen_forms(&h2, s1, -h2.ctx.demand(num(s1[zi]))); lem_pen_forms(&h2, s2, h2.ctx.demand(num(s1[zi])));
    lem_left_deal(&h2, t, n1, n2, zi, b, e, k);
    if best_move != bm0 { lem_same_bm(&h2, t, n1, n2, b, best_move); }
    lem_done_lower(&h2, t, n1, n2, bm0.cost@, best_move.cost@, s1.len() - 1, 1);
    lem_one_step(&h2, t, n1, n2, zi, bm0.cost@, best_move.cost@);
    zi = zi + 1;
}
@at before loop 3
proof { zj = 1int; lem_done_start(&h2, t, n1, n2, best_move.cost@); lem_pos(&h2, t, n2, 0); lem_pos(&h2, t, n2, 1); }
@loop 3
invariant *ls == h2, 1 <= zj < s2.len(), v_ptr == s2[zj], pos_facts(&h2, t, n2, zj), bm_ok(&h2, t, n1, n2, best_move), pairs_done(&h2, t, n1, n2, best_move.cost@, s1.len() - 1, 1), left_done(&h2, t, n1, n2, best_move.cost@, s1.len() - 1), right_done(&h2, t, n1, n2, best_move.cost@, zj),
decreases s2.len() - zj
@at loop 3 start
proof { bm0 = best_move; lem_pos(&h2, t, n2, zj + 1); lem_primed_at(&h2, t, n2, n1, zj); }
@at loop 3 end
proof {
    let e = bi(&h2, n1, num(s2[zj])); let k = choose|k: int| first_is(&h2, t, n2, n1, zj, e, k);
    let b = BestSwapStar { cost: mk(removal(&h2.ctx, s2, zj) + e.locations@[0].cost@ + pen_d(&h2, s1, h2.ctx.demand(num(s2[zj]))) + pen_d(&h2, s2, -h2.ctx.demand(num(s2[zj])))), v: s2[zj], u: Ptr::Null, pos_v: e.locations@[0].node, pos_u: Ptr::Null };
    lem_pen_forms(&h2, s1, h2.ctx.demand(num(s2[zj]))); lem_pen_forms(&h2, s2, -h2.ctx.demand(num(s2[zj])));
    lem_right_deal(&h2, t, n1, n2, zj, b, e, k);
    if best_move != bm0 { lem_same_bm(&h2, t, n1, n2, b, best_move); }
    lem_done_lower(&h2, t, n1, n2, bm0.cost@, best_move.cost@, s1.len() - 1, 1); lem_done_lower(&h2, t, n1, n2, bm0.cost@, best_move.cost@, s1.len() - 1, zj);
    lem_one_step(&h2, t, n1, n2, zj, bm0.cost@, best_move.cost@);
    zj = zj + 1;
}
@at after loop 3
proof {
    lem_none_below(&h2, t, n1, n2, best_move.cost@);
    lem_inf_pos(&h2.ctx);
    if best_move.cost@ < 0real {
        zm = choose|m: Deal| bm_is(&h2, t, n1, n2, best_move, m);
        lem_bumped(&h2, t); lem_deal_first(&h2, t, n1, n2, zm, best_move);
        hb = bumped(h2);
        lem_deal_first(&hb, t, n1, n2, zm, best_move);
        lem_woven_none(&hb, t, n1, n2);
    }
}
@at return
proof { assert(none_below(&h0, t, n1, n2, -EPSILON_spec())) by { assert forall|m: Deal| #[trigger] considered(&h0, t, n1, n2, m) implies -EPSILON_spec() <= gain(&h0, t, n1, n2, m) + 2real * EPSILON_spec() by { assert(considered(&h2, t, n1, n2, m)); } } }
@at after call insert_node 0
proof { let g = Ins { r1: n1, s1: s1, i: zm.i, r2: n2, s2: s2, k: zm.k }; assert(ins_ok(&hb, g, best_move.u, best_move.pos_u)); assert(ins_done(&hb, ls, g)); hb = *ls; }
@at before call insert_node 1
proof { lem_deal_second(&h2, t, n1, n2, zm, best_move, ls); }
@at after call insert_node 1
proof { let g = second_ins(t, n1, n2, zm); assert(ins_ok(&hb, g, best_move.v, best_move.pos_v)); lem_woven_second(&bumped(h2), &hb, ls, t, n1, n2, zm); hb = *ls; }
@at before call update_route 0
proof { lem_deal_tours(t, n1, n2, zm); assert(woven(&bumped(h2), ls, t, n1, n2, deal1(t, n1, n2, zm), deal2(t, n1, n2, zm))); hb = *ls; }
@at after call update_route 0
proof {
    hc = *ls; assert(renewed(hb, hc, n1, deal1(t, n1, n2, zm)) || renewed(hb, hc, n2, deal2(t, n1, n2, zm)));
    if renewed(hb, hc, n1, deal1(t, n1, n2, zm)) { lem_back_after(&hb, &hc, n1, n2, deal2(t, n1, n2, zm)); }
    if renewed(hb, hc, n2, deal2(t, n1, n2, zm)) { lem_back_after(&hb, &hc, n2, n1, deal1(t, n1, n2, zm)); }
}
@at after call update_route 1
proof { assert(either_order(hb, hc, *ls, n1, deal1(t, n1, n2, zm), n2, deal2(t, n1, n2, zm))); lem_star_done(&h0, &h2, &hb, &hc, ls, t, n1, n2, zm); }
@endfn
