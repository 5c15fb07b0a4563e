## C05/C06: reversals and tail exchanges
@include prelude/lsheap.vx proved links
@include prelude/nomove.vx
@include prelude/perm.vx proved links
@include prelude/lsspec.vx proved links
@include prelude/lsmoves.vx proved moves
@include prelude/lsrepr.vx proved moves
@include prelude/lsready.vx proved moves
@include prelude/lsxch.vx proved moves
@include prelude/lsmovespec.vx proved moves
@include prelude/lsrev.vx
@include prelude/lstwoopt.vx
@usefn links.vx LinkNode::is_depot
@usefn links.vx LinkNode::link_nodes
@usefn links.vx LocalSearch::update_route
@usefn evaluate.vx route_cost
@fn src/solver/improvement/linked_list.rs LinkNode::backward_reverse
@heap heap
@params from_node to_node new_last_node
@addparams heap: &mut LocalSearch, Ghost(s): Ghost<Tour>, Ghost(k): Ghost<int>, Ghost(lo): Ghost<int>
@passargs link_nodes heap
@spec
requires back_run(old(heap), s, k), from_node == s[k], 0 <= lo < k,
    (to_node == Ptr::Null && lo == 0 && old(heap).live(new_last_node) && off_part(s, k, new_last_node)) || (new_last_node == Ptr::Null && 0 < lo && to_node == s[lo]),
ensures rev_back(old(heap), final(heap), s, lo, k, new_last_node),
@at start
let ghost h0 = *heap;
let ghost mut m = k;
proof { lem_rev_back_start(&h0, s, k, new_last_node); lem_rev_back_ahead(&h0, &h0, s, k, k, new_last_node); }
@attr #[verifier::allow_complex_invariants]
@loop 0
invariant_except_break from_node == s[m], node == (if m > 0 { s[m - 1] } else { Ptr::Null }), lo > 0 ==> lo < m,
invariant back_run(&h0, s, k), lo <= m <= k, 0 <= lo < k, rev_back(&h0, heap, s, m, k, new_last_node),
    (to_node == Ptr::Null && lo == 0 && h0.live(new_last_node) && off_part(s, k, new_last_node)) || (new_last_node == Ptr::Null && 0 < lo && to_node == s[lo]),
ensures m == lo,
decreases m
@at loop 0 start
let ghost h1 = *heap;
proof { lem_rev_back_ahead(&h0, heap, s, m, k, new_last_node); reveal(distinct); assert(customer(s[m], h0.n())); if m > 1 { assert(customer(s[m - 1], h0.n())); } if lo > 0 { assert(customer(s[lo], h0.n())); assert(h0.live(s[lo])); } assert(h0.live(s[m - 1])); }
@at after call link_nodes
proof { lem_rev_back_step(&h0, &h1, heap, s, m, k, new_last_node); m = m - 1; }
@endfn
@fn src/solver/improvement/linked_list.rs LinkNode::forward_reverse
@heap heap
@params from_node to_node new_first_node
@addparams heap: &mut LocalSearch, Ghost(s): Ghost<Tour>, Ghost(k): Ghost<int>
@passargs link_nodes heap
@spec
requires fwd_run(old(heap), s, k), from_node == s[k], to_node == Ptr::Null, old(heap).live(new_first_node), off_from(s, k, new_first_node),
ensures rev_fwd(old(heap), final(heap), s, k, s.len() - 1, new_first_node),
@at start
let ghost h0 = *heap;
let ghost mut m = k;
proof { lem_rev_fwd_start(&h0, s, k, new_first_node); lem_rev_fwd_ahead(&h0, &h0, s, k, k, new_first_node); }
@attr #[verifier::allow_complex_invariants]
@loop 0
invariant_except_break from_node == s[m], node == node_at(s, m + 1),
invariant fwd_run(&h0, s, k), k <= m < s.len(), rev_fwd(&h0, heap, s, k, m, new_first_node), to_node == Ptr::Null, h0.live(new_first_node), off_from(s, k, new_first_node),
ensures m == s.len() - 1,
decreases s.len() - m
@at loop 0 start
let ghost h1 = *heap;
proof { lem_rev_fwd_ahead(&h0, heap, s, k, m, new_first_node); assert(m + 1 < s.len()); assert(s[m + 1] != Ptr::Null); }
@at loop 0 end
proof { if m < s.len() - 1 { assert(s[m + 1] != Ptr::Null); } }
@at after call link_nodes
proof { lem_rev_fwd_step(&h0, &h1, heap, s, k, m, new_first_node); m = m + 1; }
@endfn
@fn src/solver/improvement/linked_list.rs LinkNode::replace_end_depot
@heap heap
@params from_node end_depot
@addparams heap: &mut LocalSearch, Ghost(s): Ghost<Tour>
@passargs link_nodes heap
@spec
requires from_node == s[0], old(heap).live(end_depot), end_run(old(heap), s, end_depot),
ensures linked(*old(heap), *final(heap), s[s.len() - 2], end_depot),
@at start
let ghost h0 = *heap;
let ghost mut m = 0int;
proof { assert(h0.succ(s[0]) == node_at(s, 1)); }
@loop 0
invariant s.len() >= 2, h0.live(end_depot), distinct(s), forall|i: int| 0 <= i < s.len() ==> h0.live(#[trigger] s[i]) && h0.succ(s[i]) == node_at(s, i + 1) && s[i] != Ptr::Null && s[i] != end_depot,
    0 <= m < s.len(), from_node == s[m], next_node == node_at(s, m + 1), m < s.len() - 1 ==> *heap == h0, m == s.len() - 1 ==> linked(h0, *heap, s[s.len() - 2], end_depot),
decreases s.len() - m
@at loop 0 start
proof { assert(m + 1 < s.len()); assert(h0.succ(s[m + 1]) == node_at(s, m + 2)); if m + 2 < s.len() { assert(s[m + 2] != Ptr::Null); } reveal(distinct); assert(h0.live(s[m])); }
@at loop 0 end
proof { m = m + 1; if m < s.len() - 1 { assert(s[m + 1] != Ptr::Null); } }
@at end
proof { if m < s.len() - 1 { assert(s[m + 1] != Ptr::Null); } }
@endfn
@struct src/solver/improvement/moves/two_opt.rs TwoOptIntraReverse
@fn src/solver/improvement/moves/two_opt.rs TwoOptIntraReverse@Move::delta
@heap ls
@params ls u v
@ret r
@spec
requires pair(ls, tours(ls), u, v), customer(v, ls.n()),
ensures r@ == (if flip_ok(ls, u, v) { xch_gain(ls, tours(ls), flip_xch(ls, u, v)) } else { 0real }),
@at start
proof {
    let t = tours(ls);
    lem_pair(ls, t, u, v); lem_around(ls, t, u); lem_around(ls, t, v);
    if flip_ok(ls, u, v) { lem_flip_gain(ls, t, u, v); }
}
@endfn
@fn src/solver/improvement/moves/two_opt.rs TwoOptIntraReverse@Move::perform
@heap ls
@params ls u v
@passargs link_nodes ls
@passargs backward_reverse ls, Ghost(t[zr1]), Ghost(zj), Ghost(zi + 1)
@spec
requires pair(old(ls), tours(old(ls)), u, v), flip_ok(old(ls), u, v), customer(v, old(ls).n()),
ensures finished(*old(ls), *final(ls), exchanged(tours(old(ls)), flip_xch(old(ls), u, v)), flip_xch(old(ls), u, v).r1, flip_xch(old(ls), u, v).r2),
@at start
let ghost h0 = *ls;
let ghost t = tours(&h0);
let ghost xx = flip_xch(&h0, u, v);
let ghost (u0, v0) = (u, v);
let ghost (zr1, zi, zr2, zj) = (rt(&h0, u0), ps(&h0, u0), rt(&h0, v0), ps(&h0, v0));
let ghost mut b = h0;
let ghost mut c = h0;
let ghost mut done = 0int;
let ghost mut h1 = h0;
let ghost mut h2 = h0;
let ghost mut n = 0int;
proof { lem_pair(&h0, t, u0, v0); lem_around(&h0, t, u0); lem_around(&h0, t, v0); lem_back_run(&h0, t, zr1, zj); lem_flip_gain(&h0, t, u0, v0); }
@at after call backward_reverse
proof { h1 = *ls; }
@at after call link_nodes
proof { if n == 0 { h2 = *ls; } n = n + 1; }
@at before call update_route
proof {
    if done == 0 { b = *ls; lem_flip_ready(&h0, &h1, &h2, &b, t, u0, v0); lem_first_update(&h0, &b, t, xx); } else { c = *ls; lem_second_update(&h0, &b, &c, t, xx); }
    done = done + 1;
}
@at after call update_route
proof { if done == 1 { assert(one_renewed(b, *ls, t, xx)); lem_indices(ls, xx.r1, xx.r2); } else { assert(both_renewed(b, c, *ls, t, xx)); } }
@at end
proof { lem_finish(&h0, &b, &c, ls, t, xx); }
@endfn
@struct src/solver/improvement/moves/two_opt.rs TwoOptInterReverse
@fn src/solver/improvement/moves/two_opt.rs TwoOptInterReverse@Move::delta
@heap ls
@params ls u v
@ret r
@spec
requires pair(ls, tours(ls), u, v), customer(v, ls.n()),
ensures r@ == (if inter_ok(ls, u, v) { xch_gain(ls, tours(ls), cross_xch(ls, tours(ls), u, v)) } else { 0real }),
@at start
proof {
    let t = tours(ls);
    lem_pair(ls, t, u, v); lem_around(ls, t, u); lem_around(ls, t, v);
    if inter_ok(ls, u, v) { lem_cross_gain(ls, t, u, v); lem_route(ls, t, rt(ls, u)); lem_route(ls, t, rt(ls, v)); }
}
@endfn
@fn src/solver/improvement/moves/two_opt.rs TwoOptInterReverse@Move::perform
@heap ls
@params ls u v
@passargs link_nodes ls
@passargs backward_reverse ls, Ghost(t[zr2]), Ghost(zj), Ghost(0int)
@passargs forward_reverse ls, Ghost(t[zr1]), Ghost(zi + 1)
@spec
requires pair(old(ls), tours(old(ls)), u, v), inter_ok(old(ls), u, v), customer(v, old(ls).n()),
ensures finished(*old(ls), *final(ls), exchanged(tours(old(ls)), cross_xch(old(ls), tours(old(ls)), u, v)), cross_xch(old(ls), tours(old(ls)), u, v).r1, cross_xch(old(ls), tours(old(ls)), u, v).r2),
@at start
let ghost h0 = *ls;
let ghost t = tours(&h0);
let ghost xx = cross_xch(&h0, t, u, v);
let ghost (u0, v0) = (u, v);
let ghost (zr1, zi, zr2, zj) = (rt(&h0, u0), ps(&h0, u0), rt(&h0, v0), ps(&h0, v0));
let ghost mut b = h0;
let ghost mut c = h0;
let ghost mut done = 0int;
let ghost mut h1 = h0;
let ghost mut h2 = h0;
let ghost mut h3 = h0;
let ghost mut n = 0int;
proof { lem_pair(&h0, t, u0, v0); lem_around(&h0, t, u0); lem_around(&h0, t, v0); lem_back_run(&h0, t, zr2, zj); lem_cross_gain(&h0, t, u0, v0); lem_route(&h0, t, zr1); lem_route(&h0, t, zr2); lem_indices(&h0, zr1, zr2); lem_offs(&h0, t, zr1, zr2); }
@at after call backward_reverse
proof { h1 = *ls; }
@at after call link_nodes
proof { if n == 0 { h2 = *ls; h3 = *ls; lem_cross_mid(&h0, &h1, &h2, t, u0, v0); assert(ls.routes@ == h0.routes@); } n = n + 1; }
@at after call forward_reverse
proof { h3 = *ls; }
@at before call update_route
proof {
    if done == 0 { b = *ls; lem_cross_stages(&h0, &h1, &h2, &h3, &b, t, u0, v0); lem_cross_ready(&h0, &b, t, u0, v0); lem_first_update(&h0, &b, t, xx); } else { c = *ls; lem_second_update(&h0, &b, &c, t, xx); }
    done = done + 1;
}
@at after call update_route
proof { if done == 1 { assert(one_renewed(b, *ls, t, xx)); lem_indices(ls, xx.r1, xx.r2); } else { assert(both_renewed(b, c, *ls, t, xx)); } }
@at end
proof { lem_finish(&h0, &b, &c, ls, t, xx); }
@endfn
@struct src/solver/improvement/moves/two_opt.rs TwoOptInter
@fn src/solver/improvement/moves/two_opt.rs TwoOptInter@Move::delta
@heap ls
@params ls u v
@ret r
@spec
requires pair(ls, tours(ls), u, v),
ensures r@ == (if inter_ok(ls, u, v) { xch_gain(ls, tours(ls), tail_xch(ls, tours(ls), u, v)) } else { 0real }),
@at start
proof {
    let t = tours(ls);
    lem_pair(ls, t, u, v); lem_around(ls, t, u); lem_around(ls, t, v);
    if inter_ok(ls, u, v) { lem_tail_gain(ls, t, u, v); lem_route(ls, t, rt(ls, u)); lem_route(ls, t, rt(ls, v)); }
}
@endfn
@fn src/solver/improvement/moves/two_opt.rs TwoOptInter@Move::perform
@heap ls
@params ls u v
@passargs link_nodes ls
@passargs replace_end_depot ls, Ghost(gs)
@spec
requires pair(old(ls), tours(old(ls)), u, v), inter_ok(old(ls), u, v),
ensures finished(*old(ls), *final(ls), exchanged(tours(old(ls)), tail_xch(old(ls), tours(old(ls)), u, v)), tail_xch(old(ls), tours(old(ls)), u, v).r1, tail_xch(old(ls), tours(old(ls)), u, v).r2),
@at start
let ghost h0 = *ls;
let ghost t = tours(&h0);
let ghost xx = tail_xch(&h0, t, u, v);
let ghost (u0, v0) = (u, v);
let ghost (zr1, zi, zr2, zj) = (rt(&h0, u0), ps(&h0, u0), rt(&h0, v0), ps(&h0, v0));
let ghost mut b = h0;
let ghost mut c = h0;
let ghost mut done = 0int;
let ghost mut gs = t[zr1];
let ghost mut k1 = h0;
let ghost mut k2 = h0;
let ghost mut k3 = h0;
let ghost mut k4 = h0;
let ghost mut ups = 0int;
let ghost mut n = 0int;
proof { lem_pair(&h0, t, u0, v0); lem_around(&h0, t, u0); lem_around(&h0, t, v0); lem_tail_gain(&h0, t, u0, v0); lem_route(&h0, t, zr1); lem_route(&h0, t, zr2); lem_indices(&h0, zr1, zr2); lem_pos(&h0, t, zr1, t[zr1].len() - 1); lem_pos(&h0, t, zr2, t[zr2].len() - 1); }
@at after call link_nodes
proof { if n == 0 { k1 = *ls; } else { k2 = *ls; lem_tail_one(&h0, &k1, &k2, t, u0, v0); assert(ls.routes@ == h0.routes@); } n = n + 1; }
@at before call replace_end_depot
proof { if done == 0 { gs = tail_of(v0, t[zr1], zi + 1); } else { gs = tail_of(u0, t[zr2], zj + 1); } }
@at after call replace_end_depot
proof { if done == 0 { k3 = *ls; lem_tail_two(&h0, &k1, &k2, &k3, t, u0, v0); assert(ls.routes@ == h0.routes@); } else { k4 = *ls; lem_tail_three(&h0, &k1, &k2, &k3, &k4, t, u0, v0); } done = done + 1; }
@at before call update_route
proof {
    if ups == 0 { b = *ls; lem_first_update(&h0, &b, t, xx); } else { c = *ls; lem_second_update(&h0, &b, &c, t, xx); }
    ups = ups + 1;
}
@at after call update_route
proof { if ups == 1 { assert(one_renewed(b, *ls, t, xx)); lem_indices(ls, xx.r1, xx.r2); } else { assert(both_renewed(b, c, *ls, t, xx)); } }
@at end
proof { lem_finish(&h0, &b, &c, ls, t, xx); }
@endfn
