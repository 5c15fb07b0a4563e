## C05/C06: every move's predicted gain is the exact change of cost, and performing it keeps the linked routes whole
@include prelude/lsheap.vx proved links
@include prelude/nomove.vx
@include prelude/perm.vx proved links
@include prelude/lsspec.vx proved links
@include prelude/lsmoves.vx
@include prelude/lsrepr.vx
@include prelude/lsready.vx
@include prelude/lsxch.vx
@include prelude/lsmovespec.vx
@usefn links.vx LinkNode::is_depot
@usefn links.vx LinkNode::link_nodes
@usefn links.vx LocalSearch::update_route
@usefn evaluate.vx route_cost
@raw
pub proof fn lem_reloc_gain(h: &LocalSearch, t: Tours, u: Ptr, v: Ptr, w: int, rev: bool)
    requires pair(h, t, u, v), 1 <= w <= 2, reloc_ok(h, t, u, v, w), rev ==> w == 2
    ensures xch_ok(t, reloc_xch(h, u, v, w, rev)), ({
        let (r1, i, r2, j) = (rt(h, u), ps(h, u), rt(h, v), ps(h, v));
        let (up, l, n, y) = (num(t[r1][i - 1]), num(t[r1][i + w - 1]), num(t[r1][i + w]), num(t[r2][j + 1]));
        let ctx = &h.ctx; let inner = if w == 2 { ctx.d(num(u), l) } else { 0real };
        let (f, g) = if rev { (l, num(u)) } else { (num(u), l) };
        let d1 = ctx.d(up, n) - ctx.d(up, num(u)) - inner - ctx.d(l, n);
        let d2 = ctx.d(num(v), f) + inner + ctx.d(g, y) - ctx.d(num(v), y);
        let q = if w == 2 { ctx.demand(num(u)) + ctx.demand(l) } else { ctx.demand(num(u)) };
        let (c1, c2) = (h.routes@[r1], h.routes@[r2]); let pen = h.penalty_capacity@;
        xch_gain(h, t, reloc_xch(h, u, v, w, rev)) == (if r1 != r2 {
            (c1.distance@ + d1 + pen * rmax(0real, c1.overload@ - q)) + (c2.distance@ + d2 + pen * rmax(0real, c2.overload@ + q)) - (c1.cost@ + c2.cost@)
        } else { (c1.distance@ + d1 + pen * rmax(0real, c1.overload@)) + (c2.distance@ + d2 + pen * rmax(0real, c2.overload@)) - (c1.cost@ + c2.cost@) })
    })
{
    lem_pair(h, t, u, v);
    let (r1, i, r2, j) = (rt(h, u), ps(h, u), rt(h, v), ps(h, v));
    let x = reloc_xch(h, u, v, w, rev);
    lem_seg(t, x.r1, x.a1, x.b1, rev); lem_seg(t, x.r2, x.a2, x.b2, rev);
    lem_seg(t, x.r1, x.a1, x.b1, false); lem_seg(t, x.r2, x.a2, x.b2, false);
    lem_pos(h, t, r1, i - 1); lem_pos(h, t, r1, i); lem_pos(h, t, r1, i + w - 1); lem_pos(h, t, r1, i + w);
    lem_pos(h, t, r2, j); lem_pos(h, t, r2, j + 1);
    lem_xch_sums(h, t, x);
    lem_sums(&h.ctx, seg1(t, x)); lem_sums(&h.ctx, seg2(t, x));
    lem_sums(&h.ctx, t[x.r1].subrange(x.a1, x.b1)); lem_sums(&h.ctx, t[x.r2].subrange(x.a2, x.b2));
}
pub proof fn lem_swap_gain(h: &LocalSearch, t: Tours, u: Ptr, v: Ptr, w1: int, w2: int)
    requires pair(h, t, u, v), 1 <= w1 <= 2, 1 <= w2 <= 2, swap_ok(h, t, u, v, w1, w2)
    ensures xch_ok(t, swap_xch(h, u, v, w1, w2)), ({
        let (r1, i, r2, j) = (rt(h, u), ps(h, u), rt(h, v), ps(h, v));
        let (up, ul, un) = (num(t[r1][i - 1]), num(t[r1][i + w1 - 1]), num(t[r1][i + w1]));
        let (vp, vl, vn) = (num(t[r2][j - 1]), num(t[r2][j + w2 - 1]), num(t[r2][j + w2]));
        let ctx = &h.ctx;
        let in1 = if w1 == 2 { ctx.d(num(u), ul) } else { 0real }; let in2 = if w2 == 2 { ctx.d(num(v), vl) } else { 0real };
        let d1 = ctx.d(up, num(v)) + in2 + ctx.d(vl, un) - ctx.d(up, num(u)) - in1 - ctx.d(ul, un);
        let d2 = ctx.d(vp, num(u)) + in1 + ctx.d(ul, vn) - ctx.d(vp, num(v)) - in2 - ctx.d(vl, vn);
        let q1 = if w1 == 2 { ctx.demand(num(u)) + ctx.demand(ul) } else { ctx.demand(num(u)) };
        let q2 = if w2 == 2 { ctx.demand(num(v)) + ctx.demand(vl) } else { ctx.demand(num(v)) };
        let (c1, c2) = (h.routes@[r1], h.routes@[r2]); let pen = h.penalty_capacity@;
        xch_gain(h, t, swap_xch(h, u, v, w1, w2)) == (if r1 != r2 {
            (c1.distance@ + d1 + pen * rmax(0real, c1.overload@ - q1 + q2)) + (c2.distance@ + d2 + pen * rmax(0real, c2.overload@ + q1 - q2)) - (c1.cost@ + c2.cost@)
        } else { (c1.distance@ + d1 + pen * rmax(0real, c1.overload@)) + (c2.distance@ + d2 + pen * rmax(0real, c2.overload@)) - (c1.cost@ + c2.cost@) })
    })
{
    lem_pair(h, t, u, v);
    let (r1, i, r2, j) = (rt(h, u), ps(h, u), rt(h, v), ps(h, v));
    let x = swap_xch(h, u, v, w1, w2);
    lem_seg(t, x.r1, x.a1, x.b1, false); lem_seg(t, x.r2, x.a2, x.b2, false);
    lem_pos(h, t, r1, i - 1); lem_pos(h, t, r1, i); lem_pos(h, t, r1, i + w1 - 1); lem_pos(h, t, r1, i + w1);
    lem_pos(h, t, r2, j - 1); lem_pos(h, t, r2, j); lem_pos(h, t, r2, j + w2 - 1); lem_pos(h, t, r2, j + w2);
    lem_xch_sums(h, t, x);
    lem_sums(&h.ctx, seg1(t, x)); lem_sums(&h.ctx, seg2(t, x));
    lem_sums(&h.ctx, t[x.r1].subrange(x.a1, x.b1)); lem_sums(&h.ctx, t[x.r2].subrange(x.a2, x.b2));
}
@struct src/solver/improvement/moves/relocation.rs RelocateSingle
@fn src/solver/improvement/moves/relocation.rs RelocateSingle@Move::delta
@heap ls
@params ls u v
@ret r
@spec
requires pair(ls, tours(ls), u, v),
ensures r@ == (if reloc_ok(ls, tours(ls), u, v, 1) { xch_gain(ls, tours(ls), reloc_xch(ls, u, v, 1, false)) } else { 0real }),
@at start
proof {
    let t = tours(ls);
    lem_pair(ls, t, u, v); lem_around(ls, t, u); lem_around(ls, t, v);
    if reloc_ok(ls, t, u, v, 1) { lem_reloc_gain(ls, t, u, v, 1, false); }
}
@endfn
@fn src/solver/improvement/moves/relocation.rs RelocateSingle@Move::perform
@heap ls
@params ls u v
@passargs link_nodes ls
@spec
requires pair(old(ls), tours(old(ls)), u, v), reloc_ok(old(ls), tours(old(ls)), u, v, 1),
ensures finished(*old(ls), *final(ls), exchanged(tours(old(ls)), reloc_xch(old(ls), u, v, 1, false)), reloc_xch(old(ls), u, v, 1, false).r1, reloc_xch(old(ls), u, v, 1, false).r2),
@at start
let ghost h0 = *ls;
let ghost t = tours(&h0);
let ghost xx = reloc_xch(&h0, u, v, 1, false);
let ghost mut b = h0;
let ghost mut c = h0;
let ghost mut done = 0int;
proof { lem_pair(&h0, t, u, v); lem_around(&h0, t, u); lem_around(&h0, t, v); }
@at before call update_route
proof {
    if done == 0 { b = *ls; lem_reloc_rewired(&h0, &b, t, u, v, 1, false); lem_first_update(&h0, &b, t, xx); } else { c = *ls; lem_second_update(&h0, &b, &c, t, xx); }
    done = done + 1;
}
@at after call update_route
proof { if done == 1 { assert(one_renewed(b, *ls, t, xx)); lem_indices(ls, xx.r1, xx.r2); } else { assert(both_renewed(b, c, *ls, t, xx)); } }
@at exit
proof { lem_finish(&h0, &b, &c, ls, t, xx); }
@endfn
@struct src/solver/improvement/moves/relocation.rs RelocateDouble
@fn src/solver/improvement/moves/relocation.rs RelocateDouble@Move::delta
@heap ls
@params ls u v
@ret r
@spec
requires pair(ls, tours(ls), u, v),
ensures r@ == (if reloc_ok(ls, tours(ls), u, v, 2) { xch_gain(ls, tours(ls), reloc_xch(ls, u, v, 2, false)) } else { 0real }),
@at start
proof {
    let t = tours(ls);
    lem_pair(ls, t, u, v); lem_around(ls, t, u); lem_around(ls, t, v);
    if reloc_ok(ls, t, u, v, 2) { lem_reloc_gain(ls, t, u, v, 2, false); }
}
@endfn
@fn src/solver/improvement/moves/relocation.rs RelocateDouble@Move::perform
@heap ls
@params ls u v
@passargs link_nodes ls
@spec
requires pair(old(ls), tours(old(ls)), u, v), reloc_ok(old(ls), tours(old(ls)), u, v, 2),
ensures finished(*old(ls), *final(ls), exchanged(tours(old(ls)), reloc_xch(old(ls), u, v, 2, false)), reloc_xch(old(ls), u, v, 2, false).r1, reloc_xch(old(ls), u, v, 2, false).r2),
@at start
let ghost h0 = *ls;
let ghost t = tours(&h0);
let ghost xx = reloc_xch(&h0, u, v, 2, false);
let ghost mut b = h0;
let ghost mut c = h0;
let ghost mut done = 0int;
proof { lem_pair(&h0, t, u, v); lem_around(&h0, t, u); lem_around(&h0, t, v); }
@at before call update_route
proof {
    if done == 0 { b = *ls; lem_reloc_rewired(&h0, &b, t, u, v, 2, false); lem_first_update(&h0, &b, t, xx); } else { c = *ls; lem_second_update(&h0, &b, &c, t, xx); }
    done = done + 1;
}
@at after call update_route
proof { if done == 1 { assert(one_renewed(b, *ls, t, xx)); lem_indices(ls, xx.r1, xx.r2); } else { assert(both_renewed(b, c, *ls, t, xx)); } }
@at exit
proof { lem_finish(&h0, &b, &c, ls, t, xx); }
@endfn
@struct src/solver/improvement/moves/relocation.rs RelocateDoubleReverse
@fn src/solver/improvement/moves/relocation.rs RelocateDoubleReverse@Move::delta
@heap ls
@params ls u v
@ret r
@spec
requires pair(ls, tours(ls), u, v),
ensures r@ == (if reloc_ok(ls, tours(ls), u, v, 2) { xch_gain(ls, tours(ls), reloc_xch(ls, u, v, 2, true)) } else { 0real }),
@at start
proof {
    let t = tours(ls);
    lem_pair(ls, t, u, v); lem_around(ls, t, u); lem_around(ls, t, v);
    if reloc_ok(ls, t, u, v, 2) { lem_reloc_gain(ls, t, u, v, 2, true); }
}
@endfn
@fn src/solver/improvement/moves/relocation.rs RelocateDoubleReverse@Move::perform
@heap ls
@params ls u v
@passargs link_nodes ls
@spec
requires pair(old(ls), tours(old(ls)), u, v), reloc_ok(old(ls), tours(old(ls)), u, v, 2),
ensures finished(*old(ls), *final(ls), exchanged(tours(old(ls)), reloc_xch(old(ls), u, v, 2, true)), reloc_xch(old(ls), u, v, 2, true).r1, reloc_xch(old(ls), u, v, 2, true).r2),
@at start
let ghost h0 = *ls;
let ghost t = tours(&h0);
let ghost xx = reloc_xch(&h0, u, v, 2, true);
let ghost mut b = h0;
let ghost mut c = h0;
let ghost mut done = 0int;
proof { lem_pair(&h0, t, u, v); lem_around(&h0, t, u); lem_around(&h0, t, v); }
@at before call update_route
proof {
    if done == 0 { b = *ls; lem_reloc_rewired(&h0, &b, t, u, v, 2, true); lem_first_update(&h0, &b, t, xx); } else { c = *ls; lem_second_update(&h0, &b, &c, t, xx); }
    done = done + 1;
}
@at after call update_route
proof { if done == 1 { assert(one_renewed(b, *ls, t, xx)); lem_indices(ls, xx.r1, xx.r2); } else { assert(both_renewed(b, c, *ls, t, xx)); } }
@at exit
proof { lem_finish(&h0, &b, &c, ls, t, xx); }
@endfn
@struct src/solver/improvement/moves/swap.rs SwapOneWithOne
@fn src/solver/improvement/moves/swap.rs SwapOneWithOne@Move::delta
@heap ls
@params ls u v
@ret r
@spec
requires pair(ls, tours(ls), u, v), customer(v, ls.n()),
ensures r@ == (if swap_ok(ls, tours(ls), u, v, 1, 1) { xch_gain(ls, tours(ls), swap_xch(ls, u, v, 1, 1)) } else { 0real }),
@at start
proof {
    let t = tours(ls);
    lem_pair(ls, t, u, v); lem_around(ls, t, u); lem_around(ls, t, v);
    if swap_ok(ls, t, u, v, 1, 1) { lem_swap_gain(ls, t, u, v, 1, 1); }
}
@endfn
@fn src/solver/improvement/moves/swap.rs SwapOneWithOne@Move::perform
@heap ls
@params ls u v
@passargs link_nodes ls
@spec
requires pair(old(ls), tours(old(ls)), u, v), swap_ok(old(ls), tours(old(ls)), u, v, 1, 1), customer(v, old(ls).n()),
ensures finished(*old(ls), *final(ls), exchanged(tours(old(ls)), swap_xch(old(ls), u, v, 1, 1)), swap_xch(old(ls), u, v, 1, 1).r1, swap_xch(old(ls), u, v, 1, 1).r2),
@at start
let ghost h0 = *ls;
let ghost t = tours(&h0);
let ghost xx = swap_xch(&h0, u, v, 1, 1);
let ghost mut b = h0;
let ghost mut c = h0;
let ghost mut done = 0int;
proof { lem_pair(&h0, t, u, v); lem_around(&h0, t, u); lem_around(&h0, t, v); }
@at before call update_route
proof {
    if done == 0 { b = *ls; lem_swap_rewired(&h0, &b, t, u, v, 1, 1); lem_first_update(&h0, &b, t, xx); } else { c = *ls; lem_second_update(&h0, &b, &c, t, xx); }
    done = done + 1;
}
@at after call update_route
proof { if done == 1 { assert(one_renewed(b, *ls, t, xx)); lem_indices(ls, xx.r1, xx.r2); } else { assert(both_renewed(b, c, *ls, t, xx)); } }
@at exit
proof { lem_finish(&h0, &b, &c, ls, t, xx); }
@endfn
@struct src/solver/improvement/moves/swap.rs SwapTwoWithOne
@fn src/solver/improvement/moves/swap.rs SwapTwoWithOne@Move::delta
@heap ls
@params ls u v
@ret r
@spec
requires pair(ls, tours(ls), u, v), customer(v, ls.n()),
ensures r@ == (if swap_ok(ls, tours(ls), u, v, 2, 1) { xch_gain(ls, tours(ls), swap_xch(ls, u, v, 2, 1)) } else { 0real }),
@at start
proof {
    let t = tours(ls);
    lem_pair(ls, t, u, v); lem_around(ls, t, u); lem_around(ls, t, v);
    if swap_ok(ls, t, u, v, 2, 1) { lem_swap_gain(ls, t, u, v, 2, 1); }
}
@endfn
@fn src/solver/improvement/moves/swap.rs SwapTwoWithOne@Move::perform
@heap ls
@params ls u v
@passargs link_nodes ls
@spec
requires pair(old(ls), tours(old(ls)), u, v), swap_ok(old(ls), tours(old(ls)), u, v, 2, 1), customer(v, old(ls).n()),
ensures finished(*old(ls), *final(ls), exchanged(tours(old(ls)), swap_xch(old(ls), u, v, 2, 1)), swap_xch(old(ls), u, v, 2, 1).r1, swap_xch(old(ls), u, v, 2, 1).r2),
@at start
let ghost h0 = *ls;
let ghost t = tours(&h0);
let ghost xx = swap_xch(&h0, u, v, 2, 1);
let ghost mut b = h0;
let ghost mut c = h0;
let ghost mut done = 0int;
proof { lem_pair(&h0, t, u, v); lem_around(&h0, t, u); lem_around(&h0, t, v); }
@at before call update_route
proof {
    if done == 0 { b = *ls; lem_swap_rewired(&h0, &b, t, u, v, 2, 1); lem_first_update(&h0, &b, t, xx); } else { c = *ls; lem_second_update(&h0, &b, &c, t, xx); }
    done = done + 1;
}
@at after call update_route
proof { if done == 1 { assert(one_renewed(b, *ls, t, xx)); lem_indices(ls, xx.r1, xx.r2); } else { assert(both_renewed(b, c, *ls, t, xx)); } }
@at exit
proof { lem_finish(&h0, &b, &c, ls, t, xx); }
@endfn
@struct src/solver/improvement/moves/swap.rs SwapTwoWithTwo
@fn src/solver/improvement/moves/swap.rs SwapTwoWithTwo@Move::delta
@heap ls
@params ls u v
@ret r
@spec
requires pair(ls, tours(ls), u, v), customer(v, ls.n()),
ensures r@ == (if swap_ok(ls, tours(ls), u, v, 2, 2) { xch_gain(ls, tours(ls), swap_xch(ls, u, v, 2, 2)) } else { 0real }),
@at start
proof {
    let t = tours(ls);
    lem_pair(ls, t, u, v); lem_around(ls, t, u); lem_around(ls, t, v);
    if swap_ok(ls, t, u, v, 2, 2) { lem_swap_gain(ls, t, u, v, 2, 2); }
}
@endfn
@fn src/solver/improvement/moves/swap.rs SwapTwoWithTwo@Move::perform
@heap ls
@params ls u v
@passargs link_nodes ls
@spec
requires pair(old(ls), tours(old(ls)), u, v), swap_ok(old(ls), tours(old(ls)), u, v, 2, 2), customer(v, old(ls).n()),
ensures finished(*old(ls), *final(ls), exchanged(tours(old(ls)), swap_xch(old(ls), u, v, 2, 2)), swap_xch(old(ls), u, v, 2, 2).r1, swap_xch(old(ls), u, v, 2, 2).r2),
@at start
let ghost h0 = *ls;
let ghost t = tours(&h0);
let ghost xx = swap_xch(&h0, u, v, 2, 2);
let ghost mut b = h0;
let ghost mut c = h0;
let ghost mut done = 0int;
proof { lem_pair(&h0, t, u, v); lem_around(&h0, t, u); lem_around(&h0, t, v); }
@at before call update_route
proof {
    if done == 0 { b = *ls; lem_swap_rewired(&h0, &b, t, u, v, 2, 2); lem_first_update(&h0, &b, t, xx); } else { c = *ls; lem_second_update(&h0, &b, &c, t, xx); }
    done = done + 1;
}
@at after call update_route
proof { if done == 1 { assert(one_renewed(b, *ls, t, xx)); lem_indices(ls, xx.r1, xx.r2); } else { assert(both_renewed(b, c, *ls, t, xx)); } }
@at exit
proof { lem_finish(&h0, &b, &c, ls, t, xx); }
@endfn
