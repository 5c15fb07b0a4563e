@raw
// ---- what holds all through a local search that started from h0
pub open spec fn cust_ok(h: &LocalSearch) -> bool { forall|i: int| 0 <= i < h.customers@.len() ==> 0 < #[trigger] h.customers@[i] < h.n() }
pub open spec fn empties_in(h: &LocalSearch) -> bool { forall|q: usize| #[trigger] h.empty_routes@.contains(q) ==> q < h.m() }
pub open spec fn far_ok(ms: &Moves) -> bool { forall|i: int| 0 <= i < ms.empty_route@.len() ==> (#[trigger] ms.empty_route@[i]).far() }
pub open spec fn costs_up(h: &LocalSearch) -> bool {
    h.penalty_capacity@ >= 0real && forall|i: int, j: int| 0 <= i < h.n() && 0 <= j < h.n() ==> #[trigger] h.ctx.d(i, j) >= 0real
}
#[verifier::opaque]
pub open spec fn set_up(h: &LocalSearch) -> bool {
    &&& valid(h) && entries_ok(h, tours(h)) && detours_finite(&h.ctx) && costs_up(h)
    &&& cust_ok(h) && h.correlation.n() == h.n() && h.granularity >= 1 && empties_in(h) && far_ok(&h.moves) && h.move_count >= 0
}
#[verifier::opaque]
pub open spec fn now_cost(h: &LocalSearch) -> real { cost_of(h, tours(h)) }
pub open spec fn searching(h0: &LocalSearch, h: &LocalSearch) -> bool {
    set_up(h) && h.ctx == h0.ctx && h.granularity == h0.granularity && h.moves == h0.moves && h.penalty_capacity == h0.penalty_capacity && h.m() == h0.m() && h.n() == h0.n()
}
// since a (the start of the round): no dearer, and cheaper by the tolerance and with a higher count if something was improved
pub open spec fn lowered(a: &LocalSearch, h: &LocalSearch, better: bool) -> bool {
    now_cost(h) <= now_cost(a) - (if better { EPSILON_spec() } else { 0real }) && h.move_count >= a.move_count + (if better { 1int } else { 0int })
}
// how many more improvements there can be
pub open spec fn rounds(h: &LocalSearch) -> int { (now_cost(h) / EPSILON_spec()).floor() }
pub proof fn lem_costs_up(h: &LocalSearch, t: Tours, k: int)
    requires repr(h, t), costs_up(h), 0 <= k <= t.len()
    ensures tours_cost(&h.ctx, h.penalty_capacity@, t, k) >= 0real
    decreases k
{
    if k > 0 {
        lem_costs_up(h, t, k - 1);
        let s = t[k - 1];
        lem_route(h, t, k - 1);
        lem_plen_up(h, t, k - 1, s.len() - 1);
        let (p, o) = (h.penalty_capacity@, rmax(0real, tover(&h.ctx, s)));
        assert(p * o >= 0real) by(nonlinear_arith) requires p >= 0real, o >= 0real;
    }
}
pub proof fn lem_plen_up(h: &LocalSearch, t: Tours, r: int, k: int)
    requires repr(h, t), costs_up(h), 0 <= r < t.len(), k < t[r].len()
    ensures plen(&h.ctx, t[r], k) >= 0real
    decreases k
{ if k > 0 { lem_plen_up(h, t, r, k - 1); lem_pos(h, t, r, k); lem_pos(h, t, r, k - 1); } }
pub proof fn lem_rounds(a: &LocalSearch, b: &LocalSearch)
    requires set_up(a), set_up(b)
    ensures rounds(a) >= 0, now_cost(b) <= now_cost(a) ==> rounds(b) <= rounds(a), now_cost(b) <= now_cost(a) - EPSILON_spec() ==> rounds(b) < rounds(a)
{ reveal(set_up); reveal(now_cost); reveal(pays);
    lem_costs_up(a, tours(a), tours(a).len() as int);
    let (x, y, e) = (now_cost(a), now_cost(b), EPSILON_spec());
    assert(e > 0real);
    assert(x / e >= 0real) by(nonlinear_arith) requires x >= 0real, e > 0real;
    if y <= x { assert(y / e <= x / e) by(nonlinear_arith) requires y <= x, e > 0real; }
    if y <= x - e { assert(y / e <= x / e - 1real) by(nonlinear_arith) requires y <= x - e, e > 0real; }
}
// notes of the search change
pub open spec fn annotated(a: &LocalSearch, b: &LocalSearch) -> bool {
    quiet(a, b) && b.best_inserts == a.best_inserts && b.move_count == a.move_count && stamps_same(a, b)
}
#[verifier::opaque]
pub open spec fn stamps_same(a: &LocalSearch, b: &LocalSearch) -> bool { forall|r: int| 0 <= r < a.m() ==> (#[trigger] b.routes@[r]).last_modified == a.routes@[r].last_modified }
pub proof fn lem_noted(h0: &LocalSearch, a: &LocalSearch, b: &LocalSearch)
    requires searching(h0, a), annotated(a, b), cust_ok(b), b.correlation.n() == b.n()
    ensures searching(h0, b), now_cost(b) == now_cost(a), tours(b) == tours(a)
{ reveal(set_up); reveal(now_cost); reveal(pays);
    let t = tours(a);
    lem_quiet(a, b, t);
    lem_repr_unique(b, t);
    assert(entries_ok(b, t)) by {
        reveal(entries_ok); reveal(stamps_same);
        assert forall|r: int, c: int| 0 <= r < b.m() && 0 < c < b.n() implies bi(b, r, c).last_calculated <= b.move_count && (b.routes@[r].last_modified <= (#[trigger] bi(b, r, c)).last_calculated ==> best3(bi(b, r, c), all_places(&b.ctx, t[r], c))) by {
            assert(bi(a, r, c) == bi(b, r, c)); assert(b.routes@[r].last_modified == a.routes@[r].last_modified);
        }
    }
}
pub proof fn lem_shuffled(h0: &LocalSearch, a: &LocalSearch, b: &LocalSearch)
    requires searching(h0, a), rearranged(a.customers@, b.customers@), *b == (LocalSearch { customers: b.customers, ..*a })
    ensures searching(h0, b), now_cost(b) == now_cost(a)
{ reveal(set_up); reveal(now_cost); reveal(pays);
    assert(annotated(a, b)) by { reveal(quiet_nodes); reveal(quiet_routes); reveal(stamps_same); assert forall|q: Ptr| a.live(q) implies #[trigger] b.nd(q) == a.nd(q) by { } }
    let q = choose|q: Seq<int>| permuted_by(a.customers@, b.customers@, q);
    assert(cust_ok(b)) by { assert forall|i: int| 0 <= i < b.customers@.len() implies 0 < #[trigger] b.customers@[i] < b.n() by { assert(b.customers@[i] == a.customers@[q[i]]); } }
    lem_noted(h0, a, b);
}
pub proof fn lem_relisted(h0: &LocalSearch, a: &LocalSearch, b: &LocalSearch)
    requires searching(h0, a), b.correlation.n() == a.correlation.n(), *b == (LocalSearch { correlation: b.correlation, ..*a })
    ensures searching(h0, b), now_cost(b) == now_cost(a)
{ reveal(set_up); reveal(now_cost); reveal(pays);
    assert(annotated(a, b)) by { reveal(quiet_nodes); reveal(quiet_routes); reveal(stamps_same); assert forall|q: Ptr| a.live(q) implies #[trigger] b.nd(q) == a.nd(q) by { } }
    lem_noted(h0, a, b);
}
pub proof fn lem_node_noted(h0: &LocalSearch, a: &LocalSearch, b: &LocalSearch, p: Ptr)
    requires searching(h0, a), a.live(p), same_but_nodes(*a, *b), b.routes@ == a.routes@, forall|q: Ptr| a.live(q) ==> #[trigger] b.nd(q) == (if q == p { LinkNode { last_tested: b.nd(p).last_tested, ..a.nd(p) } } else { a.nd(q) })
    ensures searching(h0, b), now_cost(b) == now_cost(a)
{ reveal(set_up); reveal(now_cost); reveal(pays);
    assert(annotated(a, b)) by { reveal(quiet_nodes); reveal(quiet_routes); reveal(stamps_same); }
    lem_noted(h0, a, b);
}
pub proof fn lem_route_noted(h0: &LocalSearch, a: &LocalSearch, b: &LocalSearch, r: int)
    requires searching(h0, a), 0 <= r < a.m(), same_but_nodes(*a, *b), b.nodes@ == a.nodes@, b.start_depots@ == a.start_depots@, b.end_depots@ == a.end_depots@,
        b.routes@ == a.routes@.update(r, LinkRoute { last_tested_swap_star: b.routes@[r].last_tested_swap_star, ..a.routes@[r] })
    ensures searching(h0, b), now_cost(b) == now_cost(a)
{ reveal(set_up); reveal(now_cost); reveal(pays);
    assert(annotated(a, b)) by { reveal(quiet_nodes); reveal(quiet_routes); reveal(stamps_same); assert forall|q: Ptr| a.live(q) implies #[trigger] b.nd(q) == a.nd(q) by { } }
    lem_noted(h0, a, b);
}
// a move that pays
#[verifier::opaque]
pub open spec fn pays(h: &LocalSearch, m: &AnyMove, u: Ptr, v: Ptr) -> bool {
    pair(h, tours(h), u, v) && (m.far() || customer(v, h.n())) && m.fits(h, tours(h), u, v) && xch_ok(tours(h), m.xch(h, tours(h), u, v)) && xch_gain(h, tours(h), m.xch(h, tours(h), u, v)) < -EPSILON_spec()
}
pub proof fn lem_pays(h: &LocalSearch, m: &AnyMove, u: Ptr, v: Ptr)
    requires pays(h, m, u, v), h.move_count < i32::MAX
    ensures tours(&bumped(*h)) == tours(h), pair(&bumped(*h), tours(h), u, v), m.fits(&bumped(*h), tours(h), u, v), m.xch(&bumped(*h), tours(h), u, v) == m.xch(h, tours(h), u, v)
{ reveal(set_up); reveal(now_cost); reveal(pays);
    let t = tours(h);
    lem_bumped(h, t); lem_repr_unique(&bumped(*h), t);
    lem_pair(h, t, u, v);
    lem_bumped_move(m, h, t, u, v);
}
pub proof fn lem_moved(h0: &LocalSearch, a: &LocalSearch, b: &LocalSearch, m: &AnyMove, u: Ptr, v: Ptr)
    requires searching(h0, a), pays(a, m, u, v), a.move_count < i32::MAX,
        ({ let x = m.xch(a, tours(a), u, v); finished(bumped(*a), *b, exchanged(tours(a), x), x.r1, x.r2) })
    ensures searching(h0, b), now_cost(b) <= now_cost(a) - EPSILON_spec(), b.move_count == a.move_count + 1, b.customers == a.customers, b.correlation == a.correlation
{ reveal(set_up); reveal(now_cost); reveal(pays);
    let t = tours(a); let x = m.xch(a, t, u, v); let w = exchanged(t, x); let c = bumped(*a);
    lem_repr_unique(b, w);
    lem_gain(a, t, x);
    lem_entries_kept(a, &c, b, t, w, x.r1, x.r2);
}
pub proof fn lem_starred(h0: &LocalSearch, a: &LocalSearch, b: &LocalSearch, r1: int, r2: int, m: Deal)
    requires searching(h0, a), star_done(a, b, tours(a), r1, r2, m), a.move_count < i32::MAX
    ensures searching(h0, b), now_cost(b) <= now_cost(a) - EPSILON_spec(), b.move_count == a.move_count + 1
{ reveal(set_up); reveal(now_cost); reveal(pays);
    let w = dealt(tours(a), r1, r2, m);
    lem_repr_unique(b, w);
}
pub proof fn lem_unstarred(h0: &LocalSearch, a: &LocalSearch, b: &LocalSearch)
    requires searching(h0, a), quiet(a, b), same_setup(a, b), b.move_count == a.move_count, entries_ok(b, tours(a))
    ensures searching(h0, b), now_cost(b) == now_cost(a)
{ reveal(set_up); reveal(now_cost); reveal(pays); let t = tours(a); lem_quiet(a, b, t); lem_repr_unique(b, t); }
pub proof fn lem_cust_pair(h: &LocalSearch, u: usize, v: usize)
    requires set_up(h), 0 < u < h.n(), 0 < v < h.n(), u != v
    ensures pair(h, tours(h), Ptr::Node(u), Ptr::Node(v)), h.live_route(h.nd(Ptr::Node(u)).route), h.live_route(h.nd(Ptr::Node(v)).route), h.live(h.nd(Ptr::Node(v)).predecessor)
{ reveal(set_up); reveal(now_cost); reveal(pays);
    let t = tours(h);
    lem_pair(h, t, Ptr::Node(u), Ptr::Node(v));
    let v = Ptr::Node(v);
    lem_pos(h, t, rt(h, v), ps(h, v) - 1);
}
pub proof fn lem_depot_pair(h: &LocalSearch, u: usize, r: usize)
    requires set_up(h), 0 < u < h.n(), r < h.m()
    ensures pair(h, tours(h), Ptr::Node(u), Ptr::Start(r)), h.routes@[r as int].start_depot == Ptr::Start(r)
{ reveal(set_up); reveal(now_cost); reveal(pays); let t = tours(h); assert(repr(h, t)); lem_route(h, t, r as int); }
pub proof fn lem_cust_live(h: &LocalSearch, u: usize)
    requires set_up(h), 0 < u < h.n()
    ensures h.live_route(h.nd(Ptr::Node(u)).route)
{ reveal(set_up); reveal(now_cost); reveal(pays); let t = tours(h); let p = Ptr::Node(u); lem_cust(h, t, p); lem_pos(h, t, rt(h, p), ps(h, p)); }
pub proof fn lem_sectors(h: &LocalSearch, r: int)
    requires set_up(h), 0 <= r < h.m()
    ensures h.routes@[r].num_customers > 0 ==> h.routes@[r].sector.wf()
{ reveal(set_up); reveal(now_cost); reveal(pays); lem_route(h, tours(h), r); }
pub open spec fn basics(h: &LocalSearch) -> bool {
    h.granularity >= 1 && h.correlation.n() == h.n() && cust_ok(h) && empties_in(h) && far_ok(&h.moves) && h.move_count >= 0 && valid(h) && detours_finite(&h.ctx) && entries_ok(h, tours(h)) && h.m() <= usize::MAX && h.n() <= usize::MAX
}
pub proof fn lem_basics(h: &LocalSearch)
    requires set_up(h)
    ensures basics(h)
{ reveal(set_up); assert(h.m() == h.routes.len()); assert(h.n() == h.nodes.len()); }
// the predicted change of a move tells whether it pays
pub proof fn lem_does_pay(h: &LocalSearch, m: &AnyMove, u: Ptr, v: Ptr, r: real)
    requires pair(h, tours(h), u, v), m.far() || customer(v, h.n()), r < -EPSILON_spec(),
        r == (if m.fits(h, tours(h), u, v) { xch_gain(h, tours(h), m.xch(h, tours(h), u, v)) } else { 0real }), m.fits(h, tours(h), u, v) ==> xch_ok(tours(h), m.xch(h, tours(h), u, v))
    ensures pays(h, m, u, v)
{ reveal(pays); }
