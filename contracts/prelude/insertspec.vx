@raw
// ---- the three cheapest of a list of places
pub struct Place { pub cost: real, pub at: Ptr }
pub open spec fn place_of(l: InsertLocation) -> Place { Place { cost: l.cost@, at: l.node } }
// q names the places kept, cheapest first
pub open spec fn picks(b: ThreeBestInserts, l: Seq<Place>, q: Seq<int>) -> bool {
    &&& q.len() == imin(3, l.len() as int) && (forall|i: int, j: int| 0 <= i < j < q.len() ==> q[i] != q[j])
    &&& (forall|i: int| 0 <= i < q.len() ==> 0 <= #[trigger] q[i] < l.len() && place_of(b.locations@[i]) == l[q[i]])
    &&& b.locations@[0].cost@ <= b.locations@[1].cost@ <= b.locations@[2].cost@
    &&& (forall|i: int| q.len() <= i < 3 ==> (#[trigger] b.locations@[i]).node == Ptr::Null && b.locations@[i].cost@ == inf_spec())
    &&& (forall|m: int| 0 <= m < l.len() && !q.contains(m) ==> (#[trigger] l[m]).cost >= b.locations@[2].cost@)
}
pub open spec fn best3(b: ThreeBestInserts, l: Seq<Place>) -> bool { exists|q: Seq<int>| picks(b, l, q) }
pub open spec fn wiped(b: ThreeBestInserts) -> bool { forall|i: int| 0 <= i < 3 ==> (#[trigger] b.locations@[i]).node == Ptr::Null && b.locations@[i].cost@ == inf_spec() }
pub proof fn lem_best_none(b: ThreeBestInserts)
    requires wiped(b)
    ensures best3(b, Seq::empty())
{ assert(picks(b, Seq::empty(), Seq::empty())); }
// the places kept after one more came: it takes slot k, the ones behind move on
pub open spec fn slot(b: ThreeBestInserts, c: ThreeBestInserts, p: Place, k: int) -> bool {
    let (x, y) = (b.locations@, c.locations@);
    &&& 0 <= k <= 3 && (k > 0 ==> x[k - 1].cost@ <= p.cost) && (k < 3 ==> p.cost <= x[k].cost@)
    &&& (k == 0 ==> place_of(y[0]) == p && y[1] == x[0] && y[2] == x[1]) && (k == 1 ==> y[0] == x[0] && place_of(y[1]) == p && y[2] == x[1])
    &&& (k == 2 ==> y[0] == x[0] && y[1] == x[1] && place_of(y[2]) == p) && (k == 3 ==> y == x)
}
pub proof fn lem_best_more(b: ThreeBestInserts, c: ThreeBestInserts, l: Seq<Place>, p: Place)
    requires best3(b, l), slot(b, c, p, 0) || slot(b, c, p, 1) || slot(b, c, p, 2) || slot(b, c, p, 3), p.cost < inf_spec()
    ensures best3(c, l.push(p))
{
    let k = choose|k: int| slot(b, c, p, k);
    let q = choose|q: Seq<int>| picks(b, l, q);
    let n = l.len() as int; let m = l.push(p); let x = b.locations@;
    assert(q.len() > 0 ==> place_of(x[0]) == l[q[0]]); assert(q.len() > 1 ==> place_of(x[1]) == l[q[1]]); assert(q.len() > 2 ==> place_of(x[2]) == l[q[2]]);
    assert(q.len() <= 1 ==> x[1].node == Ptr::Null && x[1].cost@ == inf_spec()); assert(q.len() == 0 ==> x[0].node == Ptr::Null && x[0].cost@ == inf_spec()); assert(q.len() <= 2 ==> x[2].node == Ptr::Null && x[2].cost@ == inf_spec());
    let r = if k == 3 { q } else if k == 2 { q.subrange(0, 2).push(n) }
        else if k == 1 { let z = seq![q[0], n]; if q.len() > 1 { z.push(q[1]) } else { z } }
        else { let z = seq![n]; let z = if q.len() > 0 { z.push(q[0]) } else { z }; if q.len() > 1 { z.push(q[1]) } else { z } };
    let y = c.locations@;
    assert(r.len() == imin(3, n + 1));
    assert(forall|i: int| 0 <= i < r.len() ==> 0 <= #[trigger] r[i] < m.len() && place_of(y[i]) == m[r[i]]);
    assert(forall|i: int| r.len() <= i < 3 ==> (#[trigger] y[i]).node == Ptr::Null && y[i].cost@ == inf_spec());
    assert forall|j: int| 0 <= j < m.len() && !r.contains(j) implies (#[trigger] m[j]).cost >= y[2].cost@ by {
        assert(r.len() > 0 ==> r.contains(r[0])); assert(r.len() > 1 ==> r.contains(r[1])); assert(r.len() > 2 ==> r.contains(r[2]));
        if j < n {
            assert(m[j] == l[j]);
            if q.contains(j) { let i = choose|i: int| 0 <= i < q.len() && q[i] == j; assert(i == 0 || i == 1 || i == 2); }
        }
    }
    assert(picks(c, m, r));
}
pub open spec fn ix(p: Ptr) -> int { p->Route_0 as int }
// ---- the places of a tour for customer c
pub open spec fn ins_cost(ctx: &Context, s: Tour, c: int, k: int) -> real { ctx.d(num(s[k]), c) + ctx.d(c, num(s[k + 1])) - ctx.d(num(s[k]), num(s[k + 1])) }
pub open spec fn places(ctx: &Context, s: Tour, c: int, k: int) -> Seq<Place> { Seq::new(k as nat, |i: int| Place { cost: ins_cost(ctx, s, c, i), at: s[i] }) }
pub open spec fn all_places(ctx: &Context, s: Tour, c: int) -> Seq<Place> { places(ctx, s, c, s.len() - 1) }
pub open spec fn removal(ctx: &Context, s: Tour, k: int) -> real { ctx.d(num(s[k - 1]), num(s[k + 1])) - ctx.d(num(s[k - 1]), num(s[k])) - ctx.d(num(s[k]), num(s[k + 1])) }
// every detour is below the number used as infinity (machine limits; see A1)
#[verifier::opaque]
pub open spec fn detours_finite(ctx: &Context) -> bool { 0real < inf_spec() && forall|i: int, j: int, k: int| 0 <= i < ctx.n() && 0 <= j < ctx.n() && 0 <= k < ctx.n() ==> #[trigger] ctx.d(i, j) + #[trigger] ctx.d(j, k) - ctx.d(i, k) < inf_spec() }
pub open spec fn bi(h: &LocalSearch, r: int, c: int) -> ThreeBestInserts { h.best_inserts.at(r, c) }
// entries computed after the last change of their route are right
#[verifier::opaque]
pub open spec fn entries_ok(h: &LocalSearch, t: Tours) -> bool {
    forall|r: int, c: int| 0 <= r < h.m() && 0 < c < h.n() ==> bi(h, r, c).last_calculated <= h.move_count && (h.routes@[r].last_modified <= (#[trigger] bi(h, r, c)).last_calculated ==> best3(bi(h, r, c), all_places(&h.ctx, t[r], c)))
}
pub open spec fn stamps_ok(h: &LocalSearch) -> bool { forall|r: int| 0 <= r < h.m() ==> (#[trigger] h.routes@[r]).last_modified <= h.move_count }
// b holds the same tours as a: only notes of the search differ
pub open spec fn quiet(a: &LocalSearch, b: &LocalSearch) -> bool {
    &&& b.ctx == a.ctx && b.granularity == a.granularity && b.moves == a.moves && b.penalty_capacity == a.penalty_capacity && b.empty_routes == a.empty_routes
    &&& b.best_inserts.ok() && b.best_inserts.rows == a.best_inserts.rows && b.best_inserts.cols == a.best_inserts.cols
    &&& b.nodes@.len() == a.nodes@.len() && b.start_depots@.len() == a.start_depots@.len() && b.end_depots@.len() == a.end_depots@.len() && b.routes@.len() == a.routes@.len()
    &&& quiet_nodes(a, b) && quiet_routes(a, b)
}
#[verifier::opaque]
pub open spec fn quiet_nodes(a: &LocalSearch, b: &LocalSearch) -> bool { forall|q: Ptr| a.live(q) ==> (#[trigger] b.nd(q)) == (LinkNode { last_tested: b.nd(q).last_tested, delta_removal: b.nd(q).delta_removal, ..a.nd(q) }) }
#[verifier::opaque]
pub open spec fn quiet_routes(a: &LocalSearch, b: &LocalSearch) -> bool { forall|r: int| 0 <= r < a.m() ==> (#[trigger] b.routes@[r]) == (LinkRoute { last_tested_swap_star: b.routes@[r].last_tested_swap_star, ..a.routes@[r] }) }
pub proof fn lem_quiet_shape(a: &LocalSearch, b: &LocalSearch)
    requires a.shape(), quiet(a, b)
    ensures b.shape()
{
    reveal(quiet_nodes); reveal(quiet_routes);
    assert(b.nodes_ok()) by { reveal(LocalSearch::nodes_ok); assert forall|p: Ptr| b.live(p) implies (#[trigger] b.nd(p)).number == num(p) && in_range(b.nd(p).angle as int) by { assert(a.live(p)); assert(a.nd(p).number == num(p)); } }
    assert(b.routes_ok()) by { reveal(LocalSearch::routes_ok); assert forall|r: int| 0 <= r < b.m() implies (#[trigger] b.routes@[r]).index == r && b.routes@[r].start_depot == Ptr::Start(r as usize) && b.routes@[r].end_depot == Ptr::End(r as usize)
            && (b.routes@[r].sector.nil() || b.routes@[r].sector.wf()) by { assert(a.routes@[r].index == r); } }
    assert(b.starts_ok()) by { reveal(LocalSearch::starts_ok); assert forall|r: int| 0 <= r < b.m() implies (#[trigger] b.start_depots@[r]).cum_distance@ == 0real && b.start_depots@[r].cum_load@ == 0real by {
        let p = Ptr::Start(r as usize); assert(a.m() == a.routes.len()); assert(a.live(p)); assert(b.nd(p) == b.start_depots@[r]); assert(a.start_depots@[r].cum_load@ == 0real); } }
}
pub proof fn lem_quiet_hold(a: &LocalSearch, b: &LocalSearch, r: int, s: Tour)
    requires a.shape(), a.holds(r, s), quiet(a, b)
    ensures b.holds(r, s)
{
    assert forall|i: int| 0 <= i < s.len() implies b.nd(#[trigger] s[i]) == (LinkNode { last_tested: b.nd(s[i]).last_tested, delta_removal: b.nd(s[i]).delta_removal, ..a.nd(s[i]) }) by { reveal(quiet_nodes); lem_at(*a, r, s, i); }
    assert(b.chained(s)) by { reveal(LocalSearch::chained); assert forall|i: int| 0 <= i < s.len() - 1 implies b.succ(#[trigger] s[i]) == s[i + 1] by { assert(a.succ(s[i]) == s[i + 1]); } if s.len() > 0 { let z = s[s.len() - 1]; } }
    assert(b.back(s)) by { reveal(LocalSearch::back); assert forall|i: int| 0 < i < s.len() implies b.pred(#[trigger] s[i]) == s[i - 1] by { assert(a.pred(s[i]) == s[i - 1]); } if s.len() > 0 { let z = s[0]; } }
    assert(b.placed(r, s)) by { reveal(LocalSearch::placed_to); assert forall|i: int| 0 <= i < s.len() implies b.nd(#[trigger] s[i]).route == Ptr::Route(r as usize) && b.nd(s[i]).position == i
            && b.nd(s[i]).cum_distance@ == plen(&b.ctx, s, i) && b.nd(s[i]).cum_load@ == pload(&b.ctx, s, i + 1) by { assert(a.nd(s[i]).position == i); } }
    assert(b.summed(r, s)) by { reveal(quiet_routes); assert(b.routes@[r] == (LinkRoute { last_tested_swap_star: b.routes@[r].last_tested_swap_star, ..a.routes@[r] })); }
}
pub proof fn lem_quiet(a: &LocalSearch, b: &LocalSearch, t: Tours)
    requires repr(a, t), quiet(a, b)
    ensures repr(b, t), tours(b) == t, cost_of(b, t) == cost_of(a, t)
{
    lem_quiet_shape(a, b);
    assert(all_held(b, t)) by { reveal(all_held); assert forall|r: int| 0 <= r < t.len() implies b.holds(r, #[trigger] t[r]) by { lem_quiet_hold(a, b, r, t[r]); } }
    assert(covered(b, t)) by { reveal(covered); assert forall|p: Ptr| customer(p, b.n()) implies #[trigger] on(b, t, p) by { assert(on(a, t, p)); reveal(quiet_nodes); } }
    lem_repr_unique(b, t);
}
// ---- preparing the insertions of the customers of r1 into r2
pub open spec fn prep_frame(a: &LocalSearch, b: &LocalSearch) -> bool {
    &&& b.ctx == a.ctx && b.customers == a.customers && b.correlation == a.correlation && b.granularity == a.granularity && b.move_count == a.move_count
    &&& b.moves == a.moves && b.empty_routes == a.empty_routes && b.penalty_capacity == a.penalty_capacity && b.routes@ == a.routes@
    &&& b.best_inserts.ok() && b.best_inserts.rows == a.best_inserts.rows && b.best_inserts.cols == a.best_inserts.cols
    &&& b.nodes@.len() == a.nodes@.len() && b.start_depots@.len() == a.start_depots@.len() && b.end_depots@.len() == a.end_depots@.len()
}
#[verifier::opaque]
pub open spec fn prep_nodes(a: &LocalSearch, b: &LocalSearch, t: Tours, r1: int, k: int) -> bool {
    forall|q: Ptr| a.live(q) ==> (#[trigger] b.nd(q)) == (LinkNode { delta_removal: b.nd(q).delta_removal, ..a.nd(q) }) && (!at_in(a, t, q, r1, 1, k) ==> b.nd(q) == a.nd(q))
        && (at_in(a, t, q, r1, 1, k) ==> b.nd(q).delta_removal@ == removal(&a.ctx, t[r1], ps(a, q)))
}
#[verifier::opaque]
pub open spec fn prep_entries(a: &LocalSearch, b: &LocalSearch, t: Tours, r1: int, r2: int, k: int) -> bool {
    forall|r: int, c: int| 0 <= r < a.m() && 0 <= c < a.n() ==> (if r == r2 && at_in(a, t, Ptr::Node(c as usize), r1, 1, k) {
            best3(#[trigger] bi(b, r, c), all_places(&a.ctx, t[r2], c)) && bi(b, r, c).last_calculated <= a.move_count } else { bi(b, r, c) == bi(a, r, c) })
}
pub open spec fn prepared(a: &LocalSearch, b: &LocalSearch, t: Tours, r1: int, r2: int, k: int) -> bool { prep_frame(a, b) && prep_nodes(a, b, t, r1, k) && prep_entries(a, b, t, r1, r2, k) }
pub proof fn lem_prep_none(a: &LocalSearch, t: Tours, r1: int, r2: int)
    requires repr(a, t)
    ensures prepared(a, a, t, r1, r2, 1)
{ reveal(prep_nodes); reveal(prep_entries); }
// b -> d: the removal cost of s[k] is noted; d -> c: its entry for r2
pub open spec fn noted(b: &LocalSearch, d: &LocalSearch, p: Ptr) -> bool {
    same_but_nodes(*b, *d) && d.routes@ == b.routes@ && noted_nodes(b, d, p)
}
#[verifier::opaque]
pub open spec fn noted_nodes(b: &LocalSearch, d: &LocalSearch, p: Ptr) -> bool { forall|q: Ptr| b.live(q) ==> #[trigger] d.nd(q) == (if q == p { LinkNode { delta_removal: d.nd(q).delta_removal, ..b.nd(q) } } else { b.nd(q) }) }
pub open spec fn entry_only(d: &LocalSearch, c: &LocalSearch, r2: int, x: int) -> bool {
    &&& prep_frame(d, c) && c.nodes@ == d.nodes@ && c.start_depots@ == d.start_depots@ && c.end_depots@ == d.end_depots@
    &&& entries_kept(d, c, r2, x)
}
#[verifier::opaque]
pub open spec fn entries_kept(d: &LocalSearch, c: &LocalSearch, r2: int, x: int) -> bool { forall|r: int, y: int| 0 <= r < d.m() && 0 <= y < d.n() && !(r == r2 && y == x) ==> #[trigger] bi(c, r, y) == bi(d, r, y) }
pub proof fn lem_nd_same(d: &LocalSearch, c: &LocalSearch, q: Ptr)
    requires d.live(q), c.nodes@ == d.nodes@, c.start_depots@ == d.start_depots@, c.end_depots@ == d.end_depots@
    ensures c.nd(q) == d.nd(q), c.live(q)
{ }
#[verifier::spinoff_prover]
pub proof fn lem_prep_step(a: &LocalSearch, b: &LocalSearch, d: &LocalSearch, c: &LocalSearch, t: Tours, r1: int, r2: int, k: int)
    requires repr(a, t), 0 <= r1 < t.len(), 0 <= r2 < t.len(), r1 != r2, 0 < k < t[r1].len() - 1, prepared(a, b, t, r1, r2, k),
        noted(b, d, t[r1][k]), d.nd(t[r1][k]).delta_removal@ == removal(&a.ctx, t[r1], k),
        entry_only(d, c, r2, num(t[r1][k])), best3(bi(c, r2, num(t[r1][k])), all_places(&a.ctx, t[r2], num(t[r1][k]))), bi(c, r2, num(t[r1][k])).last_calculated <= a.move_count
    ensures prepared(a, c, t, r1, r2, k + 1)
{
    lem_pos(a, t, r1, k);
    let p = t[r1][k];
    reveal(prep_nodes); reveal(prep_entries); reveal(entries_kept); reveal(noted_nodes);
    assert forall|q: Ptr| a.live(q) implies (#[trigger] c.nd(q)) == (LinkNode { delta_removal: c.nd(q).delta_removal, ..a.nd(q) }) && (!at_in(a, t, q, r1, 1, k + 1) ==> c.nd(q) == a.nd(q))
        && (at_in(a, t, q, r1, 1, k + 1) ==> c.nd(q).delta_removal@ == removal(&a.ctx, t[r1], ps(a, q))) by {
        assert(b.live(q) && d.live(q)); lem_nd_same(d, c, q);
        assert(b.nd(q) == (LinkNode { delta_removal: b.nd(q).delta_removal, ..a.nd(q) }));
    }
    assert forall|r: int, x: int| 0 <= r < a.m() && 0 <= x < a.n() implies (if r == r2 && at_in(a, t, Ptr::Node(x as usize), r1, 1, k + 1) {
            best3(#[trigger] bi(c, r, x), all_places(&a.ctx, t[r2], x)) && bi(c, r, x).last_calculated <= a.move_count } else { bi(c, r, x) == bi(a, r, x) }) by {
        if r == r2 && x == num(p) { assert(Ptr::Node(x as usize) == p); }
        else {
            assert(bi(c, r, x) == bi(d, r, x)); assert(bi(d, r, x) == bi(b, r, x));
            if r == r2 && at_in(a, t, Ptr::Node(x as usize), r1, 1, k) { assert(best3(bi(b, r, x), all_places(&a.ctx, t[r2], x))); } else { assert(bi(b, r, x) == bi(a, r, x)); }
        }
    }
}
pub proof fn lem_prep_quiet(a: &LocalSearch, b: &LocalSearch, t: Tours, r1: int, r2: int, k: int)
    requires repr(a, t), prepared(a, b, t, r1, r2, k)
    ensures quiet(a, b), repr(b, t), tours(b) == t
{
    assert(quiet_nodes(a, b)) by { reveal(quiet_nodes); reveal(prep_nodes); }
    assert(quiet_routes(a, b)) by { reveal(quiet_routes); }
    lem_quiet(a, b, t);
}
// not written yet: the entry is the old one
pub proof fn lem_prep_entry(a: &LocalSearch, b: &LocalSearch, t: Tours, r1: int, r2: int, k: int)
    requires repr(a, t), entries_ok(a, t), 0 <= r1 < t.len(), 0 <= r2 < t.len(), r1 != r2, 0 < k < t[r1].len() - 1, prepared(a, b, t, r1, r2, k)
    ensures ({ let c = num(t[r1][k]); let e = bi(b, r2, c); e == bi(a, r2, c) && e.last_calculated <= a.move_count && (b.routes@[r2].last_modified <= e.last_calculated ==> best3(e, all_places(&a.ctx, t[r2], c))) }),
        b.nd(t[r1][k]) == a.nd(t[r1][k])
{
    lem_pos(a, t, r1, k);
    reveal(prep_nodes); reveal(prep_entries); reveal(entries_ok);
    let c = num(t[r1][k]);
    assert(Ptr::Node(c as usize) == t[r1][k]);
    let e = bi(b, r2, c); let e0 = bi(a, r2, c);
}
pub proof fn lem_prep_entries_ok(a: &LocalSearch, b: &LocalSearch, t: Tours, r1: int, r2: int, k: int)
    requires repr(a, t), entries_ok(a, t), prepared(a, b, t, r1, r2, k)
    ensures entries_ok(b, t)
{
    reveal(entries_ok); reveal(prep_entries);
    assert forall|r: int, c: int| 0 <= r < b.m() && 0 < c < b.n() implies bi(b, r, c).last_calculated <= b.move_count && (b.routes@[r].last_modified <= (#[trigger] bi(b, r, c)).last_calculated ==> best3(bi(b, r, c), all_places(&b.ctx, t[r], c))) by { let e = bi(a, r, c); }
}
pub proof fn lem_places_next(ctx: &Context, s: Tour, c: int, k: int)
    requires 0 <= k < s.len() - 1
    ensures places(ctx, s, c, k).push(Place { cost: ins_cost(ctx, s, c, k), at: s[k] }) == places(ctx, s, c, k + 1), places(ctx, s, c, 0) == Seq::<Place>::empty()
{ assert(places(ctx, s, c, k).push(Place { cost: ins_cost(ctx, s, c, k), at: s[k] }) =~= places(ctx, s, c, k + 1)); assert(places(ctx, s, c, 0) =~= Seq::<Place>::empty()); }

pub proof fn lem_noted_quiet(b: &LocalSearch, d: &LocalSearch, t: Tours, p: Ptr)
    requires repr(b, t), noted(b, d, p)
    ensures quiet(b, d), repr(d, t)
{
    assert(quiet_nodes(b, d)) by { reveal(quiet_nodes); reveal(noted_nodes); }
    assert(quiet_routes(b, d)) by { reveal(quiet_routes); }
    lem_quiet(b, d, t);
}
pub proof fn lem_entry_quiet(d: &LocalSearch, c: &LocalSearch, t: Tours, r2: int, x: int)
    requires repr(d, t), entry_only(d, c, r2, x)
    ensures quiet(d, c), repr(c, t)
{
    assert(quiet_nodes(d, c)) by { reveal(quiet_nodes); }
    assert(quiet_routes(d, c)) by { reveal(quiet_routes); }
    lem_quiet(d, c, t);
}
// one detour is below infinity
pub proof fn lem_prep_at(a: &LocalSearch, d: &LocalSearch, c: &LocalSearch, t: Tours, r2: int, j: int, x: int)
    requires repr(a, t), detours_finite(&a.ctx), 0 <= r2 < t.len(), 0 <= j < t[r2].len() - 1, 0 < x < a.n()
    ensures ins_cost(&a.ctx, t[r2], x, j) < inf_spec()
{
    reveal(detours_finite);
    lem_pos(a, t, r2, j); lem_pos(a, t, r2, j + 1);
    let (p, q) = (num(t[r2][j]), num(t[r2][j + 1]));
    assert(a.ctx.d(p, x) + a.ctx.d(x, q) - a.ctx.d(p, q) < inf_spec());
}

pub proof fn lem_fill(d: &LocalSearch, a: &LocalSearch, c: &LocalSearch, t: Tours, r2: int, x: int)
    requires repr(d, t), entry_only(d, a, r2, x), 0 <= r2 < d.m(), 0 <= x < d.n(), *c == (LocalSearch { best_inserts: c.best_inserts, ..*a }),
        c.best_inserts.rows == a.best_inserts.rows, c.best_inserts.cols == a.best_inserts.cols, c.best_inserts.g@ == a.best_inserts.g@.update(r2, a.best_inserts.g@[r2].update(x, bi(c, r2, x)))
    ensures entry_only(d, c, r2, x)
{ reveal(entries_kept); assert forall|r: int, y: int| 0 <= r < d.m() && 0 <= y < d.n() && !(r == r2 && y == x) implies #[trigger] bi(c, r, y) == bi(d, r, y) by { assert(bi(a, r, y) == bi(d, r, y)); } }

pub proof fn lem_entry_self(d: &LocalSearch, r2: int, x: int) requires d.shape() ensures entry_only(d, d, r2, x) { reveal(entries_kept); }

// ---- customer c into the tour s from which the customer at j is taken: right behind place k
pub open spec fn in_place(ctx: &Context, s: Tour, c: int, j: int) -> real { ctx.d(num(s[j - 1]), c) + ctx.d(c, num(s[j + 1])) - ctx.d(num(s[j - 1]), num(s[j + 1])) }
pub open spec fn land_cost(ctx: &Context, s: Tour, c: int, j: int, k: int) -> real { if k == j - 1 { in_place(ctx, s, c, j) } else { ins_cost(ctx, s, c, k) } }
pub open spec fn fits(s: Tour, j: int, k: int) -> bool { 0 <= k < s.len() - 1 && k != j }
pub open spec fn lands_at(ctx: &Context, s: Tour, c: int, j: int, r: (Ptr, R), k: int) -> bool { fits(s, j, k) && r.0 == s[k] && r.1@ == land_cost(ctx, s, c, j, k) }
// a place that fits, its cost, and no place that fits is cheaper (up to the tolerance)
pub open spec fn lands(ctx: &Context, s: Tour, c: int, j: int, r: (Ptr, R)) -> bool {
    (exists|k: int| lands_at(ctx, s, c, j, r, k)) && forall|k: int| fits(s, j, k) ==> r.1@ <= #[trigger] land_cost(ctx, s, c, j, k) + EPSILON_spec()
}
pub proof fn lem_num_eq(s: Tour, r: int, n: int, j: int, k: int)
    requires well_formed(s, r, n), distinct(s), 0 < j < s.len() - 1, 0 <= k < s.len()
    ensures (num(s[k]) == num(s[j])) == (k == j)
{ reveal(distinct); lem_is_customer(s, r, n, j); lem_is_customer(s, r, n, k); reveal(well_formed); }
pub proof fn lem_pick(h: &LocalSearch, t: Tours, r: int, b: ThreeBestInserts, c: int, q: Seq<int>, j: int, i: int)
    requires repr(h, t), 0 <= r < t.len(), 0 < j < t[r].len() - 1, picks(b, all_places(&h.ctx, t[r], c), q), 0 <= i < 3
    ensures q.len() == imin(3, t[r].len() - 1), ({ let p = b.locations@[i].node; let k = q[i]; let s = t[r]; if i < q.len() {
        0 <= k < s.len() - 1 && p == s[k] && p != Ptr::Null && h.live(p) && h.nd(p).number == num(p) && (num(p) == num(s[j])) == (k == j) && h.succ(p) == s[k + 1] && h.live(s[k + 1])
        && h.nd(s[k + 1]).number == num(s[k + 1]) && (num(s[k + 1]) == num(s[j])) == (k + 1 == j) && b.locations@[i].cost@ == ins_cost(&h.ctx, s, c, k)
    } else { p == Ptr::Null } })
{
    let s = t[r]; let l = all_places(&h.ctx, s, c);
    lem_route(h, t, r);
    if i < q.len() { assert(place_of(b.locations@[i]) == l[q[i]]); lem_pos(h, t, r, q[i]); lem_pos(h, t, r, q[i] + 1); lem_num_eq(s, r, h.n(), j, q[i]); lem_num_eq(s, r, h.n(), j, q[i] + 1); }
}
pub proof fn lem_lands(ctx: &Context, s: Tour, b: ThreeBestInserts, c: int, q: Seq<int>, j: int, r: (Ptr, R))
    requires picks(b, all_places(ctx, s, c), q), 0 < j < s.len() - 1, s.len() >= 3,
        ({ let e = in_place(ctx, s, c, j); let x = b.locations@; let ok = |i: int| i < q.len() && q[i] != j && q[i] != j - 1;
            let i = if ok(0) { 0int } else if ok(1) { 1 } else if q.len() > 2 { 2 } else { 3 };
            if i == 3 || e < x[i].cost@ - EPSILON_spec() { r.0 == s[j - 1] && r.1@ == e } else { r.0 == x[i].node && r.1@ == x[i].cost@ } }),
    ensures lands(ctx, s, c, j, r)
{
    let l = all_places(ctx, s, c); let x = b.locations@;
    assert(place_of(x[0]) == l[q[0]]); assert(q.len() > 1 ==> place_of(x[1]) == l[q[1]]); assert(q.len() > 2 ==> place_of(x[2]) == l[q[2]]);
    assert(lands_at(ctx, s, c, j, r, j - 1) || lands_at(ctx, s, c, j, r, q[0]) || lands_at(ctx, s, c, j, r, q[1]) || lands_at(ctx, s, c, j, r, q[2]));
    assert forall|k: int| fits(s, j, k) implies r.1@ <= #[trigger] land_cost(ctx, s, c, j, k) + EPSILON_spec() by {
        assert(l[k].cost == ins_cost(ctx, s, c, k));
        if q.contains(k) { let i = choose|i: int| 0 <= i < q.len() && q[i] == k; assert(i == 0 || i == 1 || i == 2); }
        if q.len() <= 2 { 
            assert(q.len() == 2 && l.len() == 2); assert(0 <= q[0] < 2 && 0 <= q[1] < 2);
        }
    }
}

// what a search keeps from beginning to end
pub open spec fn same_setup(a: &LocalSearch, b: &LocalSearch) -> bool {
    b.ctx == a.ctx && b.granularity == a.granularity && b.moves == a.moves && b.penalty_capacity == a.penalty_capacity && b.customers == a.customers && b.correlation == a.correlation
}
// b: before; c: the count went up; d: the routes r1 and r2 were changed
pub proof fn lem_entries_kept(b: &LocalSearch, c: &LocalSearch, d: &LocalSearch, t: Tours, u: Tours, r1: int, r2: int)
    requires entries_ok(b, t), c.best_inserts == b.best_inserts, c.routes@ == b.routes@, c.move_count == b.move_count + 1, c.n() == b.n(), c.ctx == b.ctx, stable(*c, *d), modified(*c, *d, r1, r2),
        t.len() == b.m(), u.len() == t.len(), forall|r: int| 0 <= r < t.len() && r != r1 && r != r2 ==> u[r] == t[r],
    ensures entries_ok(d, u)
{
    reveal(entries_ok);
    assert forall|r: int, x: int| 0 <= r < d.m() && 0 < x < d.n() implies bi(d, r, x).last_calculated <= d.move_count && (d.routes@[r].last_modified <= (#[trigger] bi(d, r, x)).last_calculated ==> best3(bi(d, r, x), all_places(&d.ctx, u[r], x))) by {
        let e = bi(b, r, x); let z = d.routes@[r];
        if r != r1 && r != r2 { assert(u[r] == t[r]); }
    }
}

pub proof fn lem_quiet_trans(a: &LocalSearch, b: &LocalSearch, c: &LocalSearch)
    requires quiet(a, b), quiet(b, c)
    ensures quiet(a, c)
{
    assert(quiet_nodes(a, c)) by { reveal(quiet_nodes); assert forall|q: Ptr| a.live(q) implies (#[trigger] c.nd(q)) == (LinkNode { last_tested: c.nd(q).last_tested, delta_removal: c.nd(q).delta_removal, ..a.nd(q) }) by { assert(b.live(q)); assert(b.nd(q) == (LinkNode { last_tested: b.nd(q).last_tested, delta_removal: b.nd(q).delta_removal, ..a.nd(q) })); } }
    assert(quiet_routes(a, c)) by { reveal(quiet_routes); assert forall|r: int| 0 <= r < a.m() implies (#[trigger] c.routes@[r]) == (LinkRoute { last_tested_swap_star: c.routes@[r].last_tested_swap_star, ..a.routes@[r] }) by { let z = b.routes@[r]; } }
}
pub proof fn lem_inf_pos(ctx: &Context) requires detours_finite(ctx) ensures inf_spec() > 0real { reveal(detours_finite); }
