@raw
// ---- the local search holds the tours t
pub open spec fn rt(h: &LocalSearch, p: Ptr) -> int { h.nd(p).route->Route_0 as int }
pub open spec fn ps(h: &LocalSearch, p: Ptr) -> int { h.nd(p).position as int }
pub open spec fn on(h: &LocalSearch, t: Tours, p: Ptr) -> bool {
    h.live(p) && h.live_route(h.nd(p).route) && 0 <= rt(h, p) < t.len() && 0 <= ps(h, p) < t[rt(h, p)].len() && t[rt(h, p)][ps(h, p)] == p
}
pub open spec fn at_in(h: &LocalSearch, t: Tours, q: Ptr, r: int, lo: int, hi: int) -> bool { on(h, t, q) && rt(h, q) == r && lo <= ps(h, q) < hi }
#[verifier::opaque]
pub open spec fn all_held(h: &LocalSearch, t: Tours) -> bool { forall|r: int| 0 <= r < t.len() ==> h.holds(r, #[trigger] t[r]) }
#[verifier::opaque]
pub open spec fn covered(h: &LocalSearch, t: Tours) -> bool { forall|p: Ptr| customer(p, h.n()) ==> #[trigger] on(h, t, p) }
pub open spec fn repr(h: &LocalSearch, t: Tours) -> bool { h.shape() && t.len() == h.m() && all_held(h, t) && covered(h, t) }
pub open spec fn valid(h: &LocalSearch) -> bool { exists|t: Tours| repr(h, t) }
pub open spec fn tours(h: &LocalSearch) -> Tours { choose|t: Tours| repr(h, t) }
pub open spec fn cost_of(h: &LocalSearch, t: Tours) -> real { tours_cost(&h.ctx, h.penalty_capacity@, t, t.len() as int) }
pub proof fn lem_repr_unique(h: &LocalSearch, t: Tours)
    requires repr(h, t)
    ensures tours(h) == t, valid(h)
{
    let u = tours(h);
    reveal(all_held);
    assert forall|r: int| 0 <= r < t.len() implies t[r] == u[r] by { assert(h.holds(r, t[r]) && h.holds(r, u[r])); lem_chain_unique(h, r, t[r], u[r]); }
    assert(t =~= u);
}
// facts about position k of route r
pub open spec fn pos_facts(h: &LocalSearch, t: Tours, r: int, k: int) -> bool {
    let p = t[r][k];
    &&& h.live(p) && h.nd(p).number == num(p) && 0 <= num(p) < h.n() && (num(p) == 0) == (k == 0 || k == t[r].len() - 1)
    &&& h.nd(p).route == Ptr::Route(r as usize) && h.nd(p).position == k && on(h, t, p) && rt(h, p) == r && ps(h, p) == k
    &&& h.succ(p) == node_at(t[r], k + 1) && h.pred(p) == (if k > 0 { t[r][k - 1] } else { Ptr::Null })
    &&& (p == Ptr::Start(r as usize)) == (k == 0) && (p == Ptr::End(r as usize)) == (k == t[r].len() - 1)
    &&& (0 < k < t[r].len() - 1) == customer(p, h.n())
    &&& h.nd(p).cum_distance@ == plen(&h.ctx, t[r], k) && h.nd(p).cum_load@ == pload(&h.ctx, t[r], k + 1)
}
pub open spec fn route_facts(h: &LocalSearch, t: Tours, r: int) -> bool {
    h.holds(r, t[r]) && h.routes@[r].index == r && h.routes@[r].start_depot == Ptr::Start(r as usize) && h.routes@[r].end_depot == Ptr::End(r as usize)
    && 0 <= r < h.m() && h.m() <= usize::MAX && h.summed(r, t[r]) && t[r].len() >= 2
}
pub proof fn lem_route(h: &LocalSearch, t: Tours, r: int)
    requires repr(h, t), 0 <= r < t.len()
    ensures route_facts(h, t, r), t[r][0] == Ptr::Start(r as usize), t[r][t[r].len() - 1] == Ptr::End(r as usize)
{
    assert(h.holds(r, t[r])) by { reveal(all_held); }
    reveal(LocalSearch::routes_ok);
    assert(h.routes@[r].index == r);
    reveal(well_formed);
    assert(h.m() == h.routes.len());
}
pub proof fn lem_is_customer(s: Tour, r: int, n: int, k: int)
    requires well_formed(s, r, n), 0 <= k < s.len()
    ensures (0 < k < s.len() - 1) == customer(s[k], n), s.len() >= 2
{ reveal(well_formed); if 0 < k < s.len() - 1 { assert(customer(s[k], n)); } }
pub proof fn lem_pos(h: &LocalSearch, t: Tours, r: int, k: int)
    requires repr(h, t), 0 <= r < t.len(), 0 <= k < t[r].len()
    ensures pos_facts(h, t, r, k), route_facts(h, t, r)
{
    lem_route(h, t, r);
    let s = t[r]; let p = s[k];
    lem_at(*h, r, s, k);
    lem_is_customer(s, r, h.n(), k);
    assert(h.nd(p).route == Ptr::Route(r as usize) && h.nd(p).position == k && h.nd(p).cum_distance@ == plen(&h.ctx, s, k) && h.nd(p).cum_load@ == pload(&h.ctx, s, k + 1)) by { reveal(LocalSearch::placed_to); }
    assert(h.pred(p) == (if k > 0 { s[k - 1] } else { Ptr::Null })) by { reveal(LocalSearch::back); }
}
pub proof fn lem_start(h: &LocalSearch, t: Tours, r: int)
    requires repr(h, t), 0 <= r < t.len()
    ensures t[r].len() >= 2, t[r][0] == Ptr::Start(r as usize), t[r][t[r].len() - 1] == Ptr::End(r as usize), on(h, t, Ptr::Start(r as usize)), on(h, t, Ptr::End(r as usize))
{ lem_route(h, t, r); lem_pos(h, t, r, 0); lem_pos(h, t, r, t[r].len() - 1); }
// p is a customer
pub proof fn lem_cust(h: &LocalSearch, t: Tours, p: Ptr)
    requires repr(h, t), customer(p, h.n())
    ensures on(h, t, p), 0 < ps(h, p) < t[rt(h, p)].len() - 1
{ reveal(covered); assert(on(h, t, p)); lem_pos(h, t, rt(h, p), ps(h, p)); }
// ---- moves exchange a stretch of one tour with a (possibly empty) stretch of another or the same tour
pub struct Xch { pub r1: int, pub a1: int, pub b1: int, pub r2: int, pub a2: int, pub b2: int, pub rev: bool }
pub open spec fn rv(s: Tour, f: bool) -> Tour { if f { s.reverse() } else { s } }
pub open spec fn seg1(t: Tours, x: Xch) -> Tour { rv(t[x.r1].subrange(x.a1, x.b1), x.rev) }
pub open spec fn seg2(t: Tours, x: Xch) -> Tour { rv(t[x.r2].subrange(x.a2, x.b2), x.rev) }
pub open spec fn new1(t: Tours, x: Xch) -> Tour {
    if x.r1 != x.r2 { splice(t[x.r1], x.a1, x.b1, seg2(t, x)) } else { splice(splice(t[x.r1], x.a2, x.b2, seg1(t, x)), x.a1, x.b1, seg2(t, x)) }
}
pub open spec fn new2(t: Tours, x: Xch) -> Tour { splice(t[x.r2], x.a2, x.b2, seg1(t, x)) }
pub open spec fn xch_ok(t: Tours, x: Xch) -> bool {
    0 <= x.r1 < t.len() && 0 <= x.r2 < t.len() && 0 < x.a1 <= x.b1 < t[x.r1].len() && 0 < x.a2 <= x.b2 < t[x.r2].len() && (x.r1 == x.r2 ==> x.b1 <= x.a2)
}
pub open spec fn exchanged(t: Tours, x: Xch) -> Tours { if x.r1 != x.r2 { t.update(x.r1, new1(t, x)).update(x.r2, new2(t, x)) } else { t.update(x.r1, new1(t, x)) } }
pub open spec fn balance(a: Tour, b: Tour, c: Tour, d: Tour) -> bool { forall|q: Ptr| #[trigger] cnt(a, q) + cnt(b, q) == cnt(c, q) + cnt(d, q) }
pub proof fn lem_cnt_rv(s: Tour, f: bool, q: Ptr) ensures cnt(rv(s, f), q) == cnt(s, q) { if f { lem_cnt_reverse(s, q); } }
// disjointness and distinctness of the new tours
pub proof fn lem_xch_inter(h: &LocalSearch, t: Tours, x: Xch)
    requires repr(h, t), xch_ok(t, x), x.r1 != x.r2
    ensures distinct(new1(t, x)), distinct(new2(t, x)), well_formed(new1(t, x), x.r1, h.n()), well_formed(new2(t, x), x.r2, h.n()),
        forall|q: Ptr| #[trigger] new1(t, x).contains(q) ==> !new2(t, x).contains(q),
        forall|q: Ptr| (#[trigger] t[x.r1].contains(q) || t[x.r2].contains(q)) == (new1(t, x).contains(q) || new2(t, x).contains(q)),
{
    let (t1, t2, n1, n2) = (t[x.r1], t[x.r2], new1(t, x), new2(t, x));
    reveal(all_held);
    assert(h.holds(x.r1, t1)); assert(h.holds(x.r2, t2));
    assert forall|q: Ptr| true implies #[trigger] cnt(n1, q) + cnt(n2, q) == cnt(t1, q) + cnt(t2, q) by {
        lem_cnt_cut(t1, x.a1, x.b1, seg2(t, x), q); lem_cnt_cut(t2, x.a2, x.b2, seg1(t, x), q);
        lem_cnt_rv(t1.subrange(x.a1, x.b1), x.rev, q); lem_cnt_rv(t2.subrange(x.a2, x.b2), x.rev, q);
    }
    assert forall|q: Ptr| cnt(t1, q) + cnt(t2, q) <= 1 && cnt(n1, q) + cnt(n2, q) <= 1 && cnt(n1, q) >= 0 && cnt(n2, q) >= 0 by {
        lem_cnt(t1, q); lem_cnt(t2, q); lem_cnt(n1, q); lem_cnt(n2, q); lem_cnt_distinct(t1, q); lem_cnt_distinct(t2, q);
        if t1.contains(q) && t2.contains(q) {
            let i = choose|i: int| 0 <= i < t1.len() && t1[i] == q; let j = choose|j: int| 0 <= j < t2.len() && t2[j] == q;
            lem_pos(h, t, x.r1, i); lem_pos(h, t, x.r2, j);
        }
        assert(cnt(n1, q) + cnt(n2, q) == cnt(t1, q) + cnt(t2, q));
    }
    assert forall|q: Ptr| #[trigger] n1.contains(q) implies !n2.contains(q) by { lem_cnt(n1, q); lem_cnt(n2, q); }
    assert forall|q: Ptr| (#[trigger] t1.contains(q) || t2.contains(q)) == (n1.contains(q) || n2.contains(q)) by { lem_cnt(n1, q); lem_cnt(n2, q); lem_cnt(t1, q); lem_cnt(t2, q); assert(cnt(n1, q) + cnt(n2, q) == cnt(t1, q) + cnt(t2, q)); }
    assert forall|q: Ptr| #[trigger] cnt(n1, q) <= 1 by { }
    assert forall|q: Ptr| #[trigger] cnt(n2, q) <= 1 by { }
    lem_distinct_from_cnt(n1); lem_distinct_from_cnt(n2);
    reveal(well_formed);
    assert(n1.len() >= 2 && n2.len() >= 2);
    assert forall|i: int| 0 < i < n1.len() - 1 implies customer(#[trigger] n1[i], h.n()) by {
        let g = x.b2 - x.a2;
        if i < x.a1 { assert(n1[i] == t1[i]); } else if i < x.a1 + g { let k = if x.rev { x.b2 - 1 - (i - x.a1) } else { x.a2 + (i - x.a1) }; assert(n1[i] == t2[k]); } else { assert(n1[i] == t1[i - g - x.a1 + x.b1]); }
    }
    assert forall|i: int| 0 < i < n2.len() - 1 implies customer(#[trigger] n2[i], h.n()) by {
        let g = x.b1 - x.a1;
        if i < x.a2 { assert(n2[i] == t2[i]); } else if i < x.a2 + g { let k = if x.rev { x.b1 - 1 - (i - x.a2) } else { x.a1 + (i - x.a2) }; assert(n2[i] == t1[k]); } else { assert(n2[i] == t2[i - g - x.a2 + x.b2]); }
    }
    assert(n1[0] == t1[0]); assert(n2[0] == t2[0]);
    assert(n1[n1.len() - 1] == t1[t1.len() - 1]); assert(n2[n2.len() - 1] == t2[t2.len() - 1]);
}
pub proof fn lem_xch_intra(h: &LocalSearch, t: Tours, x: Xch)
    requires repr(h, t), xch_ok(t, x), x.r1 == x.r2
    ensures distinct(new1(t, x)), well_formed(new1(t, x), x.r1, h.n()),
        forall|q: Ptr| #[trigger] t[x.r1].contains(q) == new1(t, x).contains(q),
{
    let (t1, n1) = (t[x.r1], new1(t, x));
    let m1 = splice(t1, x.a2, x.b2, seg1(t, x));
    reveal(all_held);
    assert(h.holds(x.r1, t1));
    assert(m1.subrange(x.a1, x.b1) =~= t1.subrange(x.a1, x.b1));
    assert forall|q: Ptr| #[trigger] cnt(n1, q) == cnt(t1, q) by {
        lem_cnt_cut(t1, x.a2, x.b2, seg1(t, x), q); lem_cnt_cut(m1, x.a1, x.b1, seg2(t, x), q);
        lem_cnt_rv(t1.subrange(x.a1, x.b1), x.rev, q); lem_cnt_rv(t1.subrange(x.a2, x.b2), x.rev, q);
    }
    assert forall|q: Ptr| #[trigger] cnt(n1, q) <= 1 by { lem_cnt_distinct(t1, q); assert(cnt(n1, q) == cnt(t1, q)); }
    lem_distinct_from_cnt(n1);
    assert forall|q: Ptr| #[trigger] t1.contains(q) == n1.contains(q) by { lem_cnt(n1, q); lem_cnt(t1, q); assert(cnt(n1, q) == cnt(t1, q)); }
    reveal(well_formed);
    let w = x.b1 - x.a1; let g = x.b2 - x.a2;
    assert(m1.len() == t1.len() + w - g); assert(n1.len() == t1.len());
    assert forall|i: int| 0 < i < n1.len() - 1 implies customer(#[trigger] n1[i], h.n()) by {
        if i < x.a1 { assert(n1[i] == t1[i]); }
        else if i < x.a1 + g { let k = if x.rev { x.b2 - 1 - (i - x.a1) } else { x.a2 + (i - x.a1) }; assert(n1[i] == t1[k]); }
        else { let j = i - g + w; assert(n1[i] == m1[j]);
            if j < x.a2 { assert(m1[j] == t1[j]); } else if j < x.a2 + w { let k = if x.rev { x.b1 - 1 - (j - x.a2) } else { x.a1 + (j - x.a2) }; assert(m1[j] == t1[k]); } else { assert(m1[j] == t1[j - w + g]); } }
    }
    assert(n1[0] == t1[0]);
    assert(m1[m1.len() - 1] == t1[t1.len() - 1]); assert(n1[n1.len() - 1] == m1[m1.len() - 1]);
}
// ---- after the links have been changed and the routes renewed
// a and b differ in links only, and only inside routes r1 and r2
#[verifier::opaque]
pub open spec fn relinked(a: LocalSearch, b: LocalSearch, t1: Tour, t2: Tour) -> bool {
    forall|q: Ptr| a.live(q) ==> (#[trigger] b.nd(q) == LinkNode { successor: b.nd(q).successor, predecessor: b.nd(q).predecessor, ..a.nd(q) })
        && (!t1.contains(q) && !t2.contains(q) ==> b.nd(q) == a.nd(q))
}
// what neither links nor routes hold
pub open spec fn stable(a: LocalSearch, b: LocalSearch) -> bool {
    frame(a, b) && (forall|q: Ptr| a.live(q) ==> node_rest(a.nd(q), #[trigger] b.nd(q))) && (forall|r: int| 0 <= r < a.m() ==> (#[trigger] b.routes@[r]).last_tested_swap_star == a.routes@[r].last_tested_swap_star)
    && empties_kept(a, b)
}
pub open spec fn empties_kept(a: LocalSearch, b: LocalSearch) -> bool { forall|q: usize| q >= a.m() ==> #[trigger] b.empty_routes@.contains(q) == a.empty_routes@.contains(q) }
pub open spec fn modified(a: LocalSearch, b: LocalSearch, r1: int, r2: int) -> bool {
    forall|r: int| 0 <= r < a.m() ==> (#[trigger] b.routes@[r]).last_modified == (if r == r1 || r == r2 { a.move_count } else { a.routes@[r].last_modified })
}
pub proof fn lem_shape_linked(a: LocalSearch, b: LocalSearch)
    requires a.shape(), same_but_nodes(a, b), b.routes@ == a.routes@,
        forall|q: Ptr| a.live(q) ==> (#[trigger] b.nd(q)) == (LinkNode { successor: b.nd(q).successor, predecessor: b.nd(q).predecessor, ..a.nd(q) })
    ensures b.shape()
{
    reveal(LocalSearch::nodes_ok); reveal(LocalSearch::routes_ok); reveal(LocalSearch::starts_ok);
    assert forall|p: Ptr| b.live(p) implies (#[trigger] b.nd(p)).number == num(p) && in_range(b.nd(p).angle as int) by { assert(a.live(p)); assert(a.nd(p).number == num(p)); }
    assert forall|r: int| 0 <= r < b.m() implies (#[trigger] b.start_depots@[r]).cum_distance@ == 0real && b.start_depots@[r].cum_load@ == 0real by {
        let p = Ptr::Start(r as usize); assert(a.live(p)); assert(b.nd(p) == b.start_depots@[r]); assert(a.start_depots@[r].cum_load@ == 0real);
    }
}
pub open spec fn nd_same(x: &LocalSearch, y: &LocalSearch, s: Tour) -> bool { forall|i: int| 0 <= i < s.len() ==> y.nd(#[trigger] s[i]) == x.nd(s[i]) }
pub proof fn lem_hold_frame(x: &LocalSearch, y: &LocalSearch, r: int, s: Tour)
    requires x.holds(r, s), frame(*x, *y), nd_same(x, y, s), y.routes@[r] == x.routes@[r], y.empty_routes@.contains(r as usize) == x.empty_routes@.contains(r as usize)
    ensures y.holds(r, s)
{
    assert(y.chained(s)) by { reveal(LocalSearch::chained); assert forall|i: int| 0 <= i < s.len() - 1 implies y.succ(#[trigger] s[i]) == s[i + 1] by { assert(x.succ(s[i]) == s[i + 1]); } if s.len() > 0 { assert(y.nd(s[s.len() - 1]) == x.nd(s[s.len() - 1])); } }
    assert(y.back(s)) by { reveal(LocalSearch::back); assert forall|i: int| 0 < i < s.len() implies y.pred(#[trigger] s[i]) == s[i - 1] by { assert(x.pred(s[i]) == s[i - 1]); } if s.len() > 0 { assert(y.nd(s[0]) == x.nd(s[0])); } }
    assert(y.placed(r, s)) by { reveal(LocalSearch::placed_to); assert forall|i: int| 0 <= i < s.len() implies y.nd(#[trigger] s[i]).route == Ptr::Route(r as usize) && y.nd(s[i]).position == i
            && y.nd(s[i]).cum_distance@ == plen(&y.ctx, s, i) && y.nd(s[i]).cum_load@ == pload(&y.ctx, s, i + 1) by { assert(y.nd(s[i]) == x.nd(s[i])); } }
}
pub proof fn lem_tour_len(s: Tour, r: int, n: int) requires well_formed(s, r, n) ensures s.len() >= 2 { reveal(well_formed); }
pub proof fn lem_link_after(x: &LocalSearch, y: &LocalSearch, r: int, r2: int, s: Tour, i: int)
    requires x.shape(), frame(*x, *y), 0 <= r < x.m(), x.chain(r2, s), x.back(s), same_links(*x, *y, r), 0 <= i < s.len()
    ensures y.succ(s[i]) == x.succ(s[i]), y.pred(s[i]) == x.pred(s[i])
{
    lem_at(*x, r2, s, i); lem_is_customer(s, r2, x.n(), i); lem_tour_len(s, r2, x.n());
    assert(y.succ(s[i]) == x.succ(s[i]) && (s[i] != Ptr::Start(r as usize) ==> y.pred(s[i]) == x.pred(s[i])) && (s[i] == Ptr::Start(r as usize) ==> y.pred(s[i]) == Ptr::Null)) by { reveal(same_links); }
    if s[i] == Ptr::Start(r as usize) { assert(!customer(s[i], x.n())); assert(i != s.len() - 1); assert(i == 0); assert(x.pred(s[0]) == Ptr::Null) by { reveal(LocalSearch::back); } }
}
pub proof fn lem_back_after(x: &LocalSearch, y: &LocalSearch, r: int, r2: int, s: Tour)
    requires x.shape(), frame(*x, *y), 0 <= r < x.m(), x.chain(r2, s), x.back(s), same_links(*x, *y, r)
    ensures y.chain(r2, s), y.back(s)
{
    assert forall|i: int| 0 <= i < s.len() implies y.succ(#[trigger] s[i]) == x.succ(s[i]) && y.pred(s[i]) == x.pred(s[i]) by { lem_link_after(x, y, r, r2, s, i); }
    lem_tour_len(s, r2, x.n());
    let z = s[s.len() - 1]; let z0 = s[0];
    assert(y.chained(s)) by { reveal(LocalSearch::chained); }
    assert(y.back(s)) by { reveal(LocalSearch::back); }
}
pub proof fn lem_renew_holds(x: &LocalSearch, y: &LocalSearch, r: int, s: Tour)
    requires x.shape(), x.chain(r, s), x.back(s), renewed(*x, *y, r, s)
    ensures y.holds(r, s)
{ lem_back_after(x, y, r, r, s); }
pub proof fn lem_disjoint_at(a: Tour, b: Tour, i: int)
    requires 0 <= i < a.len(), forall|q: Ptr| #[trigger] a.contains(q) ==> !b.contains(q)
    ensures !b.contains(a[i])
{ assert(a.contains(a[i])); }
pub proof fn lem_elsewhere(h: &LocalSearch, t: Tours, r: int, i: int, r1: int)
    requires repr(h, t), 0 <= r < t.len(), 0 <= i < t[r].len(), 0 <= r1 < t.len(), r != r1
    ensures !t[r1].contains(t[r][i])
{
    lem_pos(h, t, r, i);
    if t[r1].contains(t[r][i]) { let j = choose|j: int| 0 <= j < t[r1].len() && t[r1][j] == t[r][i]; lem_pos(h, t, r1, j); }
}
pub open spec fn links_only(a: LocalSearch, b: LocalSearch, t1: Tour, t2: Tour) -> bool { same_but_nodes(a, b) && b.routes@ == a.routes@ && relinked(a, b, t1, t2) && b.shape() }
pub open spec fn finished(a: LocalSearch, d: LocalSearch, t: Tours, r1: int, r2: int) -> bool { repr(&d, t) && stable(a, d) && modified(a, d, r1, r2) }
#[verifier::spinoff_prover]
pub proof fn lem_done_two(a: LocalSearch, b: LocalSearch, c: LocalSearch, d: LocalSearch, t: Tours, r1: int, r2: int, n1: Tour, n2: Tour)
    requires repr(&a, t), 0 <= r1 < t.len(), 0 <= r2 < t.len(), r1 != r2, links_only(a, b, t[r1], t[r2]),
        b.chain(r1, n1), b.back(n1), b.chain(r2, n2), b.back(n2), renewed(b, c, r1, n1), renewed(c, d, r2, n2),
        forall|q: Ptr| #[trigger] n1.contains(q) ==> !n2.contains(q),
        forall|q: Ptr| (#[trigger] t[r1].contains(q) || t[r2].contains(q)) == (n1.contains(q) || n2.contains(q)),
    ensures finished(a, d, t.update(r1, n1).update(r2, n2), r1, r2)
{
    let (t1, t2) = (t[r1], t[r2]);
    let u = t.update(r1, n1).update(r2, n2);
    lem_back_after(&b, &c, r1, r2, n2);
    lem_renew_holds(&b, &c, r1, n1);
    lem_renew_holds(&c, &d, r2, n2);
    assert(nd_same(&c, &d, n1)) by { reveal(others_kept); assert forall|i: int| 0 <= i < n1.len() implies d.nd(#[trigger] n1[i]) == c.nd(n1[i]) by { lem_disjoint_at(n1, n2, i); lem_at(b, r1, n1, i); assert(c.live(n1[i])); } }
    lem_hold_frame(&c, &d, r1, n1);
    assert forall|q: Ptr| a.live(q) && !t1.contains(q) && !t2.contains(q) implies #[trigger] d.nd(q) == a.nd(q) by {
        reveal(others_kept); reveal(relinked);
        assert(b.nd(q) == a.nd(q)); assert(b.live(q)); assert(c.live(q)); assert(!n1.contains(q) && !n2.contains(q)); assert(c.nd(q) == b.nd(q));
    }
    assert(all_held(&d, u)) by {
        reveal(all_held);
        assert forall|r: int| 0 <= r < u.len() implies d.holds(r, #[trigger] u[r]) by {
            if r != r1 && r != r2 {
                assert(u[r] == t[r]); lem_route(&a, t, r);
                assert(nd_same(&a, &d, t[r])) by { assert forall|i: int| 0 <= i < t[r].len() implies d.nd(#[trigger] t[r][i]) == a.nd(t[r][i]) by { lem_pos(&a, t, r, i); lem_elsewhere(&a, t, r, i, r1); lem_elsewhere(&a, t, r, i, r2); } }
                lem_hold_frame(&a, &d, r, t[r]);
            }
        }
    }
    assert(covered(&d, u)) by {
        reveal(covered);
        assert forall|p: Ptr| customer(p, d.n()) implies #[trigger] on(&d, u, p) by {
            lem_cust(&a, t, p);
            let r = rt(&a, p);
            if t1.contains(p) || t2.contains(p) {
                reveal(LocalSearch::placed_to);
                assert(d.m() == d.routes.len());
                if n1.contains(p) { let i = choose|i: int| 0 <= i < n1.len() && n1[i] == p; assert(d.holds(r1, n1)); assert(d.nd(n1[i]).route == Ptr::Route(r1 as usize) && d.nd(n1[i]).position == i); assert(u[r1] == n1); }
                else { let i = choose|i: int| 0 <= i < n2.len() && n2[i] == p; assert(d.holds(r2, n2)); assert(d.nd(n2[i]).route == Ptr::Route(r2 as usize) && d.nd(n2[i]).position == i); assert(u[r2] == n2); }
            } else {
                assert(d.nd(p) == a.nd(p));
                if r == r1 { assert(t1.contains(p)); }
                if r == r2 { assert(t2.contains(p)); }
            }
        }
    }
    assert(stable(a, d)) by { reveal(relinked); reveal(same_links); assert forall|q: Ptr| a.live(q) implies node_rest(a.nd(q), #[trigger] d.nd(q)) by { assert(b.live(q)); assert(c.live(q)); assert(node_rest(b.nd(q), c.nd(q))); } }
}
pub open spec fn either_order(b: LocalSearch, c: LocalSearch, d: LocalSearch, r1: int, n1: Tour, r2: int, n2: Tour) -> bool {
    (renewed(b, c, r1, n1) && renewed(c, d, r2, n2)) || (renewed(b, c, r2, n2) && renewed(c, d, r1, n1))
}
#[verifier::spinoff_prover]
pub proof fn lem_done_both(a: LocalSearch, b: LocalSearch, c: LocalSearch, d: LocalSearch, t: Tours, r1: int, r2: int, n1: Tour, n2: Tour)
    requires repr(&a, t), 0 <= r1 < t.len(), 0 <= r2 < t.len(), r1 != r2, links_only(a, b, t[r1], t[r2]),
        b.chain(r1, n1), b.back(n1), b.chain(r2, n2), b.back(n2), either_order(b, c, d, r1, n1, r2, n2),
        forall|q: Ptr| #[trigger] n1.contains(q) ==> !n2.contains(q),
        forall|q: Ptr| (#[trigger] t[r1].contains(q) || t[r2].contains(q)) == (n1.contains(q) || n2.contains(q)),
    ensures finished(a, d, t.update(r1, n1).update(r2, n2), r1, r2)
{
    if renewed(b, c, r1, n1) && renewed(c, d, r2, n2) {
        assert forall|q: Ptr| (#[trigger] t[r1].contains(q) || t[r2].contains(q)) == (n1.contains(q) || n2.contains(q)) by { }
        lem_done_two(a, b, c, d, t, r1, r2, n1, n2);
    }
    else {
        assert(relinked(a, b, t[r2], t[r1])) by { reveal(relinked); }
        assert forall|q: Ptr| #[trigger] n2.contains(q) implies !n1.contains(q) by { if n1.contains(q) { assert(!n2.contains(q)); } }
        assert forall|q: Ptr| (#[trigger] t[r2].contains(q) || t[r1].contains(q)) == (n2.contains(q) || n1.contains(q)) by { assert((t[r1].contains(q) || t[r2].contains(q)) == (n1.contains(q) || n2.contains(q))); }
        lem_done_two(a, b, c, d, t, r2, r1, n2, n1);
        assert(t.update(r2, n2).update(r1, n1) =~= t.update(r1, n1).update(r2, n2));
    }
}
pub proof fn lem_done_inter(a: LocalSearch, b: LocalSearch, c: LocalSearch, d: LocalSearch, t: Tours, x: Xch)
    requires repr(&a, t), xch_ok(t, x), x.r1 != x.r2, links_only(a, b, t[x.r1], t[x.r2]),
        b.chain(x.r1, new1(t, x)), b.back(new1(t, x)), b.chain(x.r2, new2(t, x)), b.back(new2(t, x)),
        either_order(b, c, d, x.r1, new1(t, x), x.r2, new2(t, x)),
    ensures finished(a, d, exchanged(t, x), x.r1, x.r2)
{
    lem_xch_inter(&a, t, x);
    lem_done_both(a, b, c, d, t, x.r1, x.r2, new1(t, x), new2(t, x));
}
#[verifier::spinoff_prover]
pub proof fn lem_done_intra(a: LocalSearch, b: LocalSearch, c: LocalSearch, t: Tours, x: Xch)
    requires repr(&a, t), xch_ok(t, x), x.r1 == x.r2, links_only(a, b, t[x.r1], t[x.r1]),
        b.chain(x.r1, new1(t, x)), b.back(new1(t, x)), renewed(b, c, x.r1, new1(t, x)),
    ensures finished(a, c, exchanged(t, x), x.r1, x.r1)
{
    let (r1, n1, t1) = (x.r1, new1(t, x), t[x.r1]);
    let u = exchanged(t, x);
    lem_xch_intra(&a, t, x);
    lem_renew_holds(&b, &c, r1, n1);
    assert forall|q: Ptr| a.live(q) && !t1.contains(q) implies #[trigger] c.nd(q) == a.nd(q) by {
        reveal(others_kept); reveal(relinked);
        assert(b.nd(q) == a.nd(q)); assert(b.live(q)); assert(!n1.contains(q)); assert(c.nd(q) == b.nd(q));
    }
    assert(all_held(&c, u)) by {
        reveal(all_held);
        assert forall|r: int| 0 <= r < u.len() implies c.holds(r, #[trigger] u[r]) by {
            if r != r1 {
                assert(u[r] == t[r]); lem_route(&a, t, r);
                assert(nd_same(&a, &c, t[r])) by { assert forall|i: int| 0 <= i < t[r].len() implies c.nd(#[trigger] t[r][i]) == a.nd(t[r][i]) by { lem_pos(&a, t, r, i); lem_elsewhere(&a, t, r, i, r1); } }
                lem_hold_frame(&a, &c, r, t[r]);
            }
        }
    }
    assert(covered(&c, u)) by {
        reveal(covered);
        assert forall|p: Ptr| customer(p, c.n()) implies #[trigger] on(&c, u, p) by {
            lem_cust(&a, t, p);
            let r = rt(&a, p);
            if t1.contains(p) {
                reveal(LocalSearch::placed_to);
                assert(n1.contains(p));
                let i = choose|i: int| 0 <= i < n1.len() && n1[i] == p; assert(c.nd(n1[i]).route == Ptr::Route(r1 as usize));
            } else {
                assert(c.nd(p) == a.nd(p));
                if r == r1 { assert(t1.contains(p)); }
            }
        }
    }
    assert(stable(a, c)) by { reveal(relinked); reveal(same_links); assert forall|q: Ptr| a.live(q) implies node_rest(a.nd(q), #[trigger] c.nd(q)) by { assert(b.live(q)); assert(node_rest(b.nd(q), c.nd(q))); } }
}
// total cost
pub proof fn lem_total_update(ctx: &Context, pen: real, t: Tours, r: int, s: Tour, k: int)
    requires 0 <= r < t.len(), 0 <= k <= t.len()
    ensures tours_cost(ctx, pen, t.update(r, s), k) == tours_cost(ctx, pen, t, k) + if r < k { tcost(ctx, pen, s) - tcost(ctx, pen, t[r]) } else { 0real }
    decreases k
{ if k > 0 { lem_total_update(ctx, pen, t, r, s, k - 1); } }
pub open spec fn xch_gain(h: &LocalSearch, t: Tours, x: Xch) -> real {
    let (ctx, pen) = (&h.ctx, h.penalty_capacity@);
    if x.r1 != x.r2 { tcost(ctx, pen, new1(t, x)) + tcost(ctx, pen, new2(t, x)) - tcost(ctx, pen, t[x.r1]) - tcost(ctx, pen, t[x.r2]) } else { tcost(ctx, pen, new1(t, x)) - tcost(ctx, pen, t[x.r1]) }
}
pub proof fn lem_gain(h: &LocalSearch, t: Tours, x: Xch)
    requires xch_ok(t, x)
    ensures cost_of(h, exchanged(t, x)) == cost_of(h, t) + xch_gain(h, t, x)
{
    let (ctx, pen, k) = (&h.ctx, h.penalty_capacity@, t.len() as int);
    lem_total_update(ctx, pen, t, x.r1, new1(t, x), k);
    if x.r1 != x.r2 { lem_total_update(ctx, pen, t.update(x.r1, new1(t, x)), x.r2, new2(t, x), k); }
}
