@raw
// ---- a list of customers as a tour
pub open spec fn tour_of(r: int, l: Seq<usize>) -> Tour {
    Seq::new((l.len() + 2) as nat, |i: int| if i == 0 { Ptr::Start(r as usize) } else if i == l.len() + 1 { Ptr::End(r as usize) } else { Ptr::Node(l[i - 1]) })
}
pub open spec fn list_of(s: Tour) -> Seq<usize> { Seq::new((s.len() - 2) as nat, |i: int| num(s[i + 1]) as usize) }
pub open spec fn tours_of(p: Seq<Vec<usize>>) -> Tours { Seq::new(p.len(), |r: int| tour_of(r, p[r]@)) }
pub proof fn lem_tour_of(n: int, p: Seq<Vec<usize>>, r: int)
    requires complete(n, p), 0 <= r < p.len(), p.len() <= usize::MAX
    ensures well_formed(tour_of(r, p[r]@), r, n), distinct(tour_of(r, p[r]@))
{
    let l = p[r]@; let s = tour_of(r, l);
    lem_complete(n, p);
    assert(well_formed(s, r, n)) by { reveal(well_formed); assert forall|i: int| 0 < i < s.len() - 1 implies customer(#[trigger] s[i], n) by { assert(0 < l[i - 1] < n); } }
    assert(distinct(s)) by {
        reveal(distinct);
        assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j implies s[i] != s[j] by {
            if 0 < i < s.len() - 1 && 0 < j < s.len() - 1 && s[i] == s[j] { lem_complete_distinct(n, p, r, i - 1, r, j - 1); }
        }
    }
}
// tours of different routes share no node
pub proof fn lem_tours_apart(n: int, p: Seq<Vec<usize>>, r: int, q: int, i: int)
    requires complete(n, p), 0 <= r < p.len(), 0 <= q < p.len(), r != q, 0 <= i < p[q]@.len() + 2, p.len() <= usize::MAX
    ensures !tour_of(r, p[r]@).contains(tour_of(q, p[q]@)[i])
{
    let (s, x) = (tour_of(r, p[r]@), tour_of(q, p[q]@)[i]);
    if s.contains(x) {
        let j = choose|j: int| 0 <= j < s.len() && s[j] == x;
        if 0 < i < p[q]@.len() + 1 { assert(s[j] == Ptr::Node(p[q]@[i - 1])); assert(0 < j < s.len() - 1); lem_complete_distinct(n, p, r, j - 1, q, i - 1); }
    }
}
// the tour costs what the list costs
pub open spec fn pen_route(ctx: &Context, pen: real, l: Seq<usize>) -> real { route_dist(ctx, l) + pen * rmax(0real, route_over(ctx, l)) }
pub open spec fn pen_cost(ctx: &Context, pen: real, s: Seq<Vec<usize>>, k: int) -> real
    decreases k
{ if k <= 0 { 0real } else { pen_cost(ctx, pen, s, k - 1) + pen_route(ctx, pen, s[k - 1]@) } }
pub proof fn lem_prefixes(ctx: &Context, s: Tour, l: Seq<usize>, k: int)
    requires s.len() == l.len() + 2, forall|i: int| 0 <= i < l.len() ==> num(#[trigger] s[i + 1]) == l[i], num(s[0]) == 0, 0 <= k <= l.len(), ctx.demand(0) == 0real
    ensures plen(ctx, s, k) == prefix_dist(ctx, l, k), pload(ctx, s, k + 1) == prefix_load(ctx, l, k)
    decreases k
{
    if k > 0 {
        lem_prefixes(ctx, s, l, k - 1);
        assert(num(s[(k - 1) + 1]) == l[k - 1]);
        if k > 1 { assert(num(s[(k - 2) + 1]) == l[k - 2]); }
    } else { assert(pload(ctx, s, 1) == pload(ctx, s, 0) + ctx.demand(num(s[0]))); }
}
pub proof fn lem_tour_costs(ctx: &Context, pen: real, s: Tour, l: Seq<usize>)
    requires s.len() == l.len() + 2, forall|i: int| 0 <= i < l.len() ==> num(#[trigger] s[i + 1]) == l[i], num(s[0]) == 0, num(s[s.len() - 1]) == 0, ctx.demand(0) == 0real
    ensures tcost(ctx, pen, s) == pen_route(ctx, pen, l)
{
    let k = l.len() as int;
    lem_prefixes(ctx, s, l, k);
    assert(plen(ctx, s, k + 1) == plen(ctx, s, k) + ctx.d(num(s[k]), num(s[k + 1])));
    assert(pload(ctx, s, k + 2) == pload(ctx, s, k + 1) + ctx.demand(num(s[k + 1])));
    if k > 0 { assert(num(s[(k - 1) + 1]) == l[k - 1]); }
}
// the lists p spell out the tours t
pub open spec fn spelled(t: Tours, p: Seq<Vec<usize>>) -> bool {
    p.len() == t.len() && forall|r: int| 0 <= r < t.len() ==> (#[trigger] t[r]).len() == p[r]@.len() + 2 && num(t[r][0]) == 0 && num(t[r][t[r].len() - 1]) == 0 && (forall|i: int| 0 <= i < p[r]@.len() ==> num(#[trigger] t[r][i + 1]) == p[r]@[i])
}
pub proof fn lem_spelled_cost(ctx: &Context, pen: real, t: Tours, p: Seq<Vec<usize>>, k: int)
    requires spelled(t, p), 0 <= k <= t.len(), ctx.demand(0) == 0real
    ensures tours_cost(ctx, pen, t, k) == pen_cost(ctx, pen, p, k)
    decreases k
{ if k > 0 { lem_spelled_cost(ctx, pen, t, p, k - 1); let s = t[k - 1]; lem_tour_costs(ctx, pen, s, p[k - 1]@); } }
// the order of the routes does not matter
pub proof fn lem_pen_frame(ctx: &Context, pen: real, a: Seq<Vec<usize>>, b: Seq<Vec<usize>>, k: int)
    requires 0 <= k <= a.len(), k <= b.len(), forall|i: int| 0 <= i < k ==> (#[trigger] a[i])@ == b[i]@
    ensures pen_cost(ctx, pen, a, k) == pen_cost(ctx, pen, b, k)
    decreases k
{ if k > 0 { lem_pen_frame(ctx, pen, a, b, k - 1); assert(a[k - 1]@ == b[k - 1]@); } }
pub proof fn lem_pen_remove(ctx: &Context, pen: real, a: Seq<Vec<usize>>, p: int, k: int)
    requires 0 <= p < a.len(), 0 <= k <= a.len()
    ensures k <= p ==> pen_cost(ctx, pen, a.remove(p), k) == pen_cost(ctx, pen, a, k),
        k > p ==> pen_cost(ctx, pen, a.remove(p), k - 1) == pen_cost(ctx, pen, a, k) - pen_route(ctx, pen, a[p]@)
    decreases k
{ if k > 0 { lem_pen_remove(ctx, pen, a, p, k - 1); } }
pub proof fn lem_pen_lists(ctx: &Context, pen: real, a: Seq<Vec<usize>>, b: Seq<Vec<usize>>, q: Seq<int>)
    requires lists_by(a, b, q)
    ensures pen_cost(ctx, pen, a, a.len() as int) == pen_cost(ctx, pen, b, b.len() as int)
    decreases b.len()
{
    if b.len() > 0 {
        let m = b.len() - 1; let p = q[m];
        assert(b[m]@ == a[q[m]]@);
        let a2 = a.remove(p); let b2 = b.drop_last();
        let q2 = Seq::new(m as nat, |i: int| if q[i] < p { q[i] } else { q[i] - 1 });
        assert(lists_by(a2, b2, q2)) by {
            assert forall|i: int| 0 <= i < m implies 0 <= #[trigger] q2[i] < m && b2[i]@ == a2[q2[i]]@ by { assert(q[i] != q[m]); assert(b[i]@ == a[q[i]]@); }
            assert forall|i: int, j: int| 0 <= i < m && 0 <= j < m && i != j implies q2[i] != q2[j] by { assert(q[i] != q[j] && q[i] != p && q[j] != p); }
            assert forall|i: int| 0 <= i < b2.len() implies (#[trigger] b2[i])@ == a2[q2[i]]@ by { assert(0 <= q2[i] < m && b2[i]@ == a2[q2[i]]@); }
        }
        lem_pen_lists(ctx, pen, a2, b2, q2);
        lem_pen_remove(ctx, pen, a, p, a.len() as int);
        lem_pen_frame(ctx, pen, b, b2, m);
    }
}
// with the penalty of the configuration this is what the evaluation computes
pub proof fn lem_pen_total(ctx: &Context, s: Seq<Vec<usize>>, k: int)
    requires 0 <= k <= s.len()
    ensures pen_cost(ctx, ctx.pen(), s, k) == total_cost(ctx, s, k)
    decreases k
{ if k > 0 { lem_pen_total(ctx, s, k - 1); } }
// ---- every customer once, from tours that cover the customers
pub proof fn lem_occ_none(l: Seq<usize>, x: usize)
    requires forall|i: int| 0 <= i < l.len() ==> l[i] != x
    ensures occ(l, x) == 0
    decreases l.len()
{ if l.len() > 0 { lem_occ_none(l.drop_last(), x); } }
pub proof fn lem_occ_one(l: Seq<usize>, x: usize, j: int)
    requires 0 <= j < l.len(), l[j] == x, forall|i: int| 0 <= i < l.len() && i != j ==> l[i] != x
    ensures occ(l, x) == 1
{ lem_occ_remove(l, j, x); lem_occ_none(l.remove(j), x); }
pub proof fn lem_locc_one(p: Seq<Vec<usize>>, k: int, x: usize, r: int, j: int)
    requires 0 <= k <= p.len(), 0 <= r < p.len(), 0 <= j < p[r]@.len(), p[r]@[j] == x,
        forall|q: int, i: int| 0 <= q < p.len() && 0 <= i < p[q]@.len() && #[trigger] p[q]@[i] == x ==> q == r && i == j
    ensures locc(p, k, x) == if r < k { 1int } else { 0int }
    decreases k
{
    if k > 0 {
        lem_locc_one(p, k - 1, x, r, j);
        if k - 1 == r { assert forall|i: int| 0 <= i < p[r]@.len() && i != j implies #[trigger] p[r]@[i] != x by { } lem_occ_one(p[r]@, x, j); }
        else { assert forall|i: int| 0 <= i < p[k - 1]@.len() implies #[trigger] p[k - 1]@[i] != x by { } lem_occ_none(p[k - 1]@, x); }
    }
}
pub proof fn lem_locc_none(p: Seq<Vec<usize>>, k: int, x: usize)
    requires 0 <= k <= p.len(), forall|q: int, i: int| 0 <= q < p.len() && 0 <= i < p[q]@.len() ==> #[trigger] p[q]@[i] != x
    ensures locc(p, k, x) == 0
    decreases k
{ if k > 0 { lem_locc_none(p, k - 1, x); assert forall|i: int| 0 <= i < p[k - 1]@.len() implies #[trigger] p[k - 1]@[i] != x by { } lem_occ_none(p[k - 1]@, x); } }
pub proof fn lem_spelled_complete(h: &LocalSearch, t: Tours, p: Seq<Vec<usize>>)
    requires repr(h, t), spelled(t, p)
    ensures complete(h.n(), p)
{
    let n = h.n();
    assert forall|q: int, i: int| 0 <= q < p.len() && 0 <= i < p[q]@.len() implies 0 < #[trigger] p[q]@[i] < n && t[q][i + 1] == Ptr::Node(p[q]@[i]) by {
        let s = t[q]; lem_pos(h, t, q, i + 1); assert(num(s[i + 1]) == p[q]@[i]);
    }
    assert forall|x: usize| #[trigger] locc(p, p.len() as int, x) == if 0 < x < n { 1int } else { 0int } by {
        if 0 < x < n {
            let z = Ptr::Node(x);
            lem_cust(h, t, z);
            let (r, j) = (rt(h, z), ps(h, z) - 1);
            assert(num(t[r][j + 1]) == p[r]@[j]);
            assert forall|q: int, i: int| 0 <= q < p.len() && 0 <= i < p[q]@.len() && #[trigger] p[q]@[i] == x implies q == r && i == j by { assert(t[q][i + 1] == z); lem_pos(h, t, q, i + 1); }
            lem_locc_one(p, p.len() as int, x, r, j);
        } else { lem_locc_none(p, p.len() as int, x); }
    }
    reveal(complete);
}
// ---- between two searches
#[verifier::opaque]
pub open spec fn ends_open(h: &LocalSearch) -> bool { forall|r: int| 0 <= r < h.m() ==> (#[trigger] h.end_depots@[r]).successor == Ptr::Null }
// ready to load an individual
pub open spec fn idle(h: &LocalSearch) -> bool {
    h.shape() && ends_open(h) && empties_in(h) && cust_ok(h) && h.correlation.n() == h.n() && h.granularity >= 1 && far_ok(&h.moves)
}
pub open spec fn same_frame(a: LocalSearch, b: LocalSearch) -> bool {
    b.ctx == a.ctx && b.customers == a.customers && b.correlation == a.correlation && b.granularity == a.granularity && b.move_count == a.move_count
    && b.moves == a.moves && b.penalty_capacity == a.penalty_capacity
    && b.nodes@.len() == a.nodes@.len() && b.start_depots@.len() == a.start_depots@.len() && b.end_depots@.len() == a.end_depots@.len() && b.routes@.len() == a.routes@.len()
}
pub proof fn lem_hold_kept(x: &LocalSearch, y: &LocalSearch, r: int, s: Tour)
    requires x.holds(r, s), same_frame(*x, *y), nd_same(x, y, s), y.routes@[r] == (LinkRoute { last_tested_swap_star: y.routes@[r].last_tested_swap_star, ..x.routes@[r] }), y.empty_routes@.contains(r as usize) == x.empty_routes@.contains(r as usize)
    ensures y.holds(r, s)
{
    assert(y.chained(s)) by { reveal(LocalSearch::chained); assert forall|i: int| 0 <= i < s.len() - 1 implies y.succ(#[trigger] s[i]) == s[i + 1] by { assert(x.succ(s[i]) == s[i + 1]); } if s.len() > 0 { assert(y.nd(s[s.len() - 1]) == x.nd(s[s.len() - 1])); } }
    assert(y.back(s)) by { reveal(LocalSearch::back); assert forall|i: int| 0 < i < s.len() implies y.pred(#[trigger] s[i]) == s[i - 1] by { assert(x.pred(s[i]) == s[i - 1]); } if s.len() > 0 { assert(y.nd(s[0]) == x.nd(s[0])); } }
    assert(y.placed(r, s)) by { reveal(LocalSearch::placed_to); assert forall|i: int| 0 <= i < s.len() implies y.nd(#[trigger] s[i]).route == Ptr::Route(r as usize) && y.nd(s[i]).position == i
            && y.nd(s[i]).cum_distance@ == plen(&y.ctx, s, i) && y.nd(s[i]).cum_load@ == pload(&y.ctx, s, i + 1) by { assert(y.nd(s[i]) == x.nd(s[i])); } }
}
// the first k routes are loaded, their insertion entries are stale
#[verifier::opaque]
pub open spec fn held_to(h: &LocalSearch, t: Tours, k: int) -> bool { forall|r: int| 0 <= r < k ==> h.holds(r, #[trigger] t[r]) }
#[verifier::opaque]
pub open spec fn stale_to(h: &LocalSearch, k: int) -> bool {
    forall|r: int, c: int| 0 <= r < k && 0 <= c < h.n() ==> (#[trigger] bi(h, r, c)).last_calculated == -1 && h.routes@[r].last_modified == 0
}
pub open spec fn loading(h0: &LocalSearch, h: &LocalSearch, t: Tours, k: int) -> bool {
    h.shape() && ends_open(h) && empties_in(h) && same_frame(*h0, *h) && held_to(h, t, k) && stale_to(h, k) && h.move_count == 0 && t.len() == h.m()
}
// the links of s are being laid: the first k are
#[verifier::opaque]
pub open spec fn laid(a: LocalSearch, b: LocalSearch, s: Tour, k: int) -> bool {
    &&& (forall|q: Ptr| a.live(q) ==> (#[trigger] b.nd(q)) == (LinkNode { successor: b.nd(q).successor, predecessor: b.nd(q).predecessor, ..a.nd(q) }))
    &&& (forall|q: Ptr| a.live(q) && !s.contains(q) ==> (#[trigger] b.nd(q)) == a.nd(q))
    &&& (forall|i: int| 0 <= i < k ==> b.succ(#[trigger] s[i]) == s[i + 1])
    &&& (forall|i: int| 0 < i <= k ==> b.pred(#[trigger] s[i]) == s[i - 1])
    &&& b.succ(s[s.len() - 1]) == a.succ(s[s.len() - 1])
}
pub open spec fn laying(a: LocalSearch, b: LocalSearch, s: Tour, k: int) -> bool { same_but_nodes(a, b) && b.routes@ == a.routes@ && laid(a, b, s, k) }
pub proof fn lem_lay0(a: LocalSearch, s: Tour) requires s.len() >= 2 ensures laying(a, a, s, 0)
{ reveal(laid); assert forall|q: Ptr| a.live(q) implies #[trigger] a.nd(q) == (LinkNode { successor: a.nd(q).successor, predecessor: a.nd(q).predecessor, ..a.nd(q) }) by {} }
pub proof fn lem_lay(a: LocalSearch, b: LocalSearch, c: LocalSearch, r: int, s: Tour, k: int)
    requires laying(a, b, s, k), linked(b, c, s[k], s[k + 1]), 0 <= k < s.len() - 1, well_formed(s, r, a.n()), distinct(s), forall|i: int| 0 <= i < s.len() ==> a.live(#[trigger] s[i])
    ensures laying(a, c, s, k + 1)
{
    reveal(laid); reveal(distinct);
    assert(s.contains(s[k])); assert(s.contains(s[k + 1]));
    assert forall|q: Ptr| a.live(q) implies #[trigger] c.nd(q) == (LinkNode { successor: c.nd(q).successor, predecessor: c.nd(q).predecessor, ..a.nd(q) }) by { assert(b.live(q)); assert(b.nd(q) == (LinkNode { successor: b.nd(q).successor, predecessor: b.nd(q).predecessor, ..a.nd(q) })); }
    assert forall|q: Ptr| a.live(q) && !s.contains(q) implies #[trigger] c.nd(q) == a.nd(q) by { assert(b.live(q)); assert(b.nd(q) == a.nd(q)); }
    assert forall|i: int| 0 <= i < k + 1 implies c.succ(#[trigger] s[i]) == s[i + 1] by { assert(a.live(s[i])); assert(b.live(s[i])); if i < k { assert(b.succ(s[i]) == s[i + 1]); } }
    assert forall|i: int| 0 < i <= k + 1 implies c.pred(#[trigger] s[i]) == s[i - 1] by { assert(a.live(s[i])); assert(b.live(s[i])); if i < k + 1 { assert(b.pred(s[i]) == s[i - 1]); } }
    let z = s[s.len() - 1]; assert(a.live(z) && b.live(z)); 
}
pub proof fn lem_live_tour(h: &LocalSearch, r: int, s: Tour)
    requires h.shape(), 0 <= r < h.m(), well_formed(s, r, h.n()), h.m() <= usize::MAX
    ensures forall|i: int| 0 <= i < s.len() ==> h.live(#[trigger] s[i])
{ reveal(well_formed); assert forall|i: int| 0 <= i < s.len() implies h.live(#[trigger] s[i]) by { if 0 < i < s.len() - 1 { assert(customer(s[i], h.n())); } } }
pub proof fn lem_laid(a: LocalSearch, b: LocalSearch, r: int, s: Tour)
    requires a.shape(), ends_open(&a), laying(a, b, s, s.len() - 1), 0 <= r < a.m(), well_formed(s, r, a.n()), distinct(s), a.m() <= usize::MAX
    ensures b.shape(), b.chain(r, s), ends_open(&b)
{
    lem_live_tour(&a, r, s);
    assert forall|q: Ptr| a.live(q) implies (#[trigger] b.nd(q)) == (LinkNode { successor: b.nd(q).successor, predecessor: b.nd(q).predecessor, ..a.nd(q) }) by { reveal(laid); }
    lem_shape_linked(a, b);
    assert(s[s.len() - 1] == Ptr::End(r as usize)) by { reveal(well_formed); }
    assert(a.succ(s[s.len() - 1]) == Ptr::Null) by { reveal(ends_open); assert(a.end_depots@[r].successor == Ptr::Null); }
    assert(b.chained(s)) by { reveal(laid); reveal(LocalSearch::chained); }
    assert(ends_open(&b)) by {
        reveal(ends_open);
        assert forall|q: int| 0 <= q < b.m() implies (#[trigger] b.end_depots@[q]).successor == Ptr::Null by {
            let z = Ptr::End(q as usize);
            assert(a.end_depots@[q].successor == Ptr::Null); assert(a.nd(z) == a.end_depots@[q] && b.nd(z) == b.end_depots@[q]); assert(a.live(z));
            reveal(laid); reveal(well_formed);
            if q != r { if s.contains(z) { let i = choose|i: int| 0 <= i < s.len() && s[i] == z; assert(0 < i < s.len() - 1); assert(customer(s[i], a.n())); } }
        }
    }
}
// the route's notes are reset
#[verifier::opaque]
pub open spec fn entries_reset(b: LocalSearch, c: LocalSearch, r: int, k: int) -> bool {
    (forall|q: int, j: int| 0 <= q < b.m() && q != r && 0 <= j < b.n() ==> #[trigger] bi(&c, q, j) == bi(&b, q, j)) && (forall|j: int| 0 <= j < k ==> (#[trigger] bi(&c, r, j)).last_calculated == -1)
}
pub open spec fn renoted(b: LocalSearch, c: LocalSearch, r: int, k: int) -> bool {
    &&& same_frame(b, c) && c.empty_routes == b.empty_routes && c.nodes@ == b.nodes@ && c.start_depots@ == b.start_depots@ && c.end_depots@ == b.end_depots@
    &&& c.routes@ == b.routes@.update(r, LinkRoute { last_tested_swap_star: c.routes@[r].last_tested_swap_star, ..b.routes@[r] })
    &&& c.best_inserts.ok() && c.best_inserts.rows == b.best_inserts.rows && c.best_inserts.cols == b.best_inserts.cols && entries_reset(b, c, r, k)
}
pub proof fn lem_reset_one(a: LocalSearch, b: LocalSearch, c: LocalSearch, r: int, k: int)
    requires renoted(a, b, r, k), 0 <= r < a.m(), 0 <= k < a.n(), a.best_inserts.rows == a.m(), a.best_inserts.cols == a.n(),
        c == (LocalSearch { best_inserts: c.best_inserts, ..b }), c.best_inserts.rows == b.best_inserts.rows, c.best_inserts.cols == b.best_inserts.cols,
        c.best_inserts.g@ == b.best_inserts.g@.update(r, b.best_inserts.g@[r].update(k, bi(&c, r, k))), bi(&c, r, k).last_calculated == -1
    ensures renoted(a, c, r, k + 1)
{
    assert(b.best_inserts.g@[r].len() == b.best_inserts.cols);
    assert(c.best_inserts.ok()) by { assert forall|i: int| 0 <= i < c.best_inserts.rows implies (#[trigger] c.best_inserts.g@[i]).len() == c.best_inserts.cols by { assert(b.best_inserts.g@[i].len() == b.best_inserts.cols); } }
    reveal(entries_reset);
    assert forall|q: int, j: int| 0 <= q < a.m() && q != r && 0 <= j < a.n() implies #[trigger] bi(&c, q, j) == bi(&a, q, j) by { assert(bi(&b, q, j) == bi(&a, q, j)); }
    assert forall|j: int| 0 <= j < k + 1 implies (#[trigger] bi(&c, r, j)).last_calculated == -1 by { if j < k { assert(bi(&b, r, j).last_calculated == -1); } }
}
pub proof fn lem_renoted(b: LocalSearch, c: LocalSearch, r: int, s: Tour, k: int)
    requires b.shape(), b.chain(r, s), renoted(b, c, r, k), 0 <= r < b.m(), b.m() <= usize::MAX
    ensures c.shape(), c.chain(r, s), ends_open(&c) == ends_open(&b)
{
    assert forall|q: Ptr| c.nd(q) == b.nd(q) by { }
    reveal(LocalSearch::nodes_ok); reveal(LocalSearch::routes_ok); reveal(LocalSearch::starts_ok); reveal(LocalSearch::chained); reveal(ends_open);
    assert forall|q: int| 0 <= q < c.m() implies (#[trigger] c.routes@[q]).index == q && c.routes@[q].start_depot == Ptr::Start(q as usize) && c.routes@[q].end_depot == Ptr::End(q as usize)
            && (c.routes@[q].sector.nil() || c.routes@[q].sector.wf()) by { assert(b.routes@[q].index == q); }
    assert forall|p: Ptr| c.live(p) implies (#[trigger] c.nd(p)).number == num(p) && in_range(c.nd(p).angle as int) by { assert(b.live(p)); assert(b.nd(p).number == num(p)); }
    assert forall|i: int| 0 <= i < s.len() - 1 implies c.succ(#[trigger] s[i]) == s[i + 1] by { assert(b.succ(s[i]) == s[i + 1]); }
}
#[verifier::spinoff_prover]
pub proof fn lem_loaded(h0: LocalSearch, a: LocalSearch, b: LocalSearch, c: LocalSearch, d: LocalSearch, n: int, p: Seq<Vec<usize>>, r: int)
    requires loading(&h0, &a, tours_of(p), r), complete(n, p), n == a.n(), 0 <= r < a.m(), a.m() <= usize::MAX, laying(a, b, tours_of(p)[r], tours_of(p)[r].len() - 1),
        renoted(b, c, r, a.n()), renewed(c, d, r, tours_of(p)[r])
    ensures loading(&h0, &d, tours_of(p), r + 1)
{
    let t = tours_of(p); let s = t[r];
    assert(s == tour_of(r, p[r]@));
    lem_tour_of(n, p, r);
    lem_laid(a, b, r, s);
    lem_renoted(b, c, r, s, a.n());
    lem_live_tour(&a, r, s);
    assert forall|q: Ptr| c.nd(q) == b.nd(q) by { }
    assert(d.chained(s) && d.placed(r, s) && d.summed(r, s));
    assert(d.back(s)) by {
        reveal(LocalSearch::back); reveal(same_links); reveal(laid); reveal(well_formed);
        assert forall|i: int| 0 < i < s.len() implies d.pred(#[trigger] s[i]) == s[i - 1] by { assert(c.live(s[i])); assert(b.pred(s[i]) == s[i - 1]); assert(c.nd(s[i]).predecessor == s[i - 1]); if i < s.len() - 1 { assert(customer(s[i], n)); } }
        let z = s[0]; assert(c.live(z)); assert(d.nd(z).predecessor == Ptr::Null);
    }
    assert(d.holds(r, s));
    assert(held_to(&d, t, r + 1)) by {
        reveal(held_to);
        assert forall|q: int| 0 <= q < r + 1 implies d.holds(q, #[trigger] t[q]) by {
            if q < r {
                assert(a.holds(q, t[q]));
                assert(t[q] == tour_of(q, p[q]@));
                lem_tour_of(n, p, q); lem_live_tour(&a, q, t[q]);
                assert(nd_same(&a, &d, t[q])) by { assert forall|i: int| 0 <= i < t[q].len() implies d.nd(#[trigger] t[q][i]) == a.nd(t[q][i]) by {
                    let z = t[q][i]; lem_tours_apart(n, p, r, q, i); assert(a.live(z)); reveal(laid); assert(b.nd(z) == a.nd(z)); reveal(others_kept); assert(c.live(z)); assert(d.nd(z) == c.nd(z)); } }
                assert(d.routes@[q] == c.routes@[q]);
                lem_hold_kept(&a, &d, q, t[q]);
            }
        }
    }
    assert(stale_to(&d, r + 1)) by {
        reveal(stale_to); reveal(entries_reset);
        assert forall|q: int, j: int| 0 <= q < r + 1 && 0 <= j < d.n() implies (#[trigger] bi(&d, q, j)).last_calculated == -1 && d.routes@[q].last_modified == 0 by {
            assert(bi(&d, q, j) == bi(&c, q, j));
            if q < r { assert(d.routes@[q] == c.routes@[q]); assert(bi(&c, q, j) == bi(&b, q, j)); assert(bi(&b, q, j) == bi(&a, q, j)); assert(bi(&a, q, j).last_calculated == -1); }
        }
    }
    assert(ends_open(&d)) by {
        reveal(ends_open); reveal(same_links);
        assert forall|q: int| 0 <= q < d.m() implies (#[trigger] d.end_depots@[q]).successor == Ptr::Null by { let z = Ptr::End(q as usize); assert(c.end_depots@[q].successor == Ptr::Null); assert(c.nd(z) == c.end_depots@[q] && d.nd(z) == d.end_depots@[q]); assert(c.live(z)); assert(d.nd(z).successor == c.nd(z).successor); }
    }
    assert(empties_in(&d)) by { assert forall|q: usize| #[trigger] d.empty_routes@.contains(q) implies q < d.m() by { if q != r { assert(c.empty_routes@.contains(q) == a.empty_routes@.contains(q)); } } }
}
pub proof fn lem_all_loaded(h0: LocalSearch, h: LocalSearch, n: int, p: Seq<Vec<usize>>)
    requires loading(&h0, &h, tours_of(p), h.m()), complete(n, p), n == h.n(), h.m() <= usize::MAX
    ensures repr(&h, tours_of(p)), entries_ok(&h, tours_of(p))
{
    let t = tours_of(p);
    assert(all_held(&h, t)) by { reveal(held_to); reveal(all_held); }
    assert(entries_ok(&h, t)) by { reveal(stale_to); reveal(entries_ok); }
    assert(covered(&h, t)) by {
        reveal(covered);
        assert forall|q: Ptr| customer(q, h.n()) implies #[trigger] on(&h, t, q) by {
            let x = q->Node_0;
            let (r, j) = lem_find(n, p, x);
            assert(t[r][j + 1] == q);
            assert(h.holds(r, t[r])) by { reveal(held_to); }
            reveal(LocalSearch::placed_to);
            assert(h.nd(t[r][j + 1]).position == j + 1);
        }
    }
}
pub proof fn lem_find(n: int, p: Seq<Vec<usize>>, x: usize) -> (rj: (int, int))
    requires complete(n, p), 0 < x < n
    ensures 0 <= rj.0 < p.len(), 0 <= rj.1 < p[rj.0]@.len(), p[rj.0]@[rj.1] == x
{
    reveal(complete);
    assert(locc(p, p.len() as int, x) == 1);
    lem_find_in(p, p.len() as int, x)
}
pub proof fn lem_find_in(p: Seq<Vec<usize>>, k: int, x: usize) -> (rj: (int, int))
    requires 0 <= k <= p.len(), locc(p, k, x) >= 1
    ensures 0 <= rj.0 < k, 0 <= rj.1 < p[rj.0]@.len(), p[rj.0]@[rj.1] == x
    decreases k
{
    if occ(p[k - 1]@, x) >= 1 { (k - 1, lem_occ_find(p[k - 1]@, x)) } else { lem_find_in(p, k - 1, x) }
}
// what an individual costs in the search
pub open spec fn search_cost(ctx: &Context, pen: real, s: Seq<Vec<usize>>) -> real { pen_cost(ctx, pen, s, s.len() as int) }
pub proof fn lem_spells(p: Seq<Vec<usize>>)
    ensures spelled(tours_of(p), p)
{
    let t = tours_of(p);
    assert forall|r: int| 0 <= r < t.len() implies (#[trigger] t[r]).len() == p[r]@.len() + 2 && num(t[r][0]) == 0 && num(t[r][t[r].len() - 1]) == 0 && (forall|i: int| 0 <= i < p[r]@.len() ==> num(#[trigger] t[r][i + 1]) == p[r]@[i]) by { assert(t[r] == tour_of(r, p[r]@)); }
}
pub proof fn lem_settled(h: &LocalSearch)
    requires set_up(h)
    ensures idle(h)
{
    reveal(set_up);
    let t = tours(h);
    assert(ends_open(h)) by {
        reveal(ends_open);
        assert forall|r: int| 0 <= r < h.m() implies (#[trigger] h.end_depots@[r]).successor == Ptr::Null by { lem_route(h, t, r); lem_pos(h, t, r, t[r].len() - 1); assert(h.nd(Ptr::End(r as usize)) == h.end_depots@[r]); }
    }
}
pub proof fn lem_flat_frame(a: Seq<Vec<usize>>, b: Seq<Vec<usize>>, k: int)
    requires 0 <= k <= a.len(), k <= b.len(), forall|i: int| 0 <= i < k ==> (#[trigger] a[i])@ == b[i]@
    ensures flat(a, k) == flat(b, k)
    decreases k
{ if k > 0 { lem_flat_frame(a, b, k - 1); assert(a[k - 1]@ == b[k - 1]@); } }
pub proof fn lem_lists(h: &LocalSearch, t: Tours, p: Seq<Vec<usize>>)
    requires repr(h, t), p.len() == t.len(), forall|r: int| 0 <= r < t.len() ==> (#[trigger] p[r])@ == list_of(t[r])
    ensures spelled(t, p), complete(h.n(), p), nodes_ok(&h.ctx, p)
{
    assert forall|r: int| 0 <= r < t.len() implies (#[trigger] t[r]).len() == p[r]@.len() + 2 && num(t[r][0]) == 0 && num(t[r][t[r].len() - 1]) == 0 && (forall|i: int| 0 <= i < p[r]@.len() ==> num(#[trigger] t[r][i + 1]) == p[r]@[i]) by {
        assert(p[r]@ == list_of(t[r])); lem_route(h, t, r); lem_pos(h, t, r, 0); lem_pos(h, t, r, t[r].len() - 1);
        assert forall|i: int| 0 <= i < p[r]@.len() implies num(#[trigger] t[r][i + 1]) == p[r]@[i] by { lem_pos(h, t, r, i + 1); assert(h.n() == h.nodes.len()); }
    }
    lem_spelled_complete(h, t, p);
    lem_complete(h.n(), p);
}
pub proof fn lem_same_complete(n: int, a: Seq<Vec<usize>>, b: Seq<Vec<usize>>)
    requires complete(n, a), same_lists(a, b)
    ensures complete(n, b), b.len() == a.len(), len_sum(a, a.len() as int) == len_sum(b, b.len() as int)
{
    let q = choose|q: Seq<int>| lists_by(a, b, q);
    reveal(complete);
    lem_lists_locc(a, b, q, 0);
    assert forall|x: usize| #[trigger] locc(b, b.len() as int, x) == if 0 < x < n { 1int } else { 0int } by { lem_lists_locc(a, b, q, x); assert(locc(a, a.len() as int, x) == if 0 < x < n { 1int } else { 0int }); }
}
// the individual is a full description of what the search holds
pub open spec fn described(ctx: &Context, x: &Individual) -> bool {
    complete(ctx.n(), x.phenotype@) && x.genotype@ == flat_all(x.phenotype@) && eval_of(ctx, x.evaluation, x.phenotype@)
}
pub proof fn lem_wiped(a: &LocalSearch, b: &LocalSearch)
    requires idle(a), *b == (LocalSearch { move_count: b.move_count, nodes: b.nodes, penalty_capacity: b.penalty_capacity, ..*a }), b.nodes@.len() == a.nodes@.len(), forall|i: int| 0 <= i < a.nodes@.len() ==> #[trigger] b.nodes@[i] == (LinkNode { last_tested: -1i32, ..a.nodes@[i] })
    ensures idle(b)
{
    assert forall|q: Ptr| a.live(q) implies (#[trigger] b.nd(q)) == (LinkNode { last_tested: b.nd(q).last_tested, ..a.nd(q) }) by { match q { Ptr::Node(i) => { assert(b.nodes@[i as int] == (LinkNode { last_tested: -1i32, ..a.nodes@[i as int] })); }, _ => {} } }
    assert(b.nodes_ok()) by { reveal(LocalSearch::nodes_ok); assert forall|p: Ptr| b.live(p) implies (#[trigger] b.nd(p)).number == num(p) && in_range(b.nd(p).angle as int) by { assert(a.live(p)); assert(a.nd(p).number == num(p)); } }
    assert(b.routes_ok() && b.starts_ok()) by { reveal(LocalSearch::routes_ok); reveal(LocalSearch::starts_ok); }
    assert(ends_open(b)) by { reveal(ends_open); }
}
