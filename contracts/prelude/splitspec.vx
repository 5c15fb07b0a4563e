@raw
// ---- the tour as the split sees it: cumulated distances and loads of the giant tour
pub struct Tour { pub nodes: Seq<NodeSplit>, pub cd: Seq<R>, pub cl: Seq<R>, pub cap: real, pub pen: real }
pub open spec fn tour(s: &Split) -> Tour { Tour { nodes: s.nodes@, cd: s.cum_distance@, cl: s.cum_load@, cap: s.vehicle_cap@, pen: s.penalty_capacity@ } }
#[verifier::opaque]
pub open spec fn sc(p: real, x: real) -> real { p * x }
pub proof fn lem_sc_sub(p: real, a: real, b: real) ensures sc(p, a - b) == sc(p, a) - sc(p, b), sc(p, a - b) == p * (a - b) { reveal(sc); assert(p * (a - b) == p * a - p * b) by (nonlinear_arith); }
pub proof fn lem_sc_max(p: real, a: real, b: real, c: real)
    requires p >= 0real
    ensures p * rmax(0real, a - b - c) == rmax(0real, sc(p, a) - sc(p, b) - sc(p, c)), p * (a - b) == sc(p, a) - sc(p, b), p * (a - b - c) == sc(p, a) - sc(p, b) - sc(p, c), (a - b - c) * p == sc(p, a) - sc(p, b) - sc(p, c)
{
    reveal(sc);
    let x = a - b - c;
    assert(p * x == p * a - p * b - p * c) by (nonlinear_arith) requires x == a - b - c;
    assert(p * (a - b) == p * a - p * b) by (nonlinear_arith);
    assert(x * p == p * x) by (nonlinear_arith);
    if x >= 0real { assert(p * x >= 0real) by (nonlinear_arith) requires p >= 0real, x >= 0real; } else { assert(p * x <= 0real) by (nonlinear_arith) requires p >= 0real, x < 0real; assert(p * 0real == 0real) by (nonlinear_arith); }
}
pub proof fn lem_sc_mono(p: real, a: real, b: real) requires p >= 0real, a <= b ensures sc(p, a) <= sc(p, b)
{ reveal(sc); assert(p * a <= p * b) by (nonlinear_arith) requires p >= 0real, a <= b; }
pub open spec fn dep(t: Tour, i: int) -> real { t.nodes[i].distance_depot@ }
pub open spec fn scl(t: Tour, i: int) -> real { sc(t.pen, t.cl[i]@) }
pub open spec fn scap(t: Tour) -> real { sc(t.pen, t.cap) }
// penalized cost of the route made of customers i+1 ..= j of the tour
pub open spec fn sg(t: Tour, i: int, j: int) -> real { t.cd[j]@ - t.cd[i + 1]@ + dep(t, i + 1) + dep(t, j) + rmax(0real, scl(t, j) - scl(t, i) - scap(t)) }
pub open spec fn hh(t: Tour, p: real, q: int) -> real { p + dep(t, q + 1) - t.cd[q + 1]@ }
pub open spec fn hq(t: Tour, p: Seq<R>, q: int) -> real { hh(t, p[q]@, q) }
pub open spec fn fx(t: Tour, p: Seq<R>, q: int, x: int) -> real { p[q]@ + sg(t, q, x) }
pub open spec fn reps(b: real, k: int) -> real
    decreases k
{ if k <= 0 { 0real } else { reps(b, k - 1) + b } }
pub proof fn lem_reps(b: real, i: int, j: int) requires b >= 0real, i <= j ensures reps(b, i) <= reps(b, j), reps(b, i) >= 0real, 0 < j && i < j ==> reps(b, i) + b <= reps(b, j)
    decreases (if j > 0 { j } else { 0 }), 1int
{ lem_reps_pos(b, i); if i < j && j > 0 { lem_reps_le(b, i, j - 1); } else if i < j { } }
pub proof fn lem_reps_pos(b: real, i: int) requires b >= 0real ensures reps(b, i) >= 0real decreases i { if i > 0 { lem_reps_pos(b, i - 1); } }
pub proof fn lem_reps_le(b: real, i: int, j: int) requires b >= 0real, i <= j ensures reps(b, i) <= reps(b, j) decreases (if j > 0 { j } else { 0 })
{ if i < j && j > 0 { lem_reps_le(b, i, j - 1); } else if j <= 0 { } }
pub open spec fn slk(k: int) -> real { reps(EPSILON_spec(), k) }
pub open spec fn tl(t: Tour) -> int { t.nodes.len() as int }
pub open spec fn shaped(t: Tour) -> bool { tl(t) >= 1 && t.cd.len() == tl(t) && t.cl.len() == tl(t) && t.pen >= 0real }
// loads never decrease along the tour
#[verifier::opaque]
pub open spec fn rising(t: Tour) -> bool { forall|i: int, j: int| 0 <= i <= j < tl(t) ==> #[trigger] scl(t, i) <= #[trigger] scl(t, j) }
// the penalty of every customer's demand exceeds the comparison tolerance
#[verifier::opaque]
pub open spec fn steep(t: Tour) -> bool { forall|i: int, j: int| 0 <= i < j < tl(t) ==> #[trigger] scl(t, i) + EPSILON_spec() <= #[trigger] scl(t, j) }
// costs of routes are between 0 and b, and b is far from the value that marks the unreachable
#[verifier::opaque]
pub open spec fn bounded(t: Tour, b: real) -> bool {
    (forall|i: int, j: int| 0 <= i < j < tl(t) ==> 0real <= #[trigger] sg(t, i, j) <= b) && (forall|i: int| 1 <= i < tl(t) ==> #[trigger] dep(t, i) >= 0real) && reps(b, tl(t)) <= 100000000000000000000000000000.0real && scap(t) <= 100000000000000000000000000000.0real && b >= 0real
}
pub open spec fn big() -> real { 1000000000000000000000000000000.0real }
pub open spec fn reach() -> real { 100000000000000000000000000000.0real }
// ---- one row of the table: costs p of the paths it starts from, costs q and predecessors d of the paths found
pub open spec fn slop(t: Tour) -> real { sc(t.pen, EPSILON_spec()) }
pub open spec fn cell(t: Tour, p: Seq<R>, q: Seq<R>, d: Seq<usize>, k: int, y: int) -> bool {
    q[y]@ <= reach() ==> k <= d[y] < y && p[d[y] as int]@ <= reach() && p[d[y] as int]@ + sg(t, d[y] as int, y) <= q[y]@ + slop(t)
}
pub open spec fn may(t: Tour, lin: bool, lim: real, c: int, y: int) -> bool { lin || t.cl[y]@ - t.cl[c]@ <= lim }
pub open spec fn least(t: Tour, p: Seq<R>, v: real, lin: bool, lim: real, k: int, y: int) -> bool {
    forall|c: int| k <= c < y && #[trigger] may(t, lin, lim, c, y) ==> v <= fx(t, p, c, y) + slk(tl(t))
}
// ---- linear split: the queue of candidates
#[verifier::opaque]
pub open spec fn lined(q: Seq<usize>, k: int, i: int) -> bool { (forall|a: int| 0 <= a < q.len() ==> k <= #[trigger] q[a] < i) && forall|a: int, b: int| 0 <= a < b < q.len() ==> #[trigger] q[a] < #[trigger] q[b] }
pub open spec fn by_queue(t: Tour, p: Seq<R>, q: Seq<usize>, c: int, x: int, s: real) -> bool { exists|a: int| 0 <= a < q.len() && fx(t, p, (#[trigger] q[a]) as int, x) <= fx(t, p, c, x) + s }
pub open spec fn inc(t: Tour, p: Seq<R>, q: Seq<usize>) -> bool { forall|a: int, b: int| 0 <= a < b < q.len() ==> hq(t, p, (#[trigger] q[a]) as int) + EPSILON_spec() <= hq(t, p, (#[trigger] q[b]) as int) }
pub open spec fn undom(t: Tour, p: Seq<R>, a: int, b: int) -> bool { hq(t, p, b) <= hq(t, p, a) + scl(t, b) - scl(t, a) }
pub open spec fn nd(t: Tour, p: Seq<R>, q: Seq<usize>) -> bool { forall|a: int| 0 <= a < q.len() - 1 ==> undom(t, p, (#[trigger] q[a]) as int, q[a + 1] as int) }
#[verifier::opaque]
pub open spec fn lopt(t: Tour, p: Seq<R>, q: Seq<usize>, i: int, k: int, pops: int) -> bool {
    &&& inc(t, p, q) && nd(t, p, q) && 0 <= pops && pops + q.len() <= i - k
    &&& forall|c: int, x: int| k <= c < i && i <= x < tl(t) ==> #[trigger] by_queue(t, p, q, c, x, slk(pops)) 
}
#[verifier::opaque]
pub open spec fn mid(t: Tour, p: Seq<R>, q: Seq<usize>, i: int, k: int, pops: int) -> bool {
    &&& inc(t, p, q) && nd(t, p, q) && 0 <= pops && pops + q.len() <= i - k
    &&& q.len() > 0 ==> undom(t, p, q.last() as int, i)
    &&& forall|c: int, x: int| k <= c < i && i < x < tl(t) ==> #[trigger] by_queue(t, p, q, c, x, slk(pops)) || fx(t, p, i, x) <= fx(t, p, c, x) + slk(pops)
}
#[verifier::opaque]
pub open spec fn fronted(t: Tour, p: Seq<R>, q: Seq<usize>, x: int) -> bool { forall|a: int| 0 <= a < q.len() ==> fx(t, p, q[0] as int, x) <= fx(t, p, (#[trigger] q[a]) as int, x) }
pub proof fn lem_lopt_start(t: Tour, p: Seq<R>, q: Seq<usize>, k: int)
    requires q.len() == 1, q[0] == k
    ensures lopt(t, p, q, k + 1, k, 0), fronted(t, p, q, k + 1)
{ reveal(lopt); reveal(fronted);
  assert forall|c: int, x: int| k <= c < k + 1 && k + 1 <= x < tl(t) implies #[trigger] by_queue(t, p, q, c, x, slk(0)) by { assert(fx(t, p, q[0] as int, x) <= fx(t, p, c, x) + slk(0)); } }
pub proof fn lem_lopt_frame(t: Tour, p: Seq<R>, p2: Seq<R>, q: Seq<usize>, i: int, k: int, pops: int)
    requires lopt(t, p, q, i, k, pops), lined(q, k, i), forall|j: int| k <= j < i ==> #[trigger] p[j] == p2[j]
    ensures lopt(t, p2, q, i, k, pops)
{
    reveal(lopt); reveal(lined);
    assert forall|a: int| 0 <= a < q.len() implies hq(t, p2, (#[trigger] q[a]) as int) == hq(t, p, q[a] as int) by { assert(p[q[a] as int] == p2[q[a] as int]); }
    assert(nd(t, p2, q)) by { assert forall|a: int| 0 <= a < q.len() - 1 implies undom(t, p2, (#[trigger] q[a]) as int, q[a + 1] as int) by { assert(undom(t, p, q[a] as int, q[a + 1] as int)); assert(hq(t, p2, q[a + 1] as int) == hq(t, p, q[a + 1] as int)); } }
    assert forall|c: int, x: int| k <= c < i && i <= x < tl(t) implies #[trigger] by_queue(t, p2, q, c, x, slk(pops)) by {
        assert(by_queue(t, p, q, c, x, slk(pops)));
        let a = choose|a: int| 0 <= a < q.len() && fx(t, p, (#[trigger] q[a]) as int, x) <= fx(t, p, c, x) + slk(pops);
        assert(p[q[a] as int] == p2[q[a] as int]); assert(p[c] == p2[c]);
        assert(fx(t, p2, q[a] as int, x) <= fx(t, p2, c, x) + slk(pops));
    }
}
// what the front of the queue is worth
pub proof fn lem_front_least(t: Tour, p: Seq<R>, q: Seq<usize>, i: int, k: int, pops: int, lin: bool, lim: real)
    requires lopt(t, p, q, i, k, pops), fronted(t, p, q, i), i < tl(t), 0 <= k < i, q.len() > 0
    ensures least(t, p, fx(t, p, q[0] as int, i), lin, lim, k, i)
{
    reveal(lopt); reveal(fronted);
    lem_reps(EPSILON_spec(), pops, tl(t));
    assert forall|c: int| k <= c < i && #[trigger] may(t, lin, lim, c, i) implies fx(t, p, q[0] as int, i) <= fx(t, p, c, i) + slk(tl(t)) by {
        assert(by_queue(t, p, q, c, i, slk(pops)));
        let a = choose|a: int| 0 <= a < q.len() && fx(t, p, (#[trigger] q[a]) as int, i) <= fx(t, p, c, i) + slk(pops);
        assert(fx(t, p, q[0] as int, i) <= fx(t, p, q[a] as int, i));
    }
}
// candidate i is never better than the back of the queue
pub proof fn lem_skip(t: Tour, p: Seq<R>, q: Seq<usize>, i: int, k: int, pops: int)
    requires lopt(t, p, q, i, k, pops), q.len() > 0, lined(q, k, i), 0 <= k < i, i + 1 < tl(t), rising(t),
        hq(t, p, i) > hq(t, p, q.last() as int) + scl(t, i) - scl(t, q.last() as int),
    ensures lopt(t, p, q, i + 1, k, pops)
{
    reveal(lopt); reveal(lined);
    lem_reps(EPSILON_spec(), 0, pops);
    assert forall|c: int, x: int| k <= c < i + 1 && i + 1 <= x < tl(t) implies #[trigger] by_queue(t, p, q, c, x, slk(pops)) by {
        if c < i { assert(by_queue(t, p, q, c, x, slk(pops))); }
        else { reveal(rising); let b = q[q.len() - 1]; assert(q.last() == b); assert(scl(t, b as int) <= scl(t, i)); assert(fx(t, p, q[q.len() - 1] as int, x) <= fx(t, p, c, x) + slk(pops)); }
    }
}
pub proof fn lem_mid_start(t: Tour, p: Seq<R>, q: Seq<usize>, i: int, k: int, pops: int)
    requires lopt(t, p, q, i, k, pops), q.len() > 0, !(hq(t, p, i) > hq(t, p, q.last() as int) + scl(t, i) - scl(t, q.last() as int)),
    ensures mid(t, p, q, i, k, pops)
{
    reveal(lopt); reveal(mid);
    assert forall|c: int, x: int| k <= c < i && i < x < tl(t) implies #[trigger] by_queue(t, p, q, c, x, slk(pops)) || fx(t, p, i, x) <= fx(t, p, c, x) + slk(pops) by { assert(by_queue(t, p, q, c, x, slk(pops))); }
}
// a later candidate that starts no dearer stays no dearer
pub proof fn lem_fx_order(t: Tour, p: Seq<R>, a: int, b: int, x: int, e: real)
    requires rising(t), 0 <= a <= b < x < tl(t), hq(t, p, b) <= hq(t, p, a) + e
    ensures fx(t, p, b, x) <= fx(t, p, a, x) + e
{ reveal(rising); assert(scl(t, a) <= scl(t, b)); }
pub proof fn lem_inc_nd_back(t: Tour, p: Seq<R>, q: Seq<usize>)
    requires inc(t, p, q), nd(t, p, q), q.len() > 0
    ensures inc(t, p, q.drop_last()), nd(t, p, q.drop_last()), q.len() > 1 ==> undom(t, p, q[q.len() - 2] as int, q[q.len() - 1] as int)
{
    let r = q.drop_last();
    assert(inc(t, p, r)) by { assert forall|x: int, y: int| 0 <= x < y < r.len() implies hq(t, p, (#[trigger] r[x]) as int) + EPSILON_spec() <= hq(t, p, (#[trigger] r[y]) as int) by { assert(r[x] == q[x] && r[y] == q[y]); } }
    assert(nd(t, p, r)) by { assert forall|a: int| 0 <= a < r.len() - 1 implies undom(t, p, (#[trigger] r[a]) as int, r[a + 1] as int) by { assert(r[a] == q[a] && r[a + 1] == q[a + 1]); assert(undom(t, p, q[a] as int, q[a + 1] as int)); } }
    if q.len() > 1 { assert(undom(t, p, q[q.len() - 2] as int, q[q.len() - 2 + 1] as int)); }
}
pub proof fn lem_undom_step(t: Tour, p: Seq<R>, a: int, b: int, i: int)
    requires undom(t, p, a, b), hq(t, p, i) < hq(t, p, b) + EPSILON_spec(), steep(t), 0 <= b < i < tl(t)
    ensures undom(t, p, a, i)
{ reveal(steep); assert(scl(t, b) + EPSILON_spec() <= scl(t, i)); }
// candidate i replaces the back of the queue
pub proof fn lem_pop_back(t: Tour, p: Seq<R>, q: Seq<usize>, i: int, k: int, pops: int)
    requires mid(t, p, q, i, k, pops), q.len() > 0, lined(q, k, i), 0 <= k < i, i + 1 < tl(t), rising(t), steep(t),
        hq(t, p, i) < hq(t, p, q.last() as int) + EPSILON_spec(),
    ensures mid(t, p, q.drop_last(), i, k, pops + 1)
{
    reveal(mid);
    let r = q.drop_last(); let b = q.last() as int;
    assert(0 <= b < i) by { reveal(lined); assert(q[q.len() - 1] == q.last()); }
    lem_inc_nd_back(t, p, q);
    if r.len() > 0 { assert(r.last() == q[q.len() - 2]); lem_undom_step(t, p, q[q.len() - 2] as int, b, i); }
    assert(slk(pops + 1) == slk(pops) + EPSILON_spec());
    assert forall|c: int, x: int| k <= c < i && i < x < tl(t) implies #[trigger] by_queue(t, p, r, c, x, slk(pops + 1)) || fx(t, p, i, x) <= fx(t, p, c, x) + slk(pops + 1) by {
        assert(by_queue(t, p, q, c, x, slk(pops)) || fx(t, p, i, x) <= fx(t, p, c, x) + slk(pops));
        if by_queue(t, p, q, c, x, slk(pops)) { lem_pop_back_at(t, p, q, i, c, x, slk(pops)); }
    }
}
pub proof fn lem_pop_back_at(t: Tour, p: Seq<R>, q: Seq<usize>, i: int, c: int, x: int, s: real)
    requires by_queue(t, p, q, c, x, s), q.len() > 0, rising(t), 0 <= q.last() < i < x < tl(t), hq(t, p, i) < hq(t, p, q.last() as int) + EPSILON_spec(),
    ensures by_queue(t, p, q.drop_last(), c, x, s + EPSILON_spec()) || fx(t, p, i, x) <= fx(t, p, c, x) + (s + EPSILON_spec())
{
    let a = choose|a: int| 0 <= a < q.len() && fx(t, p, (#[trigger] q[a]) as int, x) <= fx(t, p, c, x) + s;
    let r = q.drop_last();
    if a < r.len() { assert(r[a] == q[a]); assert(fx(t, p, r[a] as int, x) <= fx(t, p, c, x) + (s + EPSILON_spec())); }
    else { assert(q[a] == q.last()); lem_fx_order(t, p, q.last() as int, i, x, EPSILON_spec()); }
}
pub proof fn lem_push(t: Tour, p: Seq<R>, q: Seq<usize>, i: usize, k: int, pops: int)
    requires mid(t, p, q, i as int, k, pops), lined(q, k, i as int), q.len() > 0 ==> !(hq(t, p, i as int) < hq(t, p, q.last() as int) + EPSILON_spec()),
    ensures lopt(t, p, q.push(i), i + 1, k, pops)
{
    reveal(mid); reveal(lopt); reveal(lined);
    let r = q.push(i); let m = q.len() as int;
    lem_reps(EPSILON_spec(), 0, pops);
    assert(inc(t, p, r)) by { assert forall|x: int, y: int| 0 <= x < y < r.len() implies hq(t, p, (#[trigger] r[x]) as int) + EPSILON_spec() <= hq(t, p, (#[trigger] r[y]) as int) by {
        assert(r[x] == q[x]); if y < m { assert(r[y] == q[y]); } else { assert(q[m - 1] == q.last()); if x < m - 1 { assert(hq(t, p, q[x] as int) + EPSILON_spec() <= hq(t, p, q[m - 1] as int)); } } } }
    assert(nd(t, p, r)) by { assert forall|a: int| 0 <= a < r.len() - 1 implies undom(t, p, (#[trigger] r[a]) as int, r[a + 1] as int) by { assert(r[a] == q[a]); if a < m - 1 { assert(r[a + 1] == q[a + 1]); } else { assert(q[m - 1] == q.last()); } } }
    assert forall|c: int, x: int| k <= c < i + 1 && i + 1 <= x < tl(t) implies #[trigger] by_queue(t, p, r, c, x, slk(pops)) by {
        if c < i && by_queue(t, p, q, c, x, slk(pops)) {
            let a = choose|a: int| 0 <= a < q.len() && fx(t, p, (#[trigger] q[a]) as int, x) <= fx(t, p, c, x) + slk(pops);
            assert(r[a] == q[a]);
        } else { assert(r[m] == i); assert(fx(t, p, r[m] as int, x) <= fx(t, p, c, x) + slk(pops)); }
    }
}
// once a later candidate is cheaper it stays cheaper
pub proof fn lem_fx_later(t: Tour, p: Seq<R>, a: int, b: int, i: int, x: int)
    requires rising(t), 0 <= a < b < i <= x < tl(t), fx(t, p, a, i) > fx(t, p, b, i) - EPSILON_spec()
    ensures fx(t, p, b, x) <= fx(t, p, a, x) + EPSILON_spec()
{ reveal(rising); assert(scl(t, a) <= scl(t, b)); assert(scl(t, i) <= scl(t, x)); }
pub proof fn lem_pop_front(t: Tour, p: Seq<R>, q: Seq<usize>, i: int, k: int, pops: int)
    requires lopt(t, p, q, i, k, pops), lined(q, k, i), 0 <= k < i < tl(t), q.len() > 1, rising(t), fx(t, p, q[0] as int, i) > fx(t, p, q[1] as int, i) - EPSILON_spec(),
    ensures lopt(t, p, q.drop_first(), i, k, pops + 1)
{
    reveal(lopt); reveal(lined);
    let r = q.drop_first();
    assert(inc(t, p, r)) by { assert forall|x: int, y: int| 0 <= x < y < r.len() implies hq(t, p, (#[trigger] r[x]) as int) + EPSILON_spec() <= hq(t, p, (#[trigger] r[y]) as int) by { assert(r[x] == q[x + 1] && r[y] == q[y + 1]); } }
    assert(nd(t, p, r)) by { assert forall|a: int| 0 <= a < r.len() - 1 implies undom(t, p, (#[trigger] r[a]) as int, r[a + 1] as int) by { assert(r[a] == q[a + 1] && r[a + 1] == q[a + 2]); } }
    assert(slk(pops + 1) == slk(pops) + EPSILON_spec());
    let a0 = q[0] as int; let a1 = q[1] as int;
    assert forall|c: int, x: int| k <= c < i && i <= x < tl(t) implies #[trigger] by_queue(t, p, r, c, x, slk(pops + 1)) by {
        assert(by_queue(t, p, q, c, x, slk(pops)));
        let a = choose|a: int| 0 <= a < q.len() && fx(t, p, (#[trigger] q[a]) as int, x) <= fx(t, p, c, x) + slk(pops);
        if a > 0 { assert(r[a - 1] == q[a]); assert(fx(t, p, r[a - 1] as int, x) <= fx(t, p, c, x) + slk(pops + 1)); }
        else { assert(r[0] == q[1]); assert(0 <= q[0] < q[1] < i) by { assert(k <= q[0]); assert(q[1] < i); } lem_fx_later(t, p, a0, a1, i, x); assert(fx(t, p, r[0] as int, x) <= fx(t, p, c, x) + slk(pops + 1)); }
    }
}
pub proof fn lem_fronted(t: Tour, p: Seq<R>, q: Seq<usize>, i: int, k: int, pops: int)
    requires lopt(t, p, q, i, k, pops), lined(q, k, i), 0 <= k < i < tl(t), q.len() >= 1, rising(t), q.len() > 1 ==> !(fx(t, p, q[0] as int, i) > fx(t, p, q[1] as int, i) - EPSILON_spec()),
    ensures fronted(t, p, q, i)
{
    reveal(lopt); reveal(lined); reveal(fronted);
    assert forall|a: int| 0 <= a < q.len() implies fx(t, p, q[0] as int, i) <= fx(t, p, (#[trigger] q[a]) as int, i) by {
        if a > 0 {
            assert(q[0] < q[1]); reveal(rising); assert(scl(t, q[0] as int) <= scl(t, q[1] as int)); assert(undom(t, p, q[0] as int, q[0int + 1] as int));
            if a > 1 { assert(hq(t, p, q[1] as int) + EPSILON_spec() <= hq(t, p, q[a] as int)); }
        }
    }
}
pub proof fn lem_lined_push(q: Seq<usize>, k: int, i: usize) requires lined(q, k, i as int), k <= i ensures lined(q.push(i), k, i + 1)
{ reveal(lined); let r = q.push(i); assert forall|a: int, b: int| 0 <= a < b < r.len() implies #[trigger] r[a] < #[trigger] r[b] by { assert(r[a] == q[a]); if b < q.len() { assert(r[b] == q[b]); } } }
pub proof fn lem_lined_sub(q: Seq<usize>, k: int, i: int) requires lined(q, k, i)
    ensures lined(q, k, i + 1), q.len() > 0 ==> lined(q.drop_last(), k, i) && lined(q.drop_first(), k, i) && k <= q[0] < i && k <= q.last() < i, q.len() > 1 ==> q[0] < q[1] < i
{ reveal(lined); if q.len() > 0 { let r = q.drop_first(); assert forall|a: int, b: int| 0 <= a < b < r.len() implies #[trigger] r[a] < #[trigger] r[b] by { assert(r[a] == q[a + 1] && r[b] == q[b + 1]); } assert(q[q.len() - 1] == q.last()); } }
