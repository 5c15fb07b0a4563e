@raw
// ---- tours: the nodes of a route from its start depot to its end depot
pub type Tour = Seq<Ptr>;
pub type Tours = Seq<Seq<Ptr>>;
pub open spec fn num(p: Ptr) -> int { match p { Ptr::Node(c) => c as int, _ => 0 } }
// distance along the first k links
pub open spec fn plen(ctx: &Context, s: Tour, k: int) -> real
    decreases k
{ if k <= 0 { 0real } else { plen(ctx, s, k - 1) + ctx.d(num(s[k - 1]), num(s[k])) } }
// demand of the first k nodes
pub open spec fn pload(ctx: &Context, s: Tour, k: int) -> real
    decreases k
{ if k <= 0 { 0real } else { pload(ctx, s, k - 1) + ctx.demand(num(s[k - 1])) } }
pub open spec fn tlen(ctx: &Context, s: Tour) -> real { plen(ctx, s, s.len() - 1) }
pub open spec fn tload(ctx: &Context, s: Tour) -> real { pload(ctx, s, s.len() as int) }
pub open spec fn tover(ctx: &Context, s: Tour) -> real { tload(ctx, s) - ctx.cap() }
pub open spec fn tcost(ctx: &Context, pen: real, s: Tour) -> real { tlen(ctx, s) + pen * rmax(0real, tover(ctx, s)) }
pub open spec fn tours_cost(ctx: &Context, pen: real, t: Tours, k: int) -> real
    decreases k
{ if k <= 0 { 0real } else { tours_cost(ctx, pen, t, k - 1) + tcost(ctx, pen, t[k - 1]) } }
pub open spec fn customer(p: Ptr, n: int) -> bool { match p { Ptr::Node(c) => 0 < c < n, _ => false } }
// start depot, customers, end depot
#[verifier::opaque]
pub open spec fn well_formed(s: Tour, r: int, n: int) -> bool {
    s.len() >= 2 && s[0] == Ptr::Start(r as usize) && s[s.len() - 1] == Ptr::End(r as usize) && forall|i: int| 0 < i < s.len() - 1 ==> customer(#[trigger] s[i], n)
}
#[verifier::opaque]
pub open spec fn distinct(s: Tour) -> bool { forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j ==> s[i] != s[j] }
impl LocalSearch {
    // what never changes after construction
    #[verifier::opaque]
    pub open spec fn nodes_ok(&self) -> bool { forall|p: Ptr| self.live(p) ==> (#[trigger] self.nd(p)).number == num(p) && in_range(self.nd(p).angle as int) }
    #[verifier::opaque]
    pub open spec fn routes_ok(&self) -> bool {
        forall|r: int| 0 <= r < self.m() ==> (#[trigger] self.routes@[r]).index == r && self.routes@[r].start_depot == Ptr::Start(r as usize) && self.routes@[r].end_depot == Ptr::End(r as usize)
            && (self.routes@[r].sector.nil() || self.routes@[r].sector.wf())
    }
    #[verifier::opaque]
    pub open spec fn starts_ok(&self) -> bool { forall|r: int| 0 <= r < self.m() ==> (#[trigger] self.start_depots@[r]).cum_distance@ == 0real && self.start_depots@[r].cum_load@ == 0real }
    pub open spec fn shape(&self) -> bool {
        &&& self.ctx.wf() && self.ctx.demand(0) == 0real && self.n() <= 0x7fff_ffff
        &&& (forall|i: int, j: int| 0 <= i < self.n() && 0 <= j < self.n() ==> #[trigger] self.ctx.d(i, j) == self.ctx.d(j, i))
        &&& self.n() == self.ctx.n() && self.start_depots@.len() == self.m() && self.end_depots@.len() == self.m()
        &&& self.nodes_ok() && self.routes_ok() && self.starts_ok()
        &&& self.best_inserts.ok() && self.best_inserts.rows == self.m() && self.best_inserts.cols == self.n()
    }
    // successor links spell out s
    #[verifier::opaque]
    pub open spec fn chained(&self, s: Tour) -> bool {
        (forall|i: int| 0 <= i < s.len() - 1 ==> self.succ(#[trigger] s[i]) == s[i + 1]) && (s.len() > 0 ==> self.succ(s[s.len() - 1]) == Ptr::Null)
    }
    #[verifier::opaque]
    pub open spec fn back(&self, s: Tour) -> bool {
        (forall|i: int| 0 < i < s.len() ==> self.pred(#[trigger] s[i]) == s[i - 1]) && (s.len() > 0 ==> self.pred(s[0]) == Ptr::Null)
    }
    pub open spec fn chain(&self, r: int, s: Tour) -> bool { 0 <= r < self.m() && well_formed(s, r, self.n()) && distinct(s) && self.chained(s) }
    // the values cached in the nodes and in the route
    #[verifier::opaque]
    pub open spec fn placed_to(&self, r: int, s: Tour, k: int) -> bool {
        forall|i: int| 0 <= i < k ==> self.nd(#[trigger] s[i]).route == Ptr::Route(r as usize) && self.nd(s[i]).position == i
            && self.nd(s[i]).cum_distance@ == plen(&self.ctx, s, i) && self.nd(s[i]).cum_load@ == pload(&self.ctx, s, i + 1)
    }
    pub open spec fn placed(&self, r: int, s: Tour) -> bool { self.placed_to(r, s, s.len() as int) }
    pub open spec fn summed(&self, r: int, s: Tour) -> bool {
        &&& self.routes@[r].distance@ == tlen(&self.ctx, s) && self.routes@[r].load@ == tload(&self.ctx, s) && self.routes@[r].overload@ == tover(&self.ctx, s)
        &&& self.routes@[r].cost@ == tcost(&self.ctx, self.penalty_capacity@, s) && self.routes@[r].num_customers == s.len() - 2
        &&& self.empty_routes@.contains(r as usize) == (s.len() == 2)
        &&& (s.len() > 2 ==> self.routes@[r].sector.wf())
    }
    // route r is s, in both directions, and everything cached about it is right
    pub open spec fn holds(&self, r: int, s: Tour) -> bool { self.chain(r, s) && self.back(s) && self.placed(r, s) && self.summed(r, s) }
}
// node fields no link operation or route update touches
pub open spec fn node_rest(a: LinkNode, b: LinkNode) -> bool { b.number == a.number && b.angle == a.angle && b.last_tested == a.last_tested && b.delta_removal == a.delta_removal }
pub open spec fn frame(a: LocalSearch, b: LocalSearch) -> bool {
    b.ctx == a.ctx && b.customers == a.customers && b.correlation == a.correlation && b.granularity == a.granularity && b.move_count == a.move_count
    && b.moves == a.moves && b.best_inserts == a.best_inserts && b.penalty_capacity == a.penalty_capacity
    && b.nodes@.len() == a.nodes@.len() && b.start_depots@.len() == a.start_depots@.len() && b.end_depots@.len() == a.end_depots@.len() && b.routes@.len() == a.routes@.len()
}
// update_route(r) with the chain s: links stay (the start depot loses its predecessor), the cached values of s are renewed
#[verifier::opaque]
pub open spec fn same_links(a: LocalSearch, b: LocalSearch, r: int) -> bool {
    forall|q: Ptr| a.live(q) ==> (#[trigger] b.nd(q)).successor == a.nd(q).successor && b.nd(q).predecessor == (if q == Ptr::Start(r as usize) { Ptr::Null } else { a.nd(q).predecessor }) && node_rest(a.nd(q), b.nd(q))
}
#[verifier::opaque]
pub open spec fn others_kept(a: LocalSearch, b: LocalSearch, r: int, s: Tour) -> bool {
    forall|q: Ptr| a.live(q) && !s.contains(q) ==> #[trigger] b.nd(q) == a.nd(q)
}
pub open spec fn renewed(a: LocalSearch, b: LocalSearch, r: int, s: Tour) -> bool {
    &&& frame(a, b) && b.shape() && same_links(a, b, r) && others_kept(a, b, r, s)
    &&& (forall|q: int| 0 <= q < a.m() && q != r ==> #[trigger] b.routes@[q] == a.routes@[q])
    &&& b.chained(s) && b.placed(r, s) && b.summed(r, s)
    &&& b.routes@[r].last_modified == a.move_count && b.routes@[r].last_tested_swap_star == a.routes@[r].last_tested_swap_star
    &&& (forall|q: usize| q != r ==> #[trigger] b.empty_routes@.contains(q) == a.empty_routes@.contains(q))
}
pub proof fn lem_chain_unique(h: &LocalSearch, r: int, s: Tour, t: Tour)
    requires h.chain(r, s), h.chain(r, t)
    ensures s == t
{
    reveal(well_formed); reveal(LocalSearch::chained);
    lem_chain_prefix(h, r, s, t, imin(s.len() as int, t.len() as int) - 1);
    if s.len() < t.len() { assert(s[s.len() - 1] == t[s.len() - 1]); assert(h.succ(t[s.len() - 1]) == t[s.len() as int]); assert(h.succ(s[s.len() - 1]) == Ptr::Null); 
        if s.len() < t.len() - 1 { assert(customer(t[s.len() as int], h.n())); } }
    if t.len() < s.len() { assert(s[t.len() - 1] == t[t.len() - 1]); assert(h.succ(s[t.len() - 1]) == s[t.len() as int]); assert(h.succ(t[t.len() - 1]) == Ptr::Null);
        if t.len() < s.len() - 1 { assert(customer(s[t.len() as int], h.n())); } }
    assert(s =~= t);
}
pub proof fn lem_chain_prefix(h: &LocalSearch, r: int, s: Tour, t: Tour, k: int)
    requires h.chain(r, s), h.chain(r, t), 0 <= k < s.len(), k < t.len()
    ensures forall|i: int| 0 <= i <= k ==> s[i] == t[i]
    decreases k
{
    reveal(well_formed); reveal(LocalSearch::chained);
    if k > 0 { lem_chain_prefix(h, r, s, t, k - 1); assert(h.succ(s[k - 1]) == s[k]); assert(h.succ(t[k - 1]) == t[k]); }
}
pub proof fn lem_tour_short(s: Tour, r: int, n: int)
    requires well_formed(s, r, n), distinct(s), 0 < n <= 0x7fff_ffff
    ensures s.len() <= n + 1
{
    reveal(well_formed); reveal(distinct);
    let c = Seq::new((s.len() - 2) as nat, |i: int| num(s[i + 1]) as usize);
    assert forall|i: int| 0 <= i < c.len() implies 1 <= #[trigger] c[i] <= n - 1 && s[i + 1] == Ptr::Node(c[i]) by { assert(customer(s[i + 1], n)); }
    assert(c.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < c.len() && 0 <= j < c.len() && i != j implies c[i] != c[j] by { assert(s[i + 1] != s[j + 1]); assert(s[i + 1] == Ptr::Node(c[i])); assert(s[j + 1] == Ptr::Node(c[j])); } }
    c.unique_seq_to_set();
    assert forall|x: usize| c.to_set().contains(x) implies 1 <= x <= n - 1 by { let i = choose|i: int| 0 <= i < c.len() && c[i] == x; assert(1 <= c[i] <= n - 1); }
    lem_set_bound(c.to_set(), n - 1);
}
pub open spec fn node_at(s: Tour, k: int) -> Ptr { if k < s.len() { s[k] } else { Ptr::Null } }
pub proof fn lem_at(a: LocalSearch, r: int, s: Tour, k: int)
    requires a.shape(), a.chain(r, s), 0 <= k < s.len()
    ensures a.live(s[k]), a.nd(s[k]).number == num(s[k]), 0 <= num(s[k]) < a.n(), in_range(a.nd(s[k]).angle as int), (num(s[k]) == 0) == (k == 0 || k == s.len() - 1),
        a.succ(s[k]) == node_at(s, k + 1),
        s[k] == Ptr::Start(r as usize) <==> k == 0, s[k] == Ptr::End(r as usize) <==> k == s.len() - 1
{
    reveal(well_formed); reveal(LocalSearch::chained); reveal(LocalSearch::nodes_ok);
    if 0 < k < s.len() - 1 { assert(customer(s[k], a.n())); }
    assert(a.live(s[k]));
}
// a.succ = b and b.pred = a, nothing else
pub open spec fn linked(h0: LocalSearch, h1: LocalSearch, a: Ptr, b: Ptr) -> bool {
    same_but_nodes(h0, h1) && h1.routes@ == h0.routes@
    && forall|q: Ptr| h0.live(q) ==> #[trigger] h1.nd(q) == (LinkNode { successor: if q == a { b } else { h0.nd(q).successor }, predecessor: if q == b { a } else { h0.nd(q).predecessor }, ..h0.nd(q) })
}
