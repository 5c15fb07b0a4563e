@raw
// ---- taking one node out of a tour, putting one behind place k
pub open spec fn drop_at(s: Tour, i: int) -> Tour { Seq::new((s.len() - 1) as nat, |x: int| if x < i { s[x] } else { s[x + 1] }) }
pub open spec fn put_after(s: Tour, k: int, p: Ptr) -> Tour { Seq::new(s.len() + 1, |x: int| if x <= k { s[x] } else if x == k + 1 { p } else { s[x - 1] }) }
pub open spec fn apart(a: Tour, b: Tour) -> bool { forall|q: Ptr| #[trigger] a.contains(q) ==> !b.contains(q) }
pub open spec fn same_union(a: Tour, b: Tour, c: Tour, d: Tour) -> bool { forall|q: Ptr| (#[trigger] a.contains(q) || b.contains(q)) == (c.contains(q) || d.contains(q)) }
pub open spec fn two_chains(h: &LocalSearch, r1: int, s1: Tour, r2: int, s2: Tour) -> bool { h.shape() && h.chain(r1, s1) && h.back(s1) && h.chain(r2, s2) && h.back(s2) && apart(s1, s2) && r1 != r2 }
// node p = s1[i] is to go behind q = s2[k]
pub struct Ins { pub r1: int, pub s1: Tour, pub i: int, pub r2: int, pub s2: Tour, pub k: int }
pub open spec fn ins_ok(h: &LocalSearch, g: Ins, p: Ptr, q: Ptr) -> bool { two_chains(h, g.r1, g.s1, g.r2, g.s2) && 0 < g.i < g.s1.len() - 1 && 0 <= g.k < g.s2.len() - 1 && p == g.s1[g.i] && q == g.s2[g.k] }
pub open spec fn ins_done(b: &LocalSearch, c: &LocalSearch, g: Ins) -> bool {
    let (n1, n2) = (drop_at(g.s1, g.i), put_after(g.s2, g.k, g.s1[g.i]));
    two_chains(c, g.r1, n1, g.r2, n2) && links_only(*b, *c, g.s1, g.s2) && same_union(g.s1, g.s2, n1, n2)
}
#[verifier::opaque]
pub open spec fn rewoven(b: &LocalSearch, c: &LocalSearch, g: Ins) -> bool {
    let (s1, i, s2, k) = (g.s1, g.i, g.s2, g.k); let p = s1[i];
    forall|q: Ptr| b.live(q) ==> (#[trigger] c.nd(q)) == (LinkNode {
        successor: if q == p { s2[k + 1] } else if q == s2[k] { p } else if q == s1[i - 1] { s1[i + 1] } else { b.succ(q) },
        predecessor: if q == p { s2[k] } else if q == s2[k + 1] { p } else if q == s1[i + 1] { s1[i - 1] } else { b.pred(q) }, ..b.nd(q) })
}
// the nodes of two chains are told apart by tour and place
pub proof fn lem_same_place(h: &LocalSearch, r: int, s: Tour, x: int, y: int)
    requires h.chain(r, s), 0 <= x < s.len(), 0 <= y < s.len()
    ensures (s[x] == s[y]) == (x == y), s.contains(s[x])
{ reveal(distinct); }
pub proof fn lem_apart(a: Tour, b: Tour, x: int, y: int)
    requires apart(a, b), 0 <= x < a.len(), 0 <= y < b.len()
    ensures a[x] != b[y]
{ assert(a.contains(a[x])); assert(b.contains(b[y])); }
pub proof fn lem_ins_facts(h: &LocalSearch, g: Ins, p: Ptr, q: Ptr)
    requires ins_ok(h, g, p, q)
    ensures h.live(p), h.live(q), h.pred(p) == g.s1[g.i - 1], h.succ(p) == g.s1[g.i + 1], h.succ(q) == g.s2[g.k + 1], h.live(h.pred(p)), h.live(h.succ(p)), h.live(h.succ(q)),
        p != q, p != h.succ(q), h.pred(p) != p, h.succ(p) != p, h.pred(p) != q, h.pred(p) != h.succ(q), h.succ(p) != q, h.succ(p) != h.succ(q), h.succ(q) != q, h.pred(p) != h.succ(p)
{
    let (s1, i, s2, k) = (g.s1, g.i, g.s2, g.k);
    lem_at(*h, g.r1, s1, i); lem_at(*h, g.r1, s1, i - 1); lem_at(*h, g.r1, s1, i + 1); lem_at(*h, g.r2, s2, k); lem_at(*h, g.r2, s2, k + 1);
    assert(h.pred(s1[i]) == s1[i - 1]) by { reveal(LocalSearch::back); }
    lem_apart(s1, s2, i, k); lem_apart(s1, s2, i, k + 1); lem_apart(s1, s2, i - 1, k); lem_apart(s1, s2, i - 1, k + 1); lem_apart(s1, s2, i + 1, k); lem_apart(s1, s2, i + 1, k + 1);
    lem_same_place(h, g.r1, s1, i, i - 1); lem_same_place(h, g.r1, s1, i, i + 1); lem_same_place(h, g.r1, s1, i - 1, i + 1); lem_same_place(h, g.r2, s2, k, k + 1);
}
#[verifier::spinoff_prover]
pub proof fn lem_ins_links(b: &LocalSearch, c: &LocalSearch, g: Ins, p: Ptr, q: Ptr)
    requires ins_ok(b, g, p, q), rewoven(b, c, g), same_but_nodes(*b, *c), c.routes@ == b.routes@
    ensures c.chained(drop_at(g.s1, g.i)), c.back(drop_at(g.s1, g.i)), c.chained(put_after(g.s2, g.k, g.s1[g.i])), c.back(put_after(g.s2, g.k, g.s1[g.i]))
{
    let (s1, i, s2, k) = (g.s1, g.i, g.s2, g.k);
    let (n1, n2) = (drop_at(s1, i), put_after(s2, k, p));
    lem_ins_facts(b, g, p, q);
    reveal(LocalSearch::chained); reveal(LocalSearch::back);
    assert forall|x: int| 0 <= x < s1.len() && x != i implies c.succ(#[trigger] s1[x]) == (if x == i - 1 { s1[i + 1] } else { b.succ(s1[x]) }) && c.pred(s1[x]) == (if x == i + 1 { s1[i - 1] } else { b.pred(s1[x]) }) by {
        reveal(rewoven); lem_at(*b, g.r1, s1, x); lem_apart(s1, s2, x, k); lem_apart(s1, s2, x, k + 1); lem_same_place(b, g.r1, s1, x, i); lem_same_place(b, g.r1, s1, x, i - 1); lem_same_place(b, g.r1, s1, x, i + 1);
    }
    assert forall|x: int| 0 <= x < s2.len() implies c.succ(#[trigger] s2[x]) == (if x == k { p } else { b.succ(s2[x]) }) && c.pred(s2[x]) == (if x == k + 1 { p } else { b.pred(s2[x]) }) by {
        reveal(rewoven); lem_at(*b, g.r2, s2, x); lem_apart(s1, s2, i, x); lem_apart(s1, s2, i - 1, x); lem_apart(s1, s2, i + 1, x); lem_same_place(b, g.r2, s2, x, k); lem_same_place(b, g.r2, s2, x, k + 1);
    }
    assert(c.succ(p) == s2[k + 1] && c.pred(p) == s2[k]) by { reveal(rewoven); }
    assert forall|x: int| 0 <= x < n1.len() - 1 implies c.succ(#[trigger] n1[x]) == n1[x + 1] by { let y = if x < i { x } else { x + 1 }; assert(n1[x] == s1[y]); assert(b.succ(s1[y]) == s1[y + 1]); }
    assert forall|x: int| 0 < x < n1.len() implies c.pred(#[trigger] n1[x]) == n1[x - 1] by { let y = if x < i { x } else { x + 1 }; assert(n1[x] == s1[y]); assert(b.pred(s1[y]) == s1[y - 1]); }
    assert(n1[0] == s1[0] && n1[n1.len() - 1] == s1[s1.len() - 1]);
    assert forall|x: int| 0 <= x < n2.len() - 1 implies c.succ(#[trigger] n2[x]) == n2[x + 1] by { if x != k + 1 { let y = if x <= k { x } else { x - 1 }; assert(n2[x] == s2[y]); assert(b.succ(s2[y]) == s2[y + 1]); } }
    assert forall|x: int| 0 < x < n2.len() implies c.pred(#[trigger] n2[x]) == n2[x - 1] by { if x != k + 1 { let y = if x <= k { x } else { x - 1 }; assert(n2[x] == s2[y]); assert(b.pred(s2[y]) == s2[y - 1]); } }
    assert(n2[0] == s2[0] && n2[n2.len() - 1] == s2[s2.len() - 1]);
}
pub proof fn lem_ins_tours(b: &LocalSearch, g: Ins, p: Ptr, q: Ptr)
    requires ins_ok(b, g, p, q)
    ensures ({ let (n1, n2) = (drop_at(g.s1, g.i), put_after(g.s2, g.k, g.s1[g.i]));
        well_formed(n1, g.r1, b.n()) && distinct(n1) && well_formed(n2, g.r2, b.n()) && distinct(n2) && apart(n1, n2) && same_union(g.s1, g.s2, n1, n2) })
{
    let (s1, i, s2, k) = (g.s1, g.i, g.s2, g.k);
    let (n1, n2) = (drop_at(s1, i), put_after(s2, k, p));
    lem_is_customer(s1, g.r1, b.n(), i);
    assert(distinct(n1)) by { reveal(distinct); }
    assert forall|x: int| 0 <= x < n2.len() implies (x != k + 1) == s2.contains(#[trigger] n2[x]) by { if x == k + 1 { if s2.contains(p) { assert(s1.contains(p)); } } else { let y = if x <= k { x } else { x - 1 }; assert(n2[x] == s2[y]); } }
    assert(distinct(n2)) by { reveal(distinct); assert forall|x: int, y: int| 0 <= x < n2.len() && 0 <= y < n2.len() && x != y implies n2[x] != n2[y] by { assert((x != k + 1) == s2.contains(n2[x])); assert((y != k + 1) == s2.contains(n2[y])); } }
    assert(well_formed(n1, g.r1, b.n())) by { reveal(well_formed); assert forall|x: int| 0 < x < n1.len() - 1 implies customer(#[trigger] n1[x], b.n()) by { let y = if x < i { x } else { x + 1 }; assert(n1[x] == s1[y]); } }
    assert(well_formed(n2, g.r2, b.n())) by { reveal(well_formed); assert forall|x: int| 0 < x < n2.len() - 1 implies customer(#[trigger] n2[x], b.n()) by { if x != k + 1 { let y = if x <= k { x } else { x - 1 }; assert(n2[x] == s2[y]); } } }
    assert forall|z: Ptr| #[trigger] n1.contains(z) == (s1.contains(z) && z != p) by { reveal(distinct);
        if n1.contains(z) { let x = choose|x: int| 0 <= x < n1.len() && n1[x] == z; let y = if x < i { x } else { x + 1 }; assert(s1[y] == z); assert(s1[y] != s1[i]); }
        if s1.contains(z) && z != p { let y = choose|y: int| 0 <= y < s1.len() && s1[y] == z; let x = if y < i { y } else { y - 1 }; assert(n1[x] == z); } }
    assert forall|z: Ptr| #[trigger] n2.contains(z) == (s2.contains(z) || z == p) by {
        if n2.contains(z) { let x = choose|x: int| 0 <= x < n2.len() && n2[x] == z; assert((x != k + 1) == s2.contains(n2[x])); }
        if s2.contains(z) { let y = choose|y: int| 0 <= y < s2.len() && s2[y] == z; let x = if y <= k { y } else { y + 1 }; assert(n2[x] == z); }
        if z == p { assert(n2[k + 1] == p); } }
    assert(s1.contains(p));
    assert forall|z: Ptr| #[trigger] n1.contains(z) implies !n2.contains(z) by { assert(s1.contains(z)); }
    assert forall|z: Ptr| (#[trigger] s1.contains(z) || s2.contains(z)) == (n1.contains(z) || n2.contains(z)) by { assert(n1.contains(z) == (s1.contains(z) && z != p)); assert(n2.contains(z) == (s2.contains(z) || z == p)); }
}
pub proof fn lem_ins_done(b: &LocalSearch, c: &LocalSearch, g: Ins, p: Ptr, q: Ptr)
    requires ins_ok(b, g, p, q), rewoven(b, c, g), same_but_nodes(*b, *c), c.routes@ == b.routes@
    ensures ins_done(b, c, g)
{
    lem_ins_tours(b, g, p, q); lem_ins_links(b, c, g, p, q);
    assert forall|z: Ptr| b.live(z) implies (#[trigger] c.nd(z)) == (LinkNode { successor: c.nd(z).successor, predecessor: c.nd(z).predecessor, ..b.nd(z) }) by { reveal(rewoven); }
    lem_shape_linked(*b, *c);
    assert(relinked(*b, *c, g.s1, g.s2)) by { reveal(relinked); reveal(rewoven);
        let z1 = g.s1[g.i]; let z2 = g.s1[g.i - 1]; let z3 = g.s1[g.i + 1]; let z4 = g.s2[g.k]; let z5 = g.s2[g.k + 1];
        assert(g.s1.contains(z1) && g.s1.contains(z2) && g.s1.contains(z3) && g.s2.contains(z4) && g.s2.contains(z5)); }
}
pub proof fn lem_links_two(a: LocalSearch, b: LocalSearch, c: LocalSearch, s1: Tour, s2: Tour, n1: Tour, n2: Tour)
    requires links_only(a, b, s1, s2), links_only(b, c, n1, n2) || links_only(b, c, n2, n1), same_union(s1, s2, n1, n2)
    ensures links_only(a, c, s1, s2)
{ reveal(relinked); assert forall|q: Ptr| a.live(q) implies (#[trigger] c.nd(q) == LinkNode { successor: c.nd(q).successor, predecessor: c.nd(q).predecessor, ..a.nd(q) }) && (!s1.contains(q) && !s2.contains(q) ==> c.nd(q) == a.nd(q)) by {
    assert(b.live(q)); assert(b.nd(q) == LinkNode { successor: b.nd(q).successor, predecessor: b.nd(q).predecessor, ..a.nd(q) }); assert((s1.contains(q) || s2.contains(q)) == (n1.contains(q) || n2.contains(q))); } }
