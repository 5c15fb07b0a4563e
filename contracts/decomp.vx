## C20: decomposition and merge
@include prelude/base.vx
@include prelude/individual.vx
@include prelude/evalspec.vx proved evaluate
@include prelude/sort.vx
@include prelude/perm.vx proved individual
@include prelude/occ.vx proved individual
@include prelude/flat.vx proved individual
@include prelude/hashset.vx
@include prelude/frame.vx
@include prelude/histspec.vx
@raw
impl<T> HashSet<T> {
    // the members in some order, each once
    #[verifier::external_body] pub fn members(&self) -> (r: Vec<T>) ensures r@.to_set() == self@, forall|i: int, j: int| 0 <= i < r@.len() && 0 <= j < r@.len() && i != j ==> r@[i] != r@[j] { unimplemented!() }
    #[verifier::external_body] pub fn extend_with(&mut self, v: &Vec<T>) ensures final(self)@ == old(self)@.union(v@.to_set()) { unimplemented!() }
}
#[verifier::external_body] pub fn seed_then(s: usize, l: &Vec<usize>) -> (r: Vec<usize>) ensures r@ == seq![s] + l@ { unimplemented!() }
#[verifier::external_body] pub fn copy_list(v: &Vec<usize>) -> (r: Vec<usize>) ensures r@ == v@ { unimplemented!() }
// v.iter().flatten().copied().collect()
#[verifier::external_body] pub fn flattened(v: &Vec<Vec<usize>>) -> (r: Vec<usize>) ensures r@ == flat_all(v@) { unimplemented!() }
impl SolutionEvaluation { #[verifier::external_body] pub fn new() -> (r: Self) { unimplemented!() } }
#[verifier::external_body] pub fn INFINITY_val() -> (r: R) ensures r@ == inf_spec() { unimplemented!() }
@struct src/solver/genetic/decomposition.rs Decomposition
@helpers src/solver/genetic/decomposition.rs
@raw
pub type Routes = Seq<Vec<usize>>;
// how many customers the routes numbered in sel have, among the first k; how often x occurs on them
pub open spec fn sel_len(g: Routes, sel: Set<usize>, k: int) -> int
    decreases k
{ if k <= 0 { 0 } else { sel_len(g, sel, k - 1) + if sel.contains((k - 1) as usize) { g[k - 1]@.len() as int } else { 0 } } }
pub open spec fn sel_occ(g: Routes, sel: Set<usize>, k: int, x: usize) -> int
    decreases k
{ if k <= 0 { 0 } else { sel_occ(g, sel, k - 1, x) + if sel.contains((k - 1) as usize) { occ(g[k - 1]@, x) } else { 0 } } }
pub proof fn lem_sel_add(g: Routes, sel: Set<usize>, r: usize, k: int, x: usize)
    requires 0 <= k <= g.len() <= usize::MAX, !sel.contains(r)
    ensures sel_len(g, sel.insert(r), k) == sel_len(g, sel, k) + if r < k { g[r as int]@.len() as int } else { 0 },
        sel_occ(g, sel.insert(r), k, x) == sel_occ(g, sel, k, x) + if r < k { occ(g[r as int]@, x) } else { 0 }
    decreases k
{ if k > 0 { lem_sel_add(g, sel, r, k - 1, x); } }
pub proof fn lem_sel_none(g: Routes, k: int, x: usize)
    ensures sel_len(g, Set::empty(), k) == 0, sel_occ(g, Set::empty(), k, x) == 0
    decreases k
{ if k > 0 { lem_sel_none(g, k - 1, x); } }
// the routes s are the routes of g with the numbers q
pub open spec fn copies(g: Routes, q: Seq<usize>, s: Routes, k: int) -> bool { s.len() == k && forall|i: int| 0 <= i < k ==> (#[trigger] s[i])@ == g[q[i] as int]@ }
pub open spec fn numbers_ok(g: Routes, q: Seq<usize>) -> bool { nodup(q) && forall|i: int| 0 <= i < q.len() ==> (#[trigger] q[i]) < g.len() }
pub proof fn lem_sel_list(g: Routes, q: Seq<usize>, s: Routes, x: usize)
    requires g.len() <= usize::MAX, numbers_ok(g, q), copies(g, q, s, q.len() as int)
    ensures len_sum(s, s.len() as int) == sel_len(g, q.to_set(), g.len() as int), locc(s, s.len() as int, x) == sel_occ(g, q.to_set(), g.len() as int, x)
    decreases q.len()
{
    if q.len() == 0 { assert(q.to_set() =~= Set::empty()); lem_sel_none(g, g.len() as int, x); }
    else {
        let q1 = q.drop_last(); let s1 = s.drop_last(); let r = q.last();
        assert forall|i: int| 0 <= i < s1.len() implies (#[trigger] s1[i])@ == g[q1[i] as int]@ by { assert(s[i]@ == g[q[i] as int]@); }
        lem_sel_list(g, q1, s1, x);
        assert(q.to_set() =~= q1.to_set().insert(r)) by { assert forall|y: usize| q.to_set().contains(y) implies q1.to_set().insert(r).contains(y) by { let i = choose|i: int| 0 <= i < q.len() && q[i] == y; if i < q1.len() { assert(q1[i] == y); } } assert forall|y: usize| q1.to_set().insert(r).contains(y) implies q.to_set().contains(y) by { if y != r { let i = choose|i: int| 0 <= i < q1.len() && q1[i] == y; assert(q[i] == y); } else { assert(q[q.len() - 1] == r); } } }
        assert(!q1.to_set().contains(r)) by { if q1.to_set().contains(r) { let i = choose|i: int| 0 <= i < q1.len() && q1[i] == r; assert(q[i] == q[q.len() - 1]); } }
        lem_sel_add(g, q1.to_set(), r, g.len() as int, x);
        lem_locc_frame(s, s1, s1.len() as int, x);
        assert(s[s.len() - 1]@ == g[r as int]@);
    }
}
// the other routes, in their order
pub open spec fn others(g: Routes, sel: Set<usize>, k: int) -> Seq<Seq<usize>>
    decreases k
{ if k <= 0 { Seq::empty() } else if sel.contains((k - 1) as usize) { others(g, sel, k - 1) } else { others(g, sel, k - 1).push(g[k - 1]@) } }
pub open spec fn lists(s: Routes) -> Seq<Seq<usize>> { Seq::new(s.len(), |i: int| s[i]@) }
pub proof fn lem_others(g: Routes, sel: Set<usize>, s: Routes, k: int, x: usize)
    requires 0 <= k <= g.len(), lists(s) == others(g, sel, k)
    ensures locc(g, k, x) == locc(s, s.len() as int, x) + sel_occ(g, sel, k, x), s.len() <= k
    decreases k
{
    if k > 0 {
        if sel.contains((k - 1) as usize) { lem_others(g, sel, s, k - 1, x); }
        else {
            let s1 = s.drop_last();
            assert(lists(s).len() == s.len());
            assert(lists(s1) =~= lists(s).drop_last()); assert(lists(s).drop_last() =~= others(g, sel, k - 1));
            lem_others(g, sel, s1, k - 1, x);
            lem_locc_frame(s, s1, s1.len() as int, x);
            assert(lists(s)[s.len() - 1] == s[s.len() - 1]@);
        }
    } else { assert(lists(s).len() == s.len()); }
}
// the customers of the selected routes
pub open spec fn on_selected(g: Routes, sel: Set<usize>, c: usize) -> bool { exists|r: int, i: int| 0 <= r < g.len() && sel.contains(r as usize) && 0 <= i < g[r]@.len() && #[trigger] g[r]@[i] == c }
pub open spec fn picked(g: Routes, sel: Set<usize>, cs: Set<usize>) -> bool {
    &&& forall|r: usize| sel.contains(r) ==> r < g.len()
    &&& cs.len() == sel_len(g, sel, g.len() as int)
    &&& forall|c: usize| #[trigger] cs.contains(c) <==> on_selected(g, sel, c)
}
pub proof fn lem_pick(n: int, g: Routes, sel: Set<usize>, cs: Set<usize>, r: usize)
    requires complete(n, g), g.len() <= usize::MAX, picked(g, sel, cs), r < g.len(), !sel.contains(r)
    ensures picked(g, sel.insert(r), cs.union(g[r as int]@.to_set()))
{
    let l = g[r as int]@; let ls = l.to_set(); let sel2 = sel.insert(r); let cs2 = cs.union(ls);
    assert(cs.disjoint(ls)) by {
        assert forall|c: usize| cs.contains(c) && ls.contains(c) implies false by {
            let (q, i) = choose|q: int, i: int| 0 <= q < g.len() && sel.contains(q as usize) && 0 <= i < g[q]@.len() && #[trigger] g[q]@[i] == c;
            let j = choose|j: int| 0 <= j < l.len() && l[j] == c;
            lem_complete_distinct(n, g, q, i, r as int, j);
        }
    }
    assert(l.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < l.len() && 0 <= j < l.len() && i != j implies l[i] != l[j] by { if l[i] == l[j] { lem_complete_distinct(n, g, r as int, i, r as int, j); } } }
    l.unique_seq_to_set();
    vstd::set_lib::lemma_set_disjoint_lens(cs, ls);
    lem_sel_add(g, sel, r, g.len() as int, 0);
    assert forall|c: usize| #[trigger] cs2.contains(c) <==> on_selected(g, sel2, c) by {
        if cs2.contains(c) {
            if cs.contains(c) { let (q, i) = choose|q: int, i: int| 0 <= q < g.len() && sel.contains(q as usize) && 0 <= i < g[q]@.len() && #[trigger] g[q]@[i] == c; assert(sel2.contains(q as usize)); assert(g[q]@[i] == c); }
            else { let j = choose|j: int| 0 <= j < l.len() && l[j] == c; assert(g[r as int]@[j] == c && sel2.contains(r as int as usize)); }
        }
        if on_selected(g, sel2, c) {
            let (q, i) = choose|q: int, i: int| 0 <= q < g.len() && sel2.contains(q as usize) && 0 <= i < g[q]@.len() && #[trigger] g[q]@[i] == c;
            if q as usize == r { assert(l[i] == c); assert(ls.contains(c)); } else { assert(sel.contains(q as usize)); assert(on_selected(g, sel, c)); }
        }
    }
}
pub proof fn lem_sel_bound(g: Routes, sel: Set<usize>, k: int)
    requires 0 <= k <= g.len()
    ensures 0 <= sel_len(g, sel, k) <= len_sum(g, k)
    decreases k
{ if k > 0 { lem_sel_bound(g, sel, k - 1); } }
// customers 1, 2, ... in the order of the routes p
pub open spec fn iota(b: int, l: nat) -> Seq<usize> { Seq::new(l, |i: int| (b + i + 1) as usize) }
pub open spec fn renumbered(p: Routes, s: Routes, k: int) -> bool {
    s.len() >= k && forall|r: int| 0 <= r < k ==> (#[trigger] s[r])@ == iota(flat(p, r).len() as int, p[r]@.len())
}
pub proof fn lem_iota(b: int, l: nat, x: usize)
    requires 0 <= b, b + l + 1 <= usize::MAX
    ensures occ(iota(b, l), x) == if b < x <= b + l { 1int } else { 0int }
    decreases l
{
    let q = iota(b, l);
    if l > 0 { let l1 = (l - 1) as nat; lem_iota(b, l1, x); assert(q.drop_last() =~= iota(b, l1)); lem_occ_push(iota(b, l1), q.last(), x); assert(q =~= iota(b, l1).push(q.last())); }
}
pub proof fn lem_renum(p: Routes, s: Routes, k: int, x: usize)
    requires 0 <= k <= p.len(), renumbered(p, s, k), flat(p, k).len() < usize::MAX
    ensures locc(s, k, x) == if 0 < x <= flat(p, k).len() { 1int } else { 0int }
    decreases k
{
    if k > 0 {
        lem_flat_prefix(p, k - 1, k);
        lem_renum(p, s, k - 1, x);
        lem_iota(flat(p, k - 1).len() as int, p[k - 1]@.len(), x);
        assert(s[k - 1]@ == iota(flat(p, k - 1).len() as int, p[k - 1]@.len()));
    }
}
// empty routes at the end add nothing
pub proof fn lem_pad(s: Routes, m: int, k: int, x: usize)
    requires 0 <= m <= k <= s.len(), forall|r: int| m <= r < k ==> (#[trigger] s[r])@.len() == 0
    ensures locc(s, k, x) == locc(s, m, x), flat(s, k) == flat(s, m)
    decreases k
{ if k > m { lem_pad(s, m, k - 1, x); assert(s[k - 1]@ =~= Seq::empty()); assert(flat(s, k - 1) + s[k - 1]@ =~= flat(s, k - 1)); } }
pub proof fn lem_flat_frame(a: Routes, b: Routes, k: int)
    requires 0 <= k <= a.len(), k <= b.len(), forall|i: int| 0 <= i < k ==> (#[trigger] a[i])@ == b[i]@
    ensures flat(a, k) == flat(b, k)
    decreases k
{ if k > 0 { lem_flat_frame(a, b, k - 1); assert(a[k - 1]@ == b[k - 1]@); } }
// node 0 is the depot, the others are the customers of the routes q of g in this order
pub open spec fn mapping_of(g: Routes, q: Seq<usize>, m: Seq<usize>) -> bool { exists|s: Routes| copies(g, q, s, q.len() as int) && m == seq![0usize] + #[trigger] flat_all(s) }
// the sub-problem consists of the routes q of g, the rest keeps the others in their order
pub open spec fn taken(g: Routes, q: Seq<usize>, p: Routes, m: Seq<usize>, rest: Routes) -> bool {
    &&& numbers_ok(g, q) && lists(rest) == others(g, q.to_set(), g.len() as int)
    &&& mapping_of(g, q, m) && q.len() <= p.len()
    &&& forall|k: int| 0 <= k < q.len() ==> (#[trigger] p[k])@.len() == g[q[k] as int]@.len()
    &&& forall|k: int, i: int| 0 <= k < q.len() && 0 <= i < p[k]@.len() ==> (#[trigger] p[k]@[i]) < m.len() && m[p[k]@[i] as int] == g[q[k] as int]@[i]
    &&& forall|k: int| q.len() <= k < p.len() ==> (#[trigger] p[k])@.len() == 0
}
// the mapping is injective, and every customer is either in the rest or mapped to, as often as before
#[verifier::opaque]
pub open spec fn apart(n: int, g: Routes, m: Seq<usize>, rest: Routes) -> bool {
    &&& m.len() >= 1 && m[0] == 0 && nodup(m) && forall|i: int| 0 < i < m.len() ==> 0 < #[trigger] m[i] < n
    &&& forall|x: usize| #[trigger] locc(g, g.len() as int, x) == locc(rest, rest.len() as int, x) + occ(m.skip(1), x)
}
pub proof fn lem_apart(n: int, g: Routes, q: Seq<usize>, s: Routes, m: Seq<usize>, rest: Routes)
    requires complete(n, g), 1 <= n <= usize::MAX, g.len() <= usize::MAX, numbers_ok(g, q), copies(g, q, s, q.len() as int), m == seq![0usize] + flat_all(s), lists(rest) == others(g, q.to_set(), g.len() as int)
    ensures apart(n, g, m, rest)
{
    reveal(apart);
    let f = flat_all(s);
    assert(m.skip(1) =~= f);
    assert forall|x: usize| #[trigger] locc(g, g.len() as int, x) == locc(rest, rest.len() as int, x) + occ(m.skip(1), x) by {
        lem_others(g, q.to_set(), rest, g.len() as int, x); lem_sel_list(g, q, s, x); lem_flat_occ(s, s.len() as int, x);
    }
    assert forall|i: int| 0 < i < m.len() implies 0 < #[trigger] m[i] < n by { let x = m[i]; assert(f[i - 1] == x); lem_occ_pos(f, i - 1); reveal(complete); lem_locc_ge(rest, rest.len() as int, x); assert(locc(g, g.len() as int, x) >= 1); }
    assert forall|i: int, j: int| 0 <= i < m.len() && 0 <= j < m.len() && i != j implies m[i] != m[j] by {
        if m[i] == m[j] {
            if i == 0 { assert(0 < m[j]); } else if j == 0 { assert(0 < m[i]); }
            else { let x = m[i]; assert(f[i - 1] == x && f[j - 1] == x); if i < j { lem_occ_two(f, i - 1, j - 1); } else { lem_occ_two(f, j - 1, i - 1); } reveal(complete); lem_locc_ge(rest, rest.len() as int, x); assert(locc(g, g.len() as int, x) >= 2); }
        }
    }
}
pub proof fn lem_taken(g: Routes, q: Seq<usize>, s: Routes, p: Routes, m: Seq<usize>, rest: Routes)
    requires numbers_ok(g, q), copies(g, q, s, q.len() as int), m == seq![0usize] + flat_all(s), lists(rest) == others(g, q.to_set(), g.len() as int), flat_all(s).len() < usize::MAX,
        q.len() <= p.len(), renumbered(s, p, q.len() as int), forall|k: int| q.len() <= k < p.len() ==> (#[trigger] p[k])@.len() == 0
    ensures taken(g, q, p, m, rest), complete(m.len() as int, p)
{
    let f = flat_all(s);
    assert forall|k: int| 0 <= k < q.len() implies (#[trigger] p[k])@.len() == g[q[k] as int]@.len() by { assert(s[k]@ == g[q[k] as int]@); }
    assert forall|k: int, i: int| 0 <= k < q.len() && 0 <= i < p[k]@.len() implies (#[trigger] p[k]@[i]) < m.len() && m[p[k]@[i] as int] == g[q[k] as int]@[i] by {
        assert(s[k]@ == g[q[k] as int]@); assert(p[k]@ == iota(flat(s, k).len() as int, s[k]@.len()));
        lem_flat_prefix(s, k + 1, s.len() as int);
        let b = flat(s, k).len() as int;
        assert(flat(s, k + 1) == flat(s, k) + s[k]@);
        assert(f.take(flat(s, k + 1).len() as int)[b + i] == s[k]@[i]);
        assert(m[b + i + 1] == f[b + i]);
    }
    assert(complete(m.len() as int, p)) by {
        reveal(complete);
        assert forall|x: usize| #[trigger] locc(p, p.len() as int, x) == if 0 < x < m.len() { 1int } else { 0int } by { lem_renum(s, p, q.len() as int, x); lem_pad(p, q.len() as int, p.len() as int, x); }
    }
}
// what is left of a giant tour
pub open spec fn left_over(a: Seq<usize>, cs: Set<usize>, k: int) -> Seq<usize>
    decreases k
{ if k <= 0 { Seq::empty() } else if cs.contains(a[k - 1]) { left_over(a, cs, k - 1) } else { left_over(a, cs, k - 1).push(a[k - 1]) } }
pub open spec fn split_off(n: int, g: Individual, sub: Individual, m: Seq<usize>, rest: Individual) -> bool {
    &&& exists|q: Seq<usize>| #[trigger] taken(g.phenotype@, q, sub.phenotype@, m, rest.phenotype@)
    &&& apart(n, g.phenotype@, m, rest.phenotype@) && complete(m.len() as int, sub.phenotype@) && sub.genotype@ == flat_all(sub.phenotype@)
    &&& rest.genotype@ == left_over(g.genotype@, m.skip(1).to_set(), g.genotype@.len() as int)
    // some customer is taken, so that the sub-problem is one
    &&& 2 <= m.len() <= n && rest.phenotype@.len() <= g.phenotype@.len()
}
// route_for_customer holds the routes of the customers on the first k routes, and on the first j stops of the next
pub open spec fn seated(rfc: Seq<usize>, g: Routes, k: int, j: int) -> bool { forall|r: int, i: int| 0 <= r < g.len() && 0 <= i < g[r]@.len() && (r < k || (r == k && i < j)) ==> rfc[(#[trigger] g[r]@[i]) as int] == r }
pub proof fn lem_seat(n: int, g: Routes, a: Seq<usize>, b: Seq<usize>, k: int, j: int)
    requires complete(n, g), a.len() == n, 0 <= k < g.len() <= usize::MAX, 0 <= j < g[k]@.len(), seated(a, g, k, j), b == a.update(g[k]@[j] as int, k as usize)
    ensures seated(b, g, k, j + 1)
{
    lem_complete(n, g);
    assert forall|r: int, i: int| 0 <= r < g.len() && 0 <= i < g[r]@.len() && (r < k || (r == k && i < j + 1)) implies b[(#[trigger] g[r]@[i]) as int] == r by {
        if g[r]@[i] == g[k]@[j] { lem_complete_distinct(n, g, r, i, k, j); }
    }
}
// a customer's route is one of the selected: the customer is selected
pub proof fn lem_seen(n: int, g: Routes, rfc: Seq<usize>, sel: Set<usize>, cs: Set<usize>, c: usize)
    requires complete(n, g), g.len() <= usize::MAX, rfc.len() == n, 0 < c < n, seated(rfc, g, g.len() as int, 0), picked(g, sel, cs), sel.contains(rfc[c as int])
    ensures cs.len() >= 1
{
    reveal(complete);
    assert(locc(g, g.len() as int, c) == 1);
    let (r, i) = lem_locc_find(g, g.len() as int, c);
    assert(rfc[g[r]@[i] as int] == r); assert(on_selected(g, sel, c)); assert(cs.contains(c));
    if cs.len() == 0 { assert(cs =~= Set::empty()); }
}
pub proof fn lem_locc_find(g: Routes, k: int, c: usize) -> (p: (int, int))
    requires 0 <= k <= g.len(), locc(g, k, c) > 0
    ensures 0 <= p.0 < k, 0 <= p.1 < g[p.0]@.len(), g[p.0]@[p.1] == c
    decreases k
{ if occ(g[k - 1]@, c) > 0 { (k - 1, lem_occ_find(g[k - 1]@, c)) } else { lem_occ_range(g[k - 1]@, c); lem_locc_find(g, k - 1, c) } }
pub proof fn lem_cs(g: Routes, q: Seq<usize>, s: Routes, cs: Set<usize>)
    requires numbers_ok(g, q), copies(g, q, s, q.len() as int), picked(g, q.to_set(), cs), g.len() <= usize::MAX
    ensures cs == flat_all(s).to_set()
{
    assert forall|c: usize| cs.contains(c) <==> flat_all(s).to_set().contains(c) by {
        let f = flat_all(s); lem_flat_occ(s, s.len() as int, c); lem_sel_list(g, q, s, c);
        lem_sel_occ(g, q.to_set(), g.len() as int, c);
        lem_occ_some(f, c);
    }
    assert(cs =~= flat_all(s).to_set());
}
pub proof fn lem_sel_occ(g: Routes, sel: Set<usize>, k: int, c: usize)
    requires 0 <= k <= g.len() <= usize::MAX
    ensures sel_occ(g, sel, k, c) >= 0, sel_occ(g, sel, k, c) > 0 <==> exists|r: int, i: int| 0 <= r < k && sel.contains(r as usize) && 0 <= i < g[r]@.len() && #[trigger] g[r]@[i] == c
    decreases k
{
    if k > 0 {
        lem_sel_occ(g, sel, k - 1, c); lem_occ_range(g[k - 1]@, c); lem_occ_some(g[k - 1]@, c);
        if sel_occ(g, sel, k, c) > 0 {
            if sel_occ(g, sel, k - 1, c) == 0 { let i = lem_occ_find(g[k - 1]@, c); assert(sel.contains((k - 1) as usize) && g[k - 1]@[i] == c); }
        }
        if exists|r: int, i: int| 0 <= r < k && sel.contains(r as usize) && 0 <= i < g[r]@.len() && #[trigger] g[r]@[i] == c {
            let (r, i) = choose|r: int, i: int| 0 <= r < k && sel.contains(r as usize) && 0 <= i < g[r]@.len() && #[trigger] g[r]@[i] == c;
            if r == k - 1 { lem_occ_pos(g[k - 1]@, i); } else { assert(r < k - 1 && g[r]@[i] == c); }
        }
    }
}
pub proof fn lem_occ_some(f: Seq<usize>, c: usize)
    ensures occ(f, c) > 0 <==> f.to_set().contains(c), f.to_set().contains(c) <==> exists|i: int| 0 <= i < f.len() && #[trigger] f[i] == c
{
    if f.to_set().contains(c) { let i = choose|i: int| 0 <= i < f.len() && f[i] == c; lem_occ_pos(f, i); }
    else { lem_occ_zero(f, c); }
}
pub proof fn lem_occ_zero(f: Seq<usize>, c: usize)
    requires forall|i: int| 0 <= i < f.len() ==> f[i] != c
    ensures occ(f, c) == 0
    decreases f.len()
{ if f.len() > 0 { lem_occ_zero(f.drop_last(), c); assert(f =~= f.drop_last().push(f.last())); lem_occ_push(f.drop_last(), f.last(), c); assert(f[f.len() - 1] != c); } }
@fn src/solver/genetic/individual.rs Individual::empty
@ret r
@endfn
@fn src/solver/genetic/decomposition.rs Decomposition::decompose_global
@attr #[verifier::loop_isolation(true)]
@params global ctx
@ret r
@subst __vec_lit (seed_customer) . into_iter () . chain (ctx . matrix_provider . correlation . get (seed_customer) . iter () . cloned () ,) . collect () ==> seed_then(seed_customer, ctx.matrix_provider.correlation.get(seed_customer))
@subst HashSet < usize , RandomState > ==> HashSet<usize>
@subst selected_customers . extend ( route . iter () ) ==> selected_customers.extend_with(route)
@subst selected_routes . iter () ==> selected_routes.members().iter()
@subst new_phenotype . iter () . flatten () . copied () . collect () ==> flattened(&new_phenotype)
@subst global . phenotype [ route_index ] . clone () ==> copy_list(&global.phenotype[route_index])
@subst route . clone () ==> copy_list(route)
@spec
requires ctx.wf(), complete(ctx.n(), old(global).phenotype@), old(global).genotype@.len() == ctx.n() - 1, 3 <= ctx.n() < 0x8000_0000,
    old(global).phenotype@.len() >= 1, ctx.config.decomposed_problem_min_size >= 1, forall|i: int| 0 <= i < ctx.n() ==> (#[trigger] ctx.matrix_provider.correlation.list(i)).len() >= 1,
ensures split_off(ctx.n(), *old(global), r.0, r.1@, *final(global)),
@at start
let ghost g = global.phenotype@; let ghost tour = global.genotype@; let ghost g0 = *global;
let ghost mut sel: Set<usize> = Set::empty(); let ghost mut cs: Set<usize> = Set::empty(); let ghost mut q: Seq<usize> = Seq::empty();
proof { lem_complete(ctx.n(), g); lem_complete_len(ctx.n(), g); assert(global.phenotype@.len() == global.phenotype.len()); }
@at before loop 0
proof { assert forall|c: int| 0 <= c < ctx.n() implies #[trigger] route_for_customer@[c] == 0 by { assert(cloned(0usize, route_for_customer@[c])); } }
@loop 0
invariant __i0 <= g.len(), *global == g0, g0.phenotype@ == g, route_for_customer@.len() == ctx.n(), g.len() >= 1,
    forall|r: int, i: int| 0 <= r < g.len() && 0 <= i < g[r]@.len() ==> 0 < #[trigger] g[r]@[i] < ctx.n(),
    forall|c: int| 0 <= c < ctx.n() ==> #[trigger] route_for_customer@[c] < g.len(),
    complete(ctx.n(), g), g.len() <= usize::MAX, seated(route_for_customer@, g, __i0 as int, 0),
decreases g.len() - __i0
@loop 1
invariant __i1 <= route@.len(), 0 < __i0 <= g.len(), *global == g0, g0.phenotype@ == g, route@ == g[__i0 - 1]@, route_for_customer@.len() == ctx.n(), route_number == __i0 - 1,
    forall|r: int, i: int| 0 <= r < g.len() && 0 <= i < g[r]@.len() ==> 0 < #[trigger] g[r]@[i] < ctx.n(),
    forall|c: int| 0 <= c < ctx.n() ==> #[trigger] route_for_customer@[c] < g.len(),
    complete(ctx.n(), g), g.len() <= usize::MAX, seated(route_for_customer@, g, __i0 - 1, __i1 as int),
decreases route@.len() - __i1
@at loop 1 start
let ghost rfc0 = route_for_customer@;
@at loop 1 end
proof { lem_seat(ctx.n(), g, rfc0, route_for_customer@, __i0 - 1, __i1 - 1); }
@at before loop 2
proof { assert(picked(g, selected_routes@, selected_customers@)) by { assert forall|c: usize| #[trigger] selected_customers@.contains(c) <==> on_selected(g, selected_routes@, c) by { } lem_sel_none(g, g.len() as int, 0); } }
@loop 2
invariant __i2 <= neighbors@.len(), *global == g0, g0.phenotype@ == g, complete(ctx.n(), g), route_for_customer@.len() == ctx.n(), g.len() <= usize::MAX,
    forall|c: int| 0 <= c < ctx.n() ==> #[trigger] route_for_customer@[c] < g.len(),
    forall|i: int| 0 <= i < neighbors@.len() ==> #[trigger] neighbors@[i] < ctx.n(),
    picked(g, selected_routes@, selected_customers@), seated(route_for_customer@, g, g.len() as int, 0), decompose_size >= 1,
    neighbors@.len() >= 2, forall|i: int| 1 <= i < neighbors@.len() ==> #[trigger] neighbors@[i] > 0, __i2 >= 2 ==> selected_customers@.len() >= 1,
ensures selected_customers@.len() >= 1,
decreases neighbors@.len() - __i2
@at loop 2 start
let ghost sr = selected_routes@; let ghost sc = selected_customers@; let ghost nb = neighbors@[__c2 as int];
proof { if __i2 >= 2 { if sr.contains(route_for_customer@[nb as int]) { lem_seen(ctx.n(), g, route_for_customer@, sr, sc, nb); } } }
@at loop 2 end
proof { lem_pick(ctx.n(), g, sr, sc, route_index); if __i2 >= 2 { lem_seen(ctx.n(), g, route_for_customer@, selected_routes@, selected_customers@, nb); } }
@at after loop 2
proof { lem_sel_bound(g, selected_routes@, g.len() as int); }
@at before loop 3
proof {
    sel = selected_routes@; cs = selected_customers@; q = __v3@;
    lem_members(q, sel);
    assert(numbers_ok(g, q)) by { assert forall|i: int| 0 <= i < q.len() implies (#[trigger] q[i]) < g.len() by { assert(q.to_set().contains(q[i])); } }
}
@loop 3
invariant __i3 <= __v3@.len(), *global == g0, g0.phenotype@ == g, __v3@ == q, numbers_ok(g, q), copies(g, q, __a3@, __i3 as int),
decreases __v3@.len() - __i3
@at loop 3 start
proof { assert(q[__c3 as int] < g.len()); }
@at before loop 4
let ghost s = new_phenotype@;
proof { lem_sel_list(g, q, s, 0); lem_flat_len(s, s.len() as int); lem_cs(g, q, s, cs); assert(mapping@[0] == 0) by { assert(cloned(0usize, mapping@[0])); } assert(mapping@.take(1) =~= seq![0usize] + flat(s, 0)); }
@loop 4
invariant __i4 <= s.len(), new_phenotype@.len() == s.len(), mapping@.len() == flat_all(s).len() + 1, flat_all(s).len() < usize::MAX, index == flat(s, __i4 as int).len() + 1,
    mapping@.take(index as int) == seq![0usize] + flat(s, __i4 as int), renumbered(s, new_phenotype@, __i4 as int),
    forall|r: int| __i4 <= r < s.len() ==> (#[trigger] new_phenotype@[r])@ == s[r]@,
decreases s.len() - __i4
@at loop 4 start
let ghost v = s[__c4 as int]@; let ghost b = flat(s, __c4 as int).len() as int; let ghost f0 = flat(s, __c4 as int);
proof { lem_flat_prefix(s, __c4 + 1, s.len() as int); assert(flat(s, __c4 + 1) == f0 + v); assert(v.take(0) =~= Seq::empty()); assert(f0 + v.take(0) =~= f0); }
@loop 5
invariant __i5 <= v.len(), route@.len() == v.len(), mapping@.len() == flat_all(s).len() + 1, index == b + 1 + __i5, f0.len() == b, b + v.len() <= flat_all(s).len(), flat_all(s).len() < usize::MAX,
    mapping@.take(index as int) == seq![0usize] + (f0 + v.take(__i5 as int)),
    forall|i: int| 0 <= i < __i5 ==> #[trigger] route@[i] == b + i + 1,
    forall|i: int| __i5 <= i < v.len() ==> #[trigger] route@[i] == v[i],
decreases v.len() - __i5
@at loop 5 start
let ghost m0 = mapping@; let ghost ix = index as int;
@at loop 5 end
proof { assert(mapping@ =~= m0.update(ix, v[__c5 as int])); assert(mapping@.take(index as int) =~= m0.take(ix).push(v[__c5 as int])); assert(mapping@.take(index as int) =~= seq![0usize] + (f0 + v.take(__i5 as int))); }
@at loop 4 end
proof {
    assert(v.take(v.len() as int) =~= v);
    assert(new_phenotype@[__c4 as int]@ =~= iota(b, v.len()));
}
@at before loop 6
let ghost p0 = new_phenotype@; let ghost f = flat_all(s);
proof { assert(mapping@.take(index as int) =~= mapping@); assert(mapping@ == seq![0usize] + f); }
@loop 6
invariant new_phenotype@.len() >= p0.len(), forall|r: int| 0 <= r < p0.len() ==> new_phenotype@[r] == #[trigger] p0[r], forall|r: int| p0.len() <= r < new_phenotype@.len() ==> (#[trigger] new_phenotype@[r])@.len() == 0, __i6 <= __e6,
decreases __e6 - __i6
@at before loop 7
let ghost p = sub_solution.phenotype@;
@loop 7
invariant __i7 <= tour.len(), *global == g0, g0.genotype@ == tour, selected_customers@ == cs, is_left_over(__a7, tour, cs, __i7 as int),
decreases tour.len() - __i7
@at before loop 8
proof { assert(lists(__a8@) =~= Seq::<Seq<usize>>::empty()); }
@loop 8
invariant __i8 <= g.len(), global.phenotype@ == g, selected_routes@ == sel, is_others(__a8, g, sel, __i8 as int),
decreases g.len() - __i8
@at loop 8 start
let ghost prev = __a8@;
@at loop 8 end
proof { assert(lists(__a8@) =~= lists(prev).push(g[__c8 as int]@)); }
@at exit
proof { assert(lists(global.phenotype@).len() == global.phenotype@.len()); lem_others(g, q.to_set(), global.phenotype@, g.len() as int, 0); lem_sel_bound(g, sel, g.len() as int); lem_done(ctx.n(), g0, q, s, p0, sub_solution, mapping@, *global, cs); }
@endfn
@raw
pub proof fn lem_members(q: Seq<usize>, sel: Set<usize>)
    requires q.to_set() == sel
    ensures forall|i: int| 0 <= i < q.len() ==> sel.contains(#[trigger] q[i])
{ assert forall|i: int| 0 <= i < q.len() implies sel.contains(#[trigger] q[i]) by { assert(q.to_set().contains(q[i])); } }

pub open spec fn is_left_over(a: Vec<usize>, t: Seq<usize>, cs: Set<usize>, k: int) -> bool { a@ == left_over(t, cs, k) }
pub open spec fn is_others(a: Vec<Vec<usize>>, g: Routes, sel: Set<usize>, k: int) -> bool { lists(a@) == others(g, sel, k) }

pub proof fn lem_done(n: int, g0: Individual, q: Seq<usize>, s: Routes, p0: Routes, sub: Individual, m: Seq<usize>, rest: Individual, cs: Set<usize>)
    requires complete(n, g0.phenotype@), 1 <= n < usize::MAX, g0.phenotype@.len() <= usize::MAX, numbers_ok(g0.phenotype@, q), copies(g0.phenotype@, q, s, q.len() as int), m == seq![0usize] + flat_all(s),
        lists(rest.phenotype@) == others(g0.phenotype@, q.to_set(), g0.phenotype@.len() as int), cs == flat_all(s).to_set(), rest.genotype@ == left_over(g0.genotype@, cs, g0.genotype@.len() as int),
        renumbered(s, p0, s.len() as int), p0.len() == s.len(), sub.phenotype@.len() >= p0.len(), forall|r: int| 0 <= r < p0.len() ==> sub.phenotype@[r] == #[trigger] p0[r],
        forall|r: int| p0.len() <= r < sub.phenotype@.len() ==> (#[trigger] sub.phenotype@[r])@.len() == 0, sub.genotype@ == flat_all(p0), flat_all(s).len() < usize::MAX,
        1 <= flat_all(s).len() <= n - 1, rest.phenotype@.len() <= g0.phenotype@.len()
    ensures split_off(n, g0, sub, m, rest)
{
    let g = g0.phenotype@; let p = sub.phenotype@;
    assert forall|r: int| 0 <= r < s.len() implies (#[trigger] p[r])@ == iota(flat(s, r).len() as int, s[r]@.len()) by { assert(p[r] == p0[r]); }
    lem_taken(g, q, s, p, m, rest.phenotype@);
    lem_apart(n, g, q, s, m, rest.phenotype@);
    lem_pad(p, p0.len() as int, p.len() as int, 0);
    assert forall|i: int| 0 <= i < p0.len() implies (#[trigger] p0[i])@ == p[i]@ by { assert(p[i] == p0[i]); }
    lem_flat_frame(p0, p, p0.len() as int);
    assert(m.skip(1) =~= flat_all(s));
}

// ---- the context of the sub-problem
pub const WIDEST: usize = 0xff_ffff;
impl MatrixProvider {
    // proved in unit `matrix`
    #[verifier::external_body] pub fn from_mapping(&self, mapping: &Vec<usize>) -> (r: Self)
        requires 2 <= mapping@.len() <= WIDEST, forall|i: int| 0 <= i < mapping@.len() ==> (#[trigger] mapping@[i]) < self.distance.n(),
        ensures r.distance.n() == mapping@.len(), r.correlation.n() == mapping@.len(),
            forall|i: int, j: int| 0 <= i < mapping@.len() && 0 <= j < mapping@.len() ==> #[trigger] r.distance.d(i, j) == self.distance.d(mapping@[i] as int, mapping@[j] as int),
    { unimplemented!() }
}
impl Clone for Node { #[verifier::external_body] fn clone(&self) -> (r: Node) ensures r == *self { unimplemented!() } }
impl Clone for Vehicle { #[verifier::external_body] fn clone(&self) -> (r: Vehicle) ensures r == *self { unimplemented!() } }
impl Clone for Config { #[verifier::external_body] fn clone(&self) -> (r: Config) ensures r == *self { unimplemented!() } }
impl Clone for Random { #[verifier::external_body] fn clone(&self) -> (r: Random) ensures r == *self { unimplemented!() } }
impl Clone for Instant { #[verifier::external_body] fn clone(&self) -> (r: Instant) ensures r == *self { unimplemented!() } }
pub open spec fn mapped_nodes(p: &Problem, m: Seq<usize>, r: Seq<Node>, k: int) -> bool { r.len() == k && forall|i: int| 0 <= i < k ==> #[trigger] r[i] == p.nodes@[m[i] as int] }
@fn src/models/problem.rs Problem::from_mapping
@params mapping
@ptype mapping: &Vec<usize>
@ret r
@spec
requires forall|i: int| 0 <= i < mapping@.len() ==> (#[trigger] mapping@[i]) < self.nodes@.len(),
ensures mapped_nodes(self, mapping@, r.nodes@, mapping@.len() as int), r.vehicle == self.vehicle,
@loop 0
invariant __i0 <= mapping@.len(), forall|i: int| 0 <= i < mapping@.len() ==> (#[trigger] mapping@[i]) < self.nodes@.len(), mapped_nodes(self, mapping@, __a0@, __i0 as int),
decreases mapping@.len() - __i0
@endfn
@usefn best.vx SearchHistory::new
@fn src/solver/history.rs SearchHistory::log_new_best
@endfn
@raw
// s is the problem that consists of the nodes m of c
pub open spec fn sub_of(c: &Context, m: Seq<usize>, s: &Context) -> bool {
    &&& s.wf() && s.n() == m.len() && s.config == c.config && s.problem.vehicle == c.problem.vehicle
    &&& mapped_nodes(&c.problem, m, s.problem.nodes@, m.len() as int)
    &&& forall|i: int, j: int| 0 <= i < m.len() && 0 <= j < m.len() ==> #[trigger] s.d(i, j) == c.d(m[i] as int, m[j] as int)
}
@fn src/solver/context.rs Context::from_mapping
@params mapping
@ptype mapping: &Vec<usize>
@ret r
@spec
requires self.wf(), 2 <= mapping@.len() <= WIDEST, forall|i: int| 0 <= i < mapping@.len() ==> (#[trigger] mapping@[i]) < self.n(),
ensures sub_of(self, mapping@, &r), r.iteration == 0,
@endfn
@raw
// ---- costs do not depend on the order of the routes
pub open spec fn filled(s: Routes, k: int) -> int
    decreases k
{ if k <= 0 { 0 } else { filled(s, k - 1) + if s[k - 1]@.len() > 0 { 1int } else { 0int } } }
pub proof fn lem_cost_frame(ctx: &Context, a: Routes, b: Routes, k: int)
    requires 0 <= k <= a.len(), k <= b.len(), forall|i: int| 0 <= i < k ==> (#[trigger] a[i])@ == b[i]@
    ensures total_cost(ctx, a, k) == total_cost(ctx, b, k), filled(a, k) == filled(b, k), 0 <= filled(a, k) <= k
    decreases k
{ if k > 0 { lem_cost_frame(ctx, a, b, k - 1); assert(a[k - 1]@ == b[k - 1]@); } }
pub proof fn lem_cost_remove(ctx: &Context, a: Routes, p: int, k: int)
    requires 0 <= p < a.len(), 0 <= k <= a.len()
    ensures k <= p ==> total_cost(ctx, a.remove(p), k) == total_cost(ctx, a, k) && filled(a.remove(p), k) == filled(a, k),
        k > p ==> total_cost(ctx, a.remove(p), k - 1) == total_cost(ctx, a, k) - route_pcost(ctx, a[p]@) && filled(a.remove(p), k - 1) == filled(a, k) - if a[p]@.len() > 0 { 1int } else { 0int }
    decreases k
{ if k > 0 { lem_cost_remove(ctx, a, p, k - 1); } }
pub proof fn lem_cost_lists(ctx: &Context, a: Routes, b: Routes, q: Seq<int>)
    requires lists_by(a, b, q)
    ensures total_cost(ctx, a, a.len() as int) == total_cost(ctx, b, b.len() as int), filled(a, a.len() as int) == filled(b, b.len() as int)
    decreases b.len()
{
    if b.len() > 0 {
        let m = b.len() - 1; let p = q[m];
        assert(b[m]@ == a[q[m]]@);
        let a2 = a.remove(p); let b2 = b.drop_last();
        let q2 = Seq::new(m as nat, |i: int| if q[i] < p { q[i] } else { q[i] - 1 });
        assert(lists_by(a2, b2, q2)) by {
            assert forall|i: int| 0 <= i < m implies 0 <= #[trigger] q2[i] < m && b2[i]@ == a2[q2[i]]@ by { assert(q[i] != q[m]); assert(b[i]@ == a[q[i]]@); }
            assert forall|i: int, j: int| 0 <= i < m && 0 <= j < m && i != j implies q2[i] != q2[j] by { assert(q[i] != q[j] && q[i] != p && q[j] != p); }
            assert forall|i: int| 0 <= i < b2.len() implies (#[trigger] b2[i])@ == a2[q2[i]]@ by { assert(0 <= q2[i] < m && b2[i]@ == a2[q2[i]]@); }
        }
        lem_cost_lists(ctx, a2, b2, q2);
        lem_cost_remove(ctx, a, p, a.len() as int);
        lem_cost_frame(ctx, b, b2, m);
    }
}
// ---- merging
// every customer is either in the rest or mapped to, once
#[verifier::opaque]
pub open spec fn leaves(n: int, m: Seq<usize>, rest: Routes) -> bool {
    &&& m.len() >= 1 && m[0] == 0 && nodup(m) && forall|i: int| 0 < i < m.len() ==> 0 < #[trigger] m[i] < n
    &&& forall|x: usize| #[trigger] locc(rest, rest.len() as int, x) + occ(m.skip(1), x) == if 0 < x < n { 1int } else { 0int }
}
pub proof fn lem_leaves(n: int, g: Routes, m: Seq<usize>, rest: Routes)
    requires complete(n, g), apart(n, g, m, rest)
    ensures leaves(n, m, rest)
{ reveal(apart); reveal(complete); reveal(leaves);
  assert forall|x: usize| #[trigger] locc(rest, rest.len() as int, x) + occ(m.skip(1), x) == if 0 < x < n { 1int } else { 0int } by { assert(locc(g, g.len() as int, x) == if 0 < x < n { 1int } else { 0int }); } }
pub open spec fn mapseq(m: Seq<usize>, r: Seq<usize>) -> Seq<usize> { Seq::new(r.len(), |i: int| m[r[i] as int]) }
pub open spec fn mocc(m: Seq<usize>, s: Routes, k: int, x: usize) -> int
    decreases k
{ if k <= 0 { 0 } else { mocc(m, s, k - 1, x) + occ(mapseq(m, s[k - 1]@), x) } }
// the cost of the routes of a sub-problem at a penalty
pub open spec fn priced(c: &Context, p: real, r: Seq<usize>) -> real { route_dist(c, r) + p * rmax(0real, route_over(c, r)) }
pub open spec fn sub_cost(c: &Context, p: real, s: Routes, k: int) -> real
    decreases k
{ if k <= 0 { 0real } else { sub_cost(c, p, s, k - 1) + priced(c, p, s[k - 1]@) } }
// demands, distances and vehicle of s are those of the nodes m of c
#[verifier::opaque]
pub open spec fn same_places(c: &Context, m: Seq<usize>, s: &Context) -> bool {
    &&& m.len() >= 1 && s.n() == m.len() && s.cap() == c.cap() && forall|i: int| 0 <= i < m.len() ==> #[trigger] s.demand(i) == c.demand(m[i] as int)
    &&& m[0] == 0 && forall|i: int, j: int| 0 <= i < m.len() && 0 <= j < m.len() ==> #[trigger] s.d(i, j) == c.d(m[i] as int, m[j] as int)
}
pub open spec fn below(r: Seq<usize>, n: int) -> bool { forall|i: int| 0 <= i < r.len() ==> 0 < #[trigger] r[i] < n }
pub proof fn lem_mapped_load(c: &Context, m: Seq<usize>, s: &Context, r: Seq<usize>, k: int)
    requires same_places(c, m, s), below(r, m.len() as int), 0 <= k <= r.len()
    ensures prefix_load(c, mapseq(m, r), k) == prefix_load(s, r, k), prefix_dist(c, mapseq(m, r), k) == prefix_dist(s, r, k)
    decreases k
{
    reveal(same_places);
    if k > 0 {
        lem_mapped_load(c, m, s, r, k - 1);
        let x = r[k - 1] as int; let a: int = if k == 1 { 0 } else { r[k - 2] as int };
        assert(0 < x < m.len() && mapseq(m, r)[k - 1] == m[x]);
        assert(s.demand(x) == c.demand(m[x] as int));
        if k > 1 { assert(0 < r[k - 2] < m.len()); assert(mapseq(m, r)[k - 2] == m[a]); }
        assert(s.d(a, x) == c.d(m[a] as int, m[x] as int));
    }
}
// a mapped route costs what it costs in the sub-problem
pub proof fn lem_mapped_cost(c: &Context, m: Seq<usize>, s: &Context, r: Seq<usize>)
    requires same_places(c, m, s), below(r, m.len() as int)
    ensures route_pcost(c, mapseq(m, r)) == priced(s, c.pen(), r), route_over(c, mapseq(m, r)) == route_over(s, r)
{
    lem_mapped_load(c, m, s, r, r.len() as int);
    reveal(same_places);
    let k = r.len() as int;
    let a = last_of(r, k);
    if k > 0 { assert(0 < r[k - 1] < m.len()); assert(mapseq(m, r)[k - 1] == m[a]); }
    assert(s.d(a, 0) == c.d(m[a] as int, m[0] as int));
}
pub proof fn lem_empty_cost(c: &Context, r: Seq<usize>)
    requires r.len() == 0, c.d(0, 0) == 0real, c.cap() >= 0real
    ensures route_pcost(c, r) == 0real
{ assert(route_over(c, r) <= 0real); assert(rmax(0real, route_over(c, r)) == 0real); assert(c.pen() * 0real == 0real) by(nonlinear_arith); }
// cur: the rest and the first k mapped routes
#[verifier::opaque]
pub open spec fn joined(ctx: &Context, m: Seq<usize>, sc: &Context, rest: Routes, sol: Routes, k: int, cur: Routes) -> bool {
    &&& forall|x: usize| #[trigger] locc(cur, cur.len() as int, x) == locc(rest, rest.len() as int, x) + mocc(m, sol, k, x)
    &&& total_cost(ctx, cur, cur.len() as int) == total_cost(ctx, rest, rest.len() as int) + sub_cost(sc, ctx.pen(), sol, k)
    &&& filled(cur, cur.len() as int) == filled(rest, rest.len() as int) + filled(sol, k)
}
pub proof fn lem_join(ctx: &Context, m: Seq<usize>, sc: &Context, rest: Routes, sol: Routes, k: int, cur: Routes, v: Vec<usize>, out: Routes)
    requires joined(ctx, m, sc, rest, sol, k, cur), same_places(ctx, m, sc), 0 <= k < sol.len(), below(sol[k]@, m.len() as int), v@ == mapseq(m, sol[k]@),
        ctx.d(0, 0) == 0real, ctx.cap() >= 0real, if v@.len() > 0 { out == cur.push(v) } else { out == cur }
    ensures joined(ctx, m, sc, rest, sol, k + 1, out)
{
    reveal(joined);
    lem_mapped_cost(ctx, m, sc, sol[k]@);
    lem_cost_frame(ctx, cur, out, cur.len() as int);
    if v@.len() == 0 { lem_empty_cost(ctx, v@); } else { assert(out[cur.len() as int] == v); }
    assert forall|x: usize| #[trigger] locc(out, out.len() as int, x) == locc(rest, rest.len() as int, x) + mocc(m, sol, k + 1, x) by { lem_locc_frame(cur, out, cur.len() as int, x); assert(locc(cur, cur.len() as int, x) == locc(rest, rest.len() as int, x) + mocc(m, sol, k, x)); }
}
pub proof fn lem_join_drop(ctx: &Context, m: Seq<usize>, sc: &Context, rest: Routes, sol: Routes, k: int, cur: Routes, p: int)
    requires joined(ctx, m, sc, rest, sol, k, cur), 0 <= p < cur.len(), cur[p]@.len() == 0, ctx.d(0, 0) == 0real, ctx.cap() >= 0real
    ensures joined(ctx, m, sc, rest, sol, k, cur.remove(p))
{
    reveal(joined);
    lem_cost_remove(ctx, cur, p, cur.len() as int); lem_empty_cost(ctx, cur[p]@);
    assert forall|x: usize| #[trigger] locc(cur.remove(p), cur.remove(p).len() as int, x) == locc(rest, rest.len() as int, x) + mocc(m, sol, k, x) by { lem_locc_remove(cur, p, cur.len() as int, x); assert(locc(cur, cur.len() as int, x) == locc(rest, rest.len() as int, x) + mocc(m, sol, k, x)); }
}
pub proof fn lem_join_empty(ctx: &Context, m: Seq<usize>, sc: &Context, rest: Routes, sol: Routes, k: int, cur: Routes, v: Vec<usize>)
    requires joined(ctx, m, sc, rest, sol, k, cur), v@.len() == 0, ctx.d(0, 0) == 0real, ctx.cap() >= 0real
    ensures joined(ctx, m, sc, rest, sol, k, cur.push(v))
{
    reveal(joined);
    let out = cur.push(v);
    lem_cost_frame(ctx, cur, out, cur.len() as int); lem_empty_cost(ctx, v@);
    assert(out[cur.len() as int] == v);
    assert forall|x: usize| #[trigger] locc(out, out.len() as int, x) == locc(rest, rest.len() as int, x) + mocc(m, sol, k, x) by { lem_locc_frame(cur, out, cur.len() as int, x); assert(locc(cur, cur.len() as int, x) == locc(rest, rest.len() as int, x) + mocc(m, sol, k, x)); }
}
pub proof fn lem_join_sort(ctx: &Context, m: Seq<usize>, sc: &Context, rest: Routes, sol: Routes, k: int, cur: Routes, out: Routes)
    requires joined(ctx, m, sc, rest, sol, k, cur), same_lists(cur, out)
    ensures joined(ctx, m, sc, rest, sol, k, out), out.len() == cur.len()
{
    reveal(joined);
    let q = choose|q: Seq<int>| lists_by(cur, out, q);
    lem_cost_lists(ctx, cur, out, q);
    assert forall|x: usize| #[trigger] locc(out, out.len() as int, x) == locc(rest, rest.len() as int, x) + mocc(m, sol, k, x) by { lem_lists_locc(cur, out, q, x); assert(locc(cur, cur.len() as int, x) == locc(rest, rest.len() as int, x) + mocc(m, sol, k, x)); }
}
pub proof fn lem_filled_all(s: Routes, k: int)
    requires 0 <= k <= s.len(), forall|i: int| 0 <= i < k ==> (#[trigger] s[i])@.len() > 0
    ensures filled(s, k) == k
    decreases k
{ if k > 0 { lem_filled_all(s, k - 1); assert(s[k - 1]@.len() > 0); } }
// a mapped node occurs as often as its number in the sub-problem
pub proof fn lem_map_occ(m: Seq<usize>, r: Seq<usize>, j: usize)
    requires nodup(m), below(r, m.len() as int), 0 <= j < m.len()
    ensures occ(mapseq(m, r), m[j as int]) == occ(r, j)
    decreases r.len()
{
    if r.len() > 0 {
        let r1 = r.drop_last();
        assert(below(r1, m.len() as int)) by { assert forall|i: int| 0 <= i < r1.len() implies 0 < #[trigger] r1[i] < m.len() by { assert(r[i] == r1[i]); } }
        lem_map_occ(m, r1, j);
        assert(0 < r[r.len() - 1] < m.len());
        assert(mapseq(m, r) =~= mapseq(m, r1).push(m[r.last() as int]));
        assert(r =~= r1.push(r.last()));
        lem_occ_push(mapseq(m, r1), m[r.last() as int], m[j as int]); lem_occ_push(r1, r.last(), j);
    }
}
pub proof fn lem_map_none(m: Seq<usize>, r: Seq<usize>, x: usize)
    requires below(r, m.len() as int), forall|i: int| 0 < i < m.len() ==> m[i] != x
    ensures occ(mapseq(m, r), x) == 0
{ lem_occ_zero(mapseq(m, r), x); }
pub proof fn lem_mocc(m: Seq<usize>, s: Routes, k: int, x: usize)
    requires nodup(m), m.len() >= 1, m.len() <= usize::MAX, 0 <= k <= s.len(), forall|r: int| 0 <= r < s.len() ==> below((#[trigger] s[r])@, m.len() as int)
    ensures (forall|i: int| 0 < i < m.len() ==> m[i] != x) ==> mocc(m, s, k, x) == 0, forall|j: int| 0 < j < m.len() && #[trigger] m[j] == x ==> mocc(m, s, k, x) == locc(s, k, j as usize)
    decreases k
{
    if k > 0 {
        lem_mocc(m, s, k - 1, x);
        assert(below(s[k - 1]@, m.len() as int));
        if forall|i: int| 0 < i < m.len() ==> m[i] != x { lem_map_none(m, s[k - 1]@, x); }
        assert forall|j: int| 0 < j < m.len() && #[trigger] m[j] == x implies mocc(m, s, k, x) == locc(s, k, j as usize) by { lem_map_occ(m, s[k - 1]@, j as usize); }
    }
}
pub proof fn lem_routes_below(n: int, s: Routes)
    requires complete(n, s)
    ensures forall|r: int| 0 <= r < s.len() ==> below((#[trigger] s[r])@, n)
{ lem_complete(n, s); }
pub proof fn lem_join_complete(ctx: &Context, m: Seq<usize>, sc: &Context, rest: Routes, sol: Routes, cur: Routes)
    requires leaves(ctx.n(), m, rest), complete(m.len() as int, sol), m.len() <= usize::MAX, joined(ctx, m, sc, rest, sol, sol.len() as int, cur)
    ensures complete(ctx.n(), cur)
{
    reveal(leaves); reveal(joined); reveal(complete);
    lem_routes_below(m.len() as int, sol);
    assert forall|x: usize| #[trigger] locc(cur, cur.len() as int, x) == if 0 < x < ctx.n() { 1int } else { 0int } by {
        lem_mocc(m, sol, sol.len() as int, x);
        let f = m.skip(1);
        assert(locc(rest, rest.len() as int, x) + occ(f, x) == if 0 < x < ctx.n() { 1int } else { 0int });
        if exists|j: int| 0 < j < m.len() && #[trigger] m[j] == x {
            let j = choose|j: int| 0 < j < m.len() && #[trigger] m[j] == x;
            assert(locc(sol, sol.len() as int, j as usize) == 1);
            assert(f[j - 1] == x);
            lem_occ_pos(f, j - 1);
            lem_locc_ge(rest, rest.len() as int, x);
        } else {
            assert forall|i: int| 0 <= i < f.len() implies f[i] != x by { assert(f[i] == m[i + 1]); }
            lem_occ_zero(f, x);
        }
    }
}
// ---- the parts of a solution cost what the solution costs
pub open spec fn sel_cost(c: &Context, g: Routes, sel: Set<usize>, k: int) -> real
    decreases k
{ if k <= 0 { 0real } else { sel_cost(c, g, sel, k - 1) + if sel.contains((k - 1) as usize) { route_pcost(c, g[k - 1]@) } else { 0real } } }
pub open spec fn sel_fill(g: Routes, sel: Set<usize>, k: int) -> int
    decreases k
{ if k <= 0 { 0 } else { sel_fill(g, sel, k - 1) + if sel.contains((k - 1) as usize) && g[k - 1]@.len() > 0 { 1int } else { 0int } } }
pub proof fn lem_selc_add(c: &Context, g: Routes, sel: Set<usize>, r: usize, k: int)
    requires 0 <= k <= g.len() <= usize::MAX, !sel.contains(r)
    ensures sel_cost(c, g, sel.insert(r), k) == sel_cost(c, g, sel, k) + if r < k { route_pcost(c, g[r as int]@) } else { 0real },
        sel_fill(g, sel.insert(r), k) == sel_fill(g, sel, k) + if r < k && g[r as int]@.len() > 0 { 1int } else { 0int }
    decreases k
{ if k > 0 { lem_selc_add(c, g, sel, r, k - 1); } }
pub proof fn lem_selc_none(c: &Context, g: Routes, k: int)
    ensures sel_cost(c, g, Set::empty(), k) == 0real, sel_fill(g, Set::empty(), k) == 0
    decreases k
{ if k > 0 { lem_selc_none(c, g, k - 1); } }
pub proof fn lem_others_cost(c: &Context, g: Routes, sel: Set<usize>, s: Routes, k: int)
    requires 0 <= k <= g.len(), lists(s) == others(g, sel, k)
    ensures total_cost(c, g, k) == total_cost(c, s, s.len() as int) + sel_cost(c, g, sel, k), filled(g, k) == filled(s, s.len() as int) + sel_fill(g, sel, k)
    decreases k
{
    assert(lists(s).len() == s.len());
    if k > 0 {
        if sel.contains((k - 1) as usize) { lem_others_cost(c, g, sel, s, k - 1); }
        else {
            let s1 = s.drop_last();
            assert(lists(s1) =~= lists(s).drop_last()); assert(lists(s).drop_last() =~= others(g, sel, k - 1));
            lem_others_cost(c, g, sel, s1, k - 1);
            lem_cost_frame(c, s, s1, s1.len() as int);
            assert(lists(s)[s.len() - 1] == s[s.len() - 1]@);
        }
    }
}
// p[k] is what the route q[k] of g is called in the sub-problem
pub open spec fn names(g: Routes, q: Seq<usize>, m: Seq<usize>, p: Routes) -> bool { forall|k: int| 0 <= k < q.len() ==> mapseq(m, (#[trigger] p[k])@) == g[q[k] as int]@ && below(p[k]@, m.len() as int) }
pub proof fn lem_sel_price(c: &Context, g: Routes, q: Seq<usize>, m: Seq<usize>, sc: &Context, p: Routes)
    requires g.len() <= usize::MAX, numbers_ok(g, q), q.len() <= p.len(), names(g, q, m, p), same_places(c, m, sc)
    ensures sub_cost(sc, c.pen(), p, q.len() as int) == sel_cost(c, g, q.to_set(), g.len() as int), filled(p, q.len() as int) == sel_fill(g, q.to_set(), g.len() as int)
    decreases q.len()
{
    if q.len() == 0 { assert(q.to_set() =~= Set::empty()); lem_selc_none(c, g, g.len() as int); }
    else {
        let q1 = q.drop_last(); let r = q.last(); let k = q.len() - 1;
        assert(names(g, q1, m, p)) by { assert forall|i: int| 0 <= i < q1.len() implies mapseq(m, (#[trigger] p[i])@) == g[q1[i] as int]@ && below(p[i]@, m.len() as int) by { assert(q1[i] == q[i]); } }
        lem_sel_price(c, g, q1, m, sc, p);
        assert(q.to_set() =~= q1.to_set().insert(r)) by { assert forall|y: usize| q.to_set().contains(y) implies q1.to_set().insert(r).contains(y) by { let i = choose|i: int| 0 <= i < q.len() && q[i] == y; if i < q1.len() { assert(q1[i] == y); } } assert forall|y: usize| q1.to_set().insert(r).contains(y) implies q.to_set().contains(y) by { if y != r { let i = choose|i: int| 0 <= i < q1.len() && q1[i] == y; assert(q[i] == y); } else { assert(q[q.len() - 1] == r); } } }
        assert(!q1.to_set().contains(r)) by { if q1.to_set().contains(r) { let i = choose|i: int| 0 <= i < q1.len() && q1[i] == r; assert(q[i] == q[q.len() - 1]); } }
        lem_selc_add(c, g, q1.to_set(), r, g.len() as int);
        assert(mapseq(m, p[k]@) == g[r as int]@ && q[k] < g.len());
        lem_mapped_cost(c, m, sc, p[k]@);
        assert(p[k]@.len() == g[r as int]@.len());
    }
}
pub proof fn lem_pad_cost(c: &Context, pen: real, s: Routes, a: int, k: int)
    requires 0 <= a <= k <= s.len(), forall|r: int| a <= r < k ==> (#[trigger] s[r])@.len() == 0, c.d(0, 0) == 0real, c.cap() >= 0real
    ensures sub_cost(c, pen, s, k) == sub_cost(c, pen, s, a), filled(s, k) == filled(s, a)
    decreases k
{ if k > a { lem_pad_cost(c, pen, s, a, k - 1); let r = s[k - 1]@; assert(r.len() == 0); assert(rmax(0real, route_over(c, r)) == 0real); assert(pen * 0real == 0real) by(nonlinear_arith); } }
pub proof fn lem_sub_total(c: &Context, s: Routes, k: int)
    ensures sub_cost(c, c.pen(), s, k) == total_cost(c, s, k)
    decreases k
{ if k > 0 { lem_sub_total(c, s, k - 1); } }
pub open spec fn parts_of(c: &Context, g: Routes, rest: Routes, sc: &Context, sol: Routes) -> bool {
    &&& total_cost(c, g, g.len() as int) == total_cost(c, rest, rest.len() as int) + sub_cost(sc, c.pen(), sol, sol.len() as int)
    &&& filled(g, g.len() as int) == filled(rest, rest.len() as int) + filled(sol, sol.len() as int)
}
pub proof fn lem_parts(c: &Context, g: Routes, q: Seq<usize>, p: Routes, m: Seq<usize>, rest: Routes, sc: &Context, sol: Routes, o: Seq<int>)
    requires taken(g, q, p, m, rest), complete(m.len() as int, p), same_places(c, m, sc), sc.pen() == c.pen(), lists_by(p, sol, o), g.len() <= usize::MAX, c.d(0, 0) == 0real, c.cap() >= 0real
    ensures parts_of(c, g, rest, sc, sol)
{
    lem_complete(m.len() as int, p);
    assert(names(g, q, m, p)) by { assert forall|k: int| 0 <= k < q.len() implies mapseq(m, (#[trigger] p[k])@) == g[q[k] as int]@ && below(p[k]@, m.len() as int) by {
        assert forall|i: int| 0 <= i < p[k]@.len() implies mapseq(m, p[k]@)[i] == g[q[k] as int]@[i] by { assert(m[p[k]@[i] as int] == g[q[k] as int]@[i]); }
        assert(mapseq(m, p[k]@) =~= g[q[k] as int]@);
    } }
    lem_others_cost(c, g, q.to_set(), rest, g.len() as int);
    lem_sel_price(c, g, q, m, sc, p);
    assert(sc.d(0, 0) == c.d(m[0] as int, m[0] as int)) by { reveal(same_places); } assert(sc.cap() == c.cap() && m[0] == 0) by { reveal(same_places); }
    lem_pad_cost(sc, c.pen(), p, q.len() as int, p.len() as int);
    lem_cost_lists(sc, p, sol, o);
    lem_sub_total(sc, p, p.len() as int); lem_sub_total(sc, sol, sol.len() as int);
}
// ---- taking a problem out and putting its solution back
pub open spec fn decomposed(c: &Context, g: Individual, m: Seq<usize>, rest: Individual, sc: &Context, sol: Individual) -> bool {
    &&& exists|sub: Individual| #[trigger] split_off(c.n(), g, sub, m, rest) && same_lists(sub.phenotype@, sol.phenotype@)
    &&& leaves(c.n(), m, rest.phenotype@) && complete(m.len() as int, sol.phenotype@) && eval_of(sc, sol.evaluation, sol.phenotype@)
    &&& sub_of(c, m, sc) && same_places(c, m, sc) && (c.d(0, 0) == 0real && c.cap() >= 0real ==> parts_of(c, g.phenotype@, rest.phenotype@, sc, sol.phenotype@))
}
pub proof fn lem_places(c: &Context, m: Seq<usize>, s: &Context)
    requires sub_of(c, m, s), m.len() >= 1, m[0] == 0
    ensures same_places(c, m, s)
{ reveal(same_places); assert forall|i: int| 0 <= i < m.len() implies #[trigger] s.demand(i) == c.demand(m[i] as int) by { assert(s.problem.nodes@[i] == c.problem.nodes@[m[i] as int]); } }
pub proof fn lem_decomposed(c: &Context, g: Individual, sub: Individual, m: Seq<usize>, rest: Individual, sc: &Context, p: Routes, q: Seq<int>)
    requires split_off(c.n(), g, sub, m, rest), complete(c.n(), g.phenotype@), lists_by(sub.phenotype@, p, q), m.len() < usize::MAX
    ensures leaves(c.n(), m, rest.phenotype@), complete(m.len() as int, p)
{
    lem_leaves(c.n(), g.phenotype@, m, rest.phenotype@);
    lem_sorted_complete(m.len() as int, sub.phenotype@, p, q);
}
pub proof fn lem_sorted_complete(n: int, a: Routes, b: Routes, q: Seq<int>)
    requires complete(n, a), lists_by(a, b, q)
    ensures complete(n, b)
{ reveal(complete); assert forall|x: usize| #[trigger] locc(b, b.len() as int, x) == if 0 < x < n { 1int } else { 0int } by { lem_lists_locc(a, b, q, x); assert(locc(a, a.len() as int, x) == if 0 < x < n { 1int } else { 0int }); } }
@usefn individual.vx Individual::sort_routes
@usefn evaluate.vx Individual::evaluate
@fn src/solver/genetic/decomposition.rs Decomposition::new
@params global ctx
@ret r
@subst & mapping [..] ==> &mapping
@spec
requires ctx.wf(), complete(ctx.n(), old(global).phenotype@), old(global).genotype@.len() == ctx.n() - 1, 3 <= ctx.n() <= WIDEST,
    old(global).phenotype@.len() >= 1, ctx.config.decomposed_problem_min_size >= 1, forall|i: int| 0 <= i < ctx.n() ==> (#[trigger] ctx.matrix_provider.correlation.list(i)).len() >= 1,
ensures decomposed(ctx, *old(global), r.mapping@, *r.global, &r.ctx, r.solution), *final(r.global) == *final(global),
@at start
let ghost g = *global;
proof { assert(global.phenotype@.len() == global.phenotype.len()); }
@at before call from_mapping
proof { assert forall|i: int| 0 <= i < mapping@.len() implies (#[trigger] mapping@[i]) < ctx.n() by { reveal(apart); if i > 0 { assert(0 < mapping@[i] < ctx.n()); } } }
@at before call sort_routes
let ghost sub = sub_solution; let ghost m = mapping@;
proof { assert(m[0] == 0) by { reveal(apart); } lem_complete(m.len() as int, sub.phenotype@); lem_flat_len(sub.phenotype@, sub.phenotype@.len() as int); lem_places(ctx, m, &sub_ctx); }
@at after call sort_routes
proof { let q = choose|q: Seq<int>| lists_by(sub.phenotype@, sub_solution.phenotype@, q); lem_decomposed(ctx, g, sub, m, *global, &sub_ctx, sub_solution.phenotype@, q); lem_complete(m.len() as int, sub_solution.phenotype@);
    if ctx.d(0, 0) == 0real && ctx.cap() >= 0real { let o = choose|o: Seq<usize>| #[trigger] taken(g.phenotype@, o, sub.phenotype@, m, global.phenotype@); lem_parts(ctx, g.phenotype@, o, sub.phenotype@, m, global.phenotype@, &sub_ctx, sub_solution.phenotype@, q); } }
@endfn
@raw
#[verifier::external_body] pub fn flat_routes(v: &Vec<Vec<usize>>) -> (r: Vec<usize>) ensures r@ == flat_all(v@) { unimplemented!() }
pub open spec fn most(a: int, b: int) -> int { if a > b { a } else { b } }
pub open spec fn merged(c: &Context, m: Seq<usize>, sc: &Context, rest: Routes, sol: Routes, out: Individual) -> bool {
    &&& complete(c.n(), out.phenotype@) && out.genotype@ == flat_all(out.phenotype@) && eval_of(c, out.evaluation, out.phenotype@)
    // one route for each vehicle, unless the parts need more
    &&& out.phenotype@.len() == most(c.config.num_vehicles as int, filled(rest, rest.len() as int) + filled(sol, sol.len() as int))
    // the parts cost what they cost apart
    &&& total_cost(c, out.phenotype@, out.phenotype@.len() as int) == total_cost(c, rest, rest.len() as int) + sub_cost(sc, c.pen(), sol, sol.len() as int)
}
pub open spec fn no_empty(s: Routes, k: int) -> bool { forall|i: int| 0 <= i < k ==> (#[trigger] s[i])@.len() > 0 }
pub open spec fn is_mapped(a: Vec<usize>, m: Seq<usize>, r: Seq<usize>, k: int) -> bool { a@ == mapseq(m, r).take(k) }
pub proof fn lem_join_none(ctx: &Context, m: Seq<usize>, sc: &Context, rest: Routes, sol: Routes)
    ensures joined(ctx, m, sc, rest, sol, 0, rest)
{ reveal(joined); }
pub proof fn lem_join_len(ctx: &Context, m: Seq<usize>, sc: &Context, rest: Routes, sol: Routes, cur: Routes)
    requires joined(ctx, m, sc, rest, sol, sol.len() as int, cur), no_empty(cur, cur.len() as int)
    ensures cur.len() == filled(rest, rest.len() as int) + filled(sol, sol.len() as int)
{ reveal(joined); lem_filled_all(cur, cur.len() as int); }
pub proof fn lem_merged(c: &Context, m: Seq<usize>, sc: &Context, rest: Routes, sol: Routes, p: Routes, out: Individual)
    requires leaves(c.n(), m, rest), complete(m.len() as int, sol), m.len() <= usize::MAX, joined(c, m, sc, rest, sol, sol.len() as int, p), same_lists(p, out.phenotype@), c.n() >= 1, c.n() <= usize::MAX,
        p.len() == most(c.config.num_vehicles as int, filled(rest, rest.len() as int) + filled(sol, sol.len() as int)), eval_of(c, out.evaluation, out.phenotype@),
        ({ let f = flat_all(out.phenotype@); f.len() <= out.genotype@.len() && out.genotype@.take(f.len() as int) == f }), out.genotype@.len() == c.n() - 1
    ensures merged(c, m, sc, rest, sol, out)
{
    lem_join_sort(c, m, sc, rest, sol, sol.len() as int, p, out.phenotype@);
    lem_join_complete(c, m, sc, rest, sol, out.phenotype@);
    lem_complete_len(c.n(), out.phenotype@); lem_flat_len(out.phenotype@, out.phenotype@.len() as int);
    assert(out.genotype@.take(out.genotype@.len() as int) =~= out.genotype@);
    assert(c.n() == c.problem.nodes@.len());
    reveal(joined);
}
@fn src/solver/genetic/decomposition.rs Decomposition::finish
@params ctx
@subst self . global . phenotype . iter () . flatten () . copied () . collect () ==> flattened(&self.global.phenotype)
@spec
requires ctx.wf(), ctx.n() < 0x8000_0000, leaves(ctx.n(), self.mapping@, old(self.global).phenotype@), complete(self.mapping@.len() as int, self.solution.phenotype@), same_places(ctx, self.mapping@, &self.ctx),
    ctx.d(0, 0) == 0real, ctx.cap() >= 0real, ctx.config.num_vehicles <= usize::MAX,
ensures merged(ctx, self.mapping@, &self.ctx, old(self.global).phenotype@, self.solution.phenotype@, *final(self.global)),
@at start
let ghost rest = self.global.phenotype@; let ghost sol = self.solution.phenotype@; let ghost m = self.mapping@; let ghost sc = &self.ctx; let ghost mut p = rest; let ghost mut nr: Vec<usize> = self.mapping;
proof { assert(self.mapping@.len() == self.mapping.len()); reveal(leaves); lem_join_none(ctx, m, sc, rest, sol); lem_routes_below(m.len() as int, sol); }
@loop 0
invariant __i0 <= sol.len(), self.mapping@ == m, m.len() >= 1, self.solution.phenotype@ == sol, self.ctx == *sc, same_places(ctx, m, sc), ctx.d(0, 0) == 0real, ctx.cap() >= 0real, forall|r: int| 0 <= r < sol.len() ==> below((#[trigger] sol[r])@, m.len() as int),
    joined(ctx, m, sc, rest, sol, __i0 as int, self.global.phenotype@),
decreases sol.len() - __i0
@at loop 0 start
let ghost cur = self.global.phenotype@; let ghost k = __c0 as int;
proof { assert(below(sol[k]@, m.len() as int)); }
@at before loop 1
proof { assert(mapseq(m, sol[k]@).take(0) =~= Seq::empty()); }
@loop 1
invariant __i1 <= route@.len(), route@ == sol[k]@, below(sol[k]@, m.len() as int), self.mapping@ == m, is_mapped(__a1, m, sol[k]@, __i1 as int),
decreases route@.len() - __i1
@at loop 1 end
proof { let f = mapseq(m, sol[k]@); assert(f.take(__i1 as int) =~= f.take(__i1 - 1).push(f[__i1 - 1])); }
@at after loop 1
proof { let f = mapseq(m, sol[k]@); assert(f.take(f.len() as int) =~= f); nr = __a1; }
@at loop 0 end
proof { lem_join(ctx, m, sc, rest, sol, k, cur, nr, self.global.phenotype@); }
@loop 2
invariant __rt <= self.global.phenotype@.len(), ctx.d(0, 0) == 0real, ctx.cap() >= 0real, joined(ctx, m, sc, rest, sol, sol.len() as int, self.global.phenotype@), no_empty(self.global.phenotype@, __rt as int),
decreases self.global.phenotype@.len() - __rt
@at loop 2 start
let ghost cur = self.global.phenotype@; let ghost at = __rt as int;
@at loop 2 end
proof { if cur[at]@.len() == 0 { lem_join_drop(ctx, m, sc, rest, sol, sol.len() as int, cur, at); } }
@at before loop 3
proof { lem_join_len(ctx, m, sc, rest, sol, self.global.phenotype@); }
let ghost least = self.global.phenotype@.len() as int;
@loop 3
invariant ctx.d(0, 0) == 0real, ctx.cap() >= 0real, joined(ctx, m, sc, rest, sol, sol.len() as int, self.global.phenotype@), self.global.phenotype@.len() == least || least < self.global.phenotype@.len() <= num_vehicles,
decreases num_vehicles - self.global.phenotype@.len()
@at loop 3 start
let ghost cur = self.global.phenotype@;
@at loop 3 end
proof { let v = self.global.phenotype@.last(); assert(self.global.phenotype@ =~= cur.push(v)); lem_join_empty(ctx, m, sc, rest, sol, sol.len() as int, cur, v); }
@at before call sort_routes
proof { p = self.global.phenotype@; lem_join_complete(ctx, m, sc, rest, sol, p); lem_complete(ctx.n(), p); lem_complete_len(ctx.n(), p); lem_flat_len(p, p.len() as int); }
@at after call sort_routes
proof { let q = choose|q: Seq<int>| lists_by(p, self.global.phenotype@, q); lem_sorted_complete(ctx.n(), p, self.global.phenotype@, q); lem_complete(ctx.n(), self.global.phenotype@); }
@at exit
proof { lem_merged(ctx, m, sc, rest, sol, p, *self.global); }
@endfn
@raw
impl Clone for Individual { #[verifier::external_body] fn clone(&self) -> (r: Individual) ensures r == *self { unimplemented!() } }
// The genetic algorithm on the sub-problem, seen through what it returns: a solution of that problem with every customer once
pub struct GeneticAlgorithm { pub best_solution: Option<Individual>, pub child: Individual, pub rr: RuinRecreate, pub g: Ghost<int> }
// ruin-and-recreate on the whole problem; the contracts are proved in unit `rrsearch`
pub struct Acceptance { pub g: Ghost<int> }
impl Acceptance { #[verifier::external_body] pub fn reset(&mut self) { unimplemented!() } }
pub struct RuinRecreate { pub acceptance: Acceptance, pub g: Ghost<(int, int, bool)> }
impl RuinRecreate {
    // number of nodes and of routes of the problem, and whether a solution is loaded
    pub open spec fn fits(&self, n: int, v: int) -> bool { self.g@.0 == n && self.g@.1 == v }
    #[verifier::external_body] pub fn load(&mut self, ctx: &Context, individual: &mut Individual)
        requires complete(ctx.n(), old(individual).phenotype@), old(self).fits(ctx.n(), old(individual).phenotype@.len() as int), eval_routes(ctx, old(individual).evaluation, old(individual).phenotype@)
        ensures *final(individual) == *old(individual), final(self).g@ == (old(self).g@.0, old(self).g@.1, true) { unimplemented!() }
    #[verifier::external_body] pub fn complete(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] pub fn search(&mut self) requires old(self).g@.2 ensures final(self).g == old(self).g { unimplemented!() }
    #[verifier::external_body] pub fn get_best_solution(&self, individual: &mut Individual)
        requires self.g@.2, old(individual).phenotype@.len() == self.g@.1
        ensures complete(self.g@.0, final(individual).phenotype@), final(individual).phenotype@.len() == self.g@.1, final(individual).genotype@ == flat_all(final(individual).phenotype@) { unimplemented!() }
}
pub open spec fn same_problem(a: &Context, b: &Context) -> bool { b.problem == a.problem && b.matrix_provider == a.matrix_provider && b.config.num_vehicles == a.config.num_vehicles }
impl GeneticAlgorithm {
    pub open spec fn best_ok(&self, n: int) -> bool { match self.best_solution { Some(x) => complete(n, x.phenotype@), None => true } }
    #[verifier::external_body] pub fn new(ctx: &Context) -> (r: Self) ensures r.best_ok(ctx.n()) { unimplemented!() }
    #[verifier::external_body] pub fn add_initial(&mut self, ctx: &mut Context, individual: Individual)
        requires old(self).best_ok(old(ctx).n()), complete(old(ctx).n(), individual.phenotype@) ensures final(self).best_ok(final(ctx).n()), same_problem(old(ctx), final(ctx)) { unimplemented!() }
    #[verifier::external_body] pub fn terminated(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] pub fn iterate(&mut self, ctx: &mut Context)
        requires old(self).best_ok(old(ctx).n()) ensures final(self).best_ok(final(ctx).n()), same_problem(old(ctx), final(ctx)) { unimplemented!() }
}
pub open spec fn is_filled(s: Routes, k: int, r: usize) -> bool { r == filled(s, k) }
@fn src/solver/genetic/individual.rs Individual::num_nonempty_routes
@ret r
@spec
ensures is_filled(self.phenotype@, self.phenotype@.len() as int, r),
@loop 0
invariant __i0 <= self.phenotype@.len(), is_filled(self.phenotype@, __i0 as int, __a0), __a0 <= __i0,
decreases self.phenotype@.len() - __i0
@endfn
@raw
pub proof fn lem_filled_len(s: Routes, k: int) requires 0 <= k <= s.len() ensures 0 <= filled(s, k) <= len_sum(s, k) decreases k { if k > 0 { lem_filled_len(s, k - 1); } }
// the solution of the sub-problem is complete and, if it is another one, leaves enough vehicles to the rest
pub open spec fn solved(a: &Decomposition, b: &Decomposition) -> bool {
    &&& b.mapping == a.mapping && same_problem(&a.ctx, &b.ctx) && complete(b.ctx.n(), b.solution.phenotype@)
    &&& b.solution == a.solution || filled(a.global.phenotype@, a.global.phenotype@.len() as int) + filled(b.solution.phenotype@, b.solution.phenotype@.len() as int) <= b.ctx.config.num_vehicles
}
@fn src/solver/genetic/decomposition.rs Decomposition::run
@attr #[verifier::exec_allows_no_decreases_clause]
@subst sub_ga . add_initial (& self . ctx , self . solution . clone ()) ==> sub_ga.add_initial(&mut self.ctx, self.solution.clone())
@subst sub_ga . iterate (& self . ctx) ==> sub_ga.iterate(&mut self.ctx)
@spec
requires complete(old(self).ctx.n(), old(self).solution.phenotype@), old(self).ctx.config.num_vehicles <= usize::MAX, 1 <= old(self).ctx.n() <= WIDEST, filled(old(self).global.phenotype@, old(self).global.phenotype@.len() as int) <= WIDEST,
ensures solved(old(self), final(self)), *final(self).global == *old(self).global, *final(final(self).global) == *final(old(self).global),
@loop 0
invariant sub_ga.best_ok(self.ctx.n()), same_problem(&old(self).ctx, &self.ctx), self.solution == old(self).solution, self.mapping == old(self).mapping, self.global == old(self).global,
@at after loop 0
proof { if sub_ga.best_solution is Some { lem_complete_len(self.ctx.n(), sub_ga.best_solution->0.phenotype@); lem_filled_len(sub_ga.best_solution->0.phenotype@, sub_ga.best_solution->0.phenotype@.len() as int); } }
@endfn
@struct src/solver/genetic/decomposition.rs State
@attr #[derive(PartialEq, Eq, Structural)]
@struct src/solver/genetic/decomposition.rs DecomposedGeneticAlgorithm
@raw
impl GeneticAlgorithm {
    // unit `best`: the child and everything but the records stay
    #[verifier::external_body] pub fn update_best(&mut self, ctx: &mut Context)
        ensures final(self).child == old(self).child, final(self).rr == old(self).rr, same_problem(old(ctx), final(ctx)), final(ctx).config == old(ctx).config { unimplemented!() }
}
impl Context { #[verifier::external_body] pub fn terminate(&self) -> (r: bool) { unimplemented!() } }
pub open spec fn whole(c: &Context, x: Individual) -> bool { complete(c.n(), x.phenotype@) && x.genotype@.len() == c.n() - 1 && x.phenotype@.len() == c.config.num_vehicles }
impl DecomposedGeneticAlgorithm {
    pub open spec fn ready(&self, c: &Context) -> bool { self.global_ga.rr.fits(c.n(), c.config.num_vehicles as int) && (self.state == State::Cycle ==> whole(c, self.global_solution)) }
    // split, education and ruin-and-recreate of a random individual: see units split, lsearch, rrsearch
    #[verifier::external_body] fn create_global_solution(&mut self, ctx: &mut Context) -> (r: Individual)
        requires old(self).ready(old(ctx)) ensures whole(final(ctx), r), final(self).global_ga.rr.fits(final(ctx).n(), final(ctx).config.num_vehicles as int), same_problem(old(ctx), final(ctx)), final(ctx).config.decomposed_problem_min_size == old(ctx).config.decomposed_problem_min_size { unimplemented!() }
}
// instances the decomposition is made for
pub open spec fn large(c: &Context) -> bool {
    c.wf() && 3 <= c.n() <= WIDEST && c.config.decomposed_problem_min_size >= 1 && 1 <= c.config.num_vehicles <= usize::MAX && c.d(0, 0) == 0real && c.cap() >= 0real
        && forall|i: int| 0 <= i < c.n() ==> (#[trigger] c.matrix_provider.correlation.list(i)).len() >= 1
}
pub proof fn lem_places_kept(c: &Context, m: Seq<usize>, a: &Context, b: &Context)
    requires same_places(c, m, a), same_problem(a, b)
    ensures same_places(c, m, b)
{ reveal(same_places); assert forall|i: int, j: int| 0 <= i < m.len() && 0 <= j < m.len() implies #[trigger] b.d(i, j) == c.d(m[i] as int, m[j] as int) by { assert(a.d(i, j) == c.d(m[i] as int, m[j] as int)); } assert forall|i: int| 0 <= i < m.len() implies #[trigger] b.demand(i) == c.demand(m[i] as int) by { assert(a.demand(i) == c.demand(m[i] as int)); } }
pub proof fn lem_before(c: &Context, g: Individual, m: Seq<usize>, rest: Individual, sc: &Context, sol: Individual)
    requires large(c), whole(c, g), decomposed(c, g, m, rest, sc, sol)
    ensures complete(sc.n(), sol.phenotype@), 1 <= sc.n() <= WIDEST, sc.config == c.config, 0 <= filled(rest.phenotype@, rest.phenotype@.len() as int) <= WIDEST,
        filled(rest.phenotype@, rest.phenotype@.len() as int) + filled(sol.phenotype@, sol.phenotype@.len() as int) <= c.config.num_vehicles
{
    lem_complete_len(c.n(), g.phenotype@); lem_filled_len(g.phenotype@, g.phenotype@.len() as int); lem_cost_frame(c, g.phenotype@, g.phenotype@, g.phenotype@.len() as int);
    lem_filled_len(rest.phenotype@, rest.phenotype@.len() as int); lem_filled_len(sol.phenotype@, sol.phenotype@.len() as int);
}
// decomposing, solving and merging keeps a solution whole, and the cost moves as the cost of the sub-problem
pub proof fn lem_round(c: &Context, g: Individual, m: Seq<usize>, rest: Individual, sc: &Context, sol0: Individual, s1: &Context, sol: Individual, out: Individual)
    requires large(c), whole(c, g), decomposed(c, g, m, rest, sc, sol0), same_problem(sc, s1),
        sol == sol0 || filled(rest.phenotype@, rest.phenotype@.len() as int) + filled(sol.phenotype@, sol.phenotype@.len() as int) <= s1.config.num_vehicles,
        merged(c, m, s1, rest.phenotype@, sol.phenotype@, out)
    ensures whole(c, out), eval_of(c, out.evaluation, out.phenotype@),
        total_cost(c, out.phenotype@, out.phenotype@.len() as int) - total_cost(c, g.phenotype@, g.phenotype@.len() as int)
            == sub_cost(s1, c.pen(), sol.phenotype@, sol.phenotype@.len() as int) - sub_cost(sc, c.pen(), sol0.phenotype@, sol0.phenotype@.len() as int)
{
    lem_before(c, g, m, rest, sc, sol0);
    lem_complete_len(c.n(), out.phenotype@); lem_flat_len(out.phenotype@, out.phenotype@.len() as int);
}
@fn src/solver/genetic/decomposition.rs DecomposedGeneticAlgorithm@Metaheuristic::iterate
@attr #[verifier::exec_allows_no_decreases_clause]
@params ctx
@mut ctx
@spec
requires large(old(ctx)), old(self).ready(old(ctx)),
ensures large(final(ctx)), final(self).ready(final(ctx)), same_problem(old(ctx), final(ctx)),
@at start
let ghost g = self.global_solution;
@at before call run
let ghost m = decomposition.mapping@; let ghost sc = &decomposition.ctx; let ghost sol0 = decomposition.solution; let ghost rest = *decomposition.global;
proof { lem_before(ctx, g, m, rest, sc, sol0); }
@at before call finish
let ghost s1 = &decomposition.ctx; let ghost sol = decomposition.solution;
proof { lem_places_kept(ctx, m, sc, s1); }
@at after call finish
proof { lem_round(ctx, g, m, rest, sc, sol0, s1, sol, self.global_solution); }
@at before call update_best 0
let ghost c1 = *ctx;
@at after call update_best 0
proof { assert forall|i: int| 0 <= i < self.global_ga.child.phenotype@.len() implies route_dist(ctx, (#[trigger] self.global_ga.child.phenotype@[i])@) == route_dist(&c1, self.global_ga.child.phenotype@[i]@) && route_over(ctx, self.global_ga.child.phenotype@[i]@) == route_over(&c1, self.global_ga.child.phenotype@[i]@) && route_pcost(ctx, self.global_ga.child.phenotype@[i]@) == route_pcost(&c1, self.global_ga.child.phenotype@[i]@) by { lem_frame_route(&c1, ctx, self.global_ga.child.phenotype@[i]@); } }
@at after call get_best_solution
proof { lem_complete_len(ctx.n(), self.global_ga.child.phenotype@); lem_flat_len(self.global_ga.child.phenotype@, self.global_ga.child.phenotype@.len() as int); }
@loop 0
invariant rr.g@.2, rr.fits(ctx.n(), ctx.config.num_vehicles as int),
@endfn
