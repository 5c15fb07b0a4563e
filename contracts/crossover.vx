## C02: ordered crossover
@include prelude/base.vx
@include prelude/individual.vx
@include prelude/perm.vx
@include prelude/hashset.vx
@raw
pub struct PopulationC { pub total_individuals_count: u64 }
// k-th position of the circular walk that starts at s
pub open spec fn pos(s: int, k: int, n: int) -> int { if s + k < n { s + k } else { s + k - n } }
pub open spec fn inv_pos(s: int, i: int, n: int) -> int { if i >= s { i - s } else { i - s + n } }
pub open spec fn window_len(s: int, e: int, n: int) -> int { if e >= s { e - s + 1 } else { e - s + 1 + n } }
pub open spec fn win(g: Seq<usize>, s: int, k: int) -> Set<usize>
    decreases k
{ if k <= 0 { Set::empty() } else { win(g, s, k - 1).insert(g[pos(s, k - 1, g.len() as int)]) } }
// the customers among the first j of p that are not in w, in that order
pub open spec fn missing(p: Seq<usize>, w: Set<usize>, j: int) -> Seq<usize>
    decreases j
{ if j <= 0 { Seq::empty() } else if w.contains(p[j - 1]) { missing(p, w, j - 1) } else { missing(p, w, j - 1).push(p[j - 1]) } }
pub open spec fn comb(a: Seq<usize>, b: Seq<usize>, s: int, w: int, j: int, k: int) -> usize {
    if k < w { a[pos(s, k, a.len() as int)] } else { missing(b, win(a, s, w), j)[k - w] }
}
pub proof fn lem_win(g: Seq<usize>, s: int, k: int, x: usize)
    requires 0 <= s < g.len(), 0 <= k <= g.len()
    ensures win(g, s, k).contains(x) <==> exists|i: int| 0 <= i < k && x == #[trigger] g[pos(s, i, g.len() as int)]
    decreases k
{
    if k > 0 {
        lem_win(g, s, k - 1, x);
        if x == g[pos(s, k - 1, g.len() as int)] {}
    }
}
pub proof fn lem_win_len(g: Seq<usize>, s: int, k: int)
    requires 0 <= s < g.len(), 0 <= k <= g.len(), nodup(g)
    ensures win(g, s, k).len() == k
    decreases k
{
    if k > 0 {
        lem_win_len(g, s, k - 1);
        lem_win(g, s, k - 1, g[pos(s, k - 1, g.len() as int)]);
    }
}
pub proof fn lem_missing(p: Seq<usize>, w: Set<usize>, j: int)
    requires nodup(p), 0 <= j <= p.len()
    ensures
        missing(p, w, j).len() <= j,
        nodup(missing(p, w, j)),
        forall|i: int| 0 <= i < missing(p, w, j).len() ==> !w.contains(#[trigger] missing(p, w, j)[i]) && exists|q: int| 0 <= q < j && p[q] == missing(p, w, j)[i],
        forall|q: int| 0 <= q < j && !w.contains(#[trigger] p[q]) ==> missing(p, w, j).contains(p[q]),
    decreases j
{
    if j > 0 {
        lem_missing(p, w, j - 1);
        let m = missing(p, w, j - 1);
        if !w.contains(p[j - 1]) {
            let m2 = m.push(p[j - 1]);
            assert(m2[m.len() as int] == p[j - 1]);
            assert forall|q: int| 0 <= q < j && !w.contains(#[trigger] p[q]) implies m2.contains(p[q]) by {
                if q < j - 1 { let i = choose|i: int| 0 <= i < m.len() && m[i] == p[q]; assert(m2[i] == p[q]); }
            }
            assert forall|i: int| 0 <= i < m2.len() implies !w.contains(#[trigger] m2[i]) && exists|q: int| 0 <= q < j && p[q] == m2[i] by {
                if i < m.len() { assert(m2[i] == m[i]); let q = choose|q: int| 0 <= q < j - 1 && p[q] == m[i]; assert(p[q] == m2[i]); } else { assert(p[j - 1] == m2[i]); }
            }
            assert forall|i: int, k: int| 0 <= i < m2.len() && 0 <= k < m2.len() && i != k implies m2[i] != m2[k] by {
                if i < m.len() && k < m.len() { assert(m[i] != m[k]); }
                else if i < m.len() { let q = choose|q: int| 0 <= q < j - 1 && p[q] == m[i]; assert(p[q] != p[j - 1]); }
                else { let q = choose|q: int| 0 <= q < j - 1 && p[q] == m[k]; assert(p[q] != p[j - 1]); }
            }
        }
    }
}
pub open spec fn ox_child(c: Seq<usize>, a: Seq<usize>, b: Seq<usize>, start: int, end: int) -> bool {
    let n = a.len() as int; let w = window_len(start, end, n); let m = missing(b, win(a, start, w), n);
    &&& c.len() == n
    &&& m.len() == n - w
    &&& forall|k: int| 0 <= k < w ==> #[trigger] c[pos(start, k, n)] == a[pos(start, k, n)]
    &&& forall|k: int| w <= k < n ==> #[trigger] c[pos(start, k, n)] == m[k - w]
}
pub proof fn lem_ox_perm(c: Seq<usize>, a: Seq<usize>, b: Seq<usize>, start: int, end: int)
    requires ox_child(c, a, b, start, end), a.len() >= 1, perm(a, a.len() as int), perm(b, a.len() as int), 0 <= start < a.len(), 0 <= end < a.len()
    ensures perm(c, a.len() as int)
{
    let n = a.len() as int; let w = window_len(start, end, n); let ws = win(a, start, w); let m = missing(b, ws, n);
    lem_missing(b, ws, n);
    assert forall|i: int| 0 <= i < n implies in_1n(#[trigger] c[i], n) by {
        let k = inv_pos(start, i, n);
        assert(pos(start, k, n) == i);
        if k < w { assert(in_1n(a[i], n)); } else { assert(!ws.contains(m[k - w])); let q = choose|q: int| 0 <= q < n && b[q] == m[k - w]; assert(in_1n(b[q], n)); }
    }
    assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n && i != j implies c[i] != c[j] by {
        let (k, l) = (inv_pos(start, i, n), inv_pos(start, j, n));
        assert(pos(start, k, n) == i && pos(start, l, n) == j);
        lem_win(a, start, w, c[i]); lem_win(a, start, w, c[j]);
        if k < w && l < w { assert(a[i] != a[j]); }
        else if k < w { assert(c[i] == a[pos(start, k, n)]); assert(ws.contains(c[i])); assert(!ws.contains(m[l - w])); }
        else if l < w { assert(c[j] == a[pos(start, l, n)]); assert(ws.contains(c[j])); assert(!ws.contains(m[k - w])); }
        else { assert(m[k - w] != m[l - w]); }
    }
}
@struct src/solver/genetic/genetic.rs GeneticAlgorithm
@field population: PopulationC
@omit state ls rr split iterations next_penalty_update next_log_interval child num_initialized best_solution best_iteration diversified_start diversify current_best_solution_cost diversity
@helpers src/solver/genetic/genetic.rs

@fn src/solver/genetic/individual.rs Individual::new
@params genotype number
@ret r
@spec
ensures r.genotype == genotype, r.number == number,
@endfn
@assume src/solver/evaluate.rs SolutionEvaluation::new
@ret r
@endfn
@fn src/solver/genetic/genetic.rs GeneticAlgorithm::crossover_ox
@attr #[verifier::allow_complex_invariants]
@params ctx parent_one parent_two start end
@ret r
@spec
requires
    parent_one.genotype@.len() >= 1,
    perm(parent_one.genotype@, parent_one.genotype@.len() as int),
    perm(parent_two.genotype@, parent_one.genotype@.len() as int),
    start < parent_one.genotype@.len(), end < parent_one.genotype@.len(),
ensures
    ox_child(r.genotype@, parent_one.genotype@, parent_two.genotype@, start as int, end as int),
    perm(r.genotype@, parent_one.genotype@.len() as int),
@at start
let ghost a = parent_one.genotype@;
let ghost b = parent_two.genotype@;
let ghost n = a.len() as int;
let ghost w = window_len(start as int, end as int, n);
let ghost ws = win(a, start as int, w);
let ghost mut k: int = 0;
@loop 0
invariant_except_break
    0 <= k < w, index == pos(start as int, k, n), added_genes@ == win(a, start as int, k),
    genotype@ == a, a.len() == n, n >= 1, start < n, end < n, w == window_len(start as int, end as int, n),
ensures
    genotype@ == a, added_genes@ == win(a, start as int, w), index == pos(start as int, w, n), w <= n,
decreases w - k
@at loop 0 start
proof { k = k + 1; }
@at before loop 1
proof {
    lem_win_len(a, start as int, w);
    assert(missing(b, ws, 0).len() == 0);
    assert forall|x: usize| added_genes@.contains(x) implies 1 <= x <= n by {
        lem_win(a, start as int, w, x);
        let i = choose|i: int| 0 <= i < w && x == a[pos(start as int, i, n)]; assert(in_1n(a[pos(start as int, i, n)], n));
    }
    lem_set_bound(added_genes@, n);
}
@loop 1
invariant
    __i1 <= b.len(), b == parent_two.genotype@, perm(b, n), perm(a, n), genotype@.len() == n, 1 <= n <= usize::MAX, a.len() == n,
    start < n, 0 <= w <= n, ws == win(a, start as int, w), ws.len() == w,
    added_genes@.len() == w + missing(b, ws, __i1 as int).len(), added_genes@.len() <= n,
    forall|x: usize| #[trigger] added_genes@.contains(x) ==> 1 <= x <= n,
    forall|x: usize| #[trigger] added_genes@.contains(x) <==> ws.contains(x) || missing(b, ws, __i1 as int).contains(x),
    forall|x: int| 0 <= x < __i1 ==> added_genes@.contains(#[trigger] b[x]),
    index == pos(start as int, w + missing(b, ws, __i1 as int).len(), n),
    forall|k: int| 0 <= k < w + missing(b, ws, __i1 as int).len() ==> #[trigger] genotype@[pos(start as int, k, n)] == comb(a, b, start as int, w, __i1 as int, k),
decreases b.len() - __i1
@at loop 1 start
let ghost g0 = genotype@;
let ghost m0 = missing(b, ws, __i1 - 1);
let ghost m1 = missing(b, ws, __i1 as int);
let ghost added0 = added_genes@;
proof {
    assert(in_1n(b[__i1 - 1], n));
    lem_missing(b, ws, __i1 - 1); lem_missing(b, ws, __i1 as int);
    if m0.contains(b[__i1 - 1]) {
        let i = choose|i: int| 0 <= i < m0.len() && m0[i] == b[__i1 - 1];
        let q = choose|q: int| 0 <= q < __i1 - 1 && b[q] == m0[i];
        assert(b[q] != b[__i1 - 1]);
    }
}
@at loop 1 end
proof {
    let x = b[__i1 - 1];
    lem_set_bound(added_genes@, n);
    if !added0.contains(x) {
        assert(m1 == m0.push(x));
        let kk = w + m0.len() as int;
        assert(m1[m0.len() as int] == x);
        assert forall|k: int| 0 <= k < w + m1.len() implies #[trigger] genotype@[pos(start as int, k, n)] == comb(a, b, start as int, w, __i1 as int, k) by {
            if k < kk { assert(pos(start as int, k, n) != pos(start as int, kk, n)); assert(g0[pos(start as int, k, n)] == comb(a, b, start as int, w, __i1 - 1, k)); if k >= w { assert(m1[k - w] == m0[k - w]); } }
        }
        assert forall|y: usize| #[trigger] added_genes@.contains(y) <==> ws.contains(y) || m1.contains(y) by {
            if m1.contains(y) { let i = choose|i: int| 0 <= i < m1.len() && m1[i] == y; if i < m0.len() { assert(m0[i] == y); assert(m0.contains(y)); } }
            if m0.contains(y) { let i = choose|i: int| 0 <= i < m0.len() && m0[i] == y; assert(m1[i] == y); }
        }
    } else {
        assert(m1 == m0);
    }
}
@at after loop 1
proof {
    // every customer has been added, so the child is complete
    lem_range_set(n);
    assert forall|x: usize| range_set(n).contains(x) implies added_genes@.contains(x) by { let q = lem_perm_covers(b, n, x); assert(added_genes@.contains(b[q])); }
    vstd::set_lib::lemma_len_subset(range_set(n), added_genes@);
    assert forall|k: int| 0 <= k < w implies #[trigger] genotype@[pos(start as int, k, n)] == a[pos(start as int, k, n)] by { assert(genotype@[pos(start as int, k, n)] == comb(a, b, start as int, w, n, k)); }
    assert forall|k: int| w <= k < n implies #[trigger] genotype@[pos(start as int, k, n)] == missing(b, ws, n)[k - w] by { assert(genotype@[pos(start as int, k, n)] == comb(a, b, start as int, w, n, k)); }
    lem_ox_perm(genotype@, a, b, start as int, end as int);
}
@endfn
@fn src/solver/genetic/genetic.rs GeneticAlgorithm::crossover
@params ctx parent_one parent_two
@ret r
@attr #[verifier::exec_allows_no_decreases_clause]
@attr #[verifier::allow_complex_invariants]
@spec
requires
    perm(parent_one.genotype@, parent_one.genotype@.len() as int),
    perm(parent_two.genotype@, parent_one.genotype@.len() as int),
ensures
    perm(r.genotype@, parent_one.genotype@.len() as int),
    parent_one.genotype@.len() >= 2 ==> exists|s: int, e: int| 0 <= s < parent_one.genotype@.len() && 0 <= e < parent_one.genotype@.len() && s != e
        && #[trigger] ox_child(r.genotype@, parent_one.genotype@, parent_two.genotype@, s, e),
@loop 0
invariant_except_break parent_one.genotype@.len() >= 2,
ensures ({ let e: usize = end; e < parent_one.genotype@.len() && e != start }),
@endfn
