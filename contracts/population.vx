## C12, C13: subpopulations
@include prelude/base.vx
@include prelude/individual.vx
@include prelude/evalspec.vx
@include prelude/brokenspec.vx
@include prelude/sort.vx
@include prelude/search.vx
@include prelude/hashset.vx
@include prelude/hashmap.vx
@usefn evaluate.vx Individual::is_feasible
@usefn evaluate.vx Individual::penalized_cost
@usefn broken_pairs.vx Individual::calculate_broken_pairs_distance
@raw
use core::cmp::Ordering;
impl HashMap<Vec<Diversity>> {
    #[verifier::external_body] pub fn with_capacity_and_hasher(n: usize, h: RandomState) -> (r: Self) ensures r.wf(), r.entries@.len() == 0 { unimplemented!() }
}
@struct src/solver/genetic/population.rs Diversity
@struct src/solver/genetic/population.rs SubPopulation
@field diversity: HashMap<Vec<Diversity>>
@struct src/solver/genetic/population.rs Population
@raw
impl SearchOrd for Diversity {
    open spec fn cmp_s(&self, o: &Self) -> Ordering { if self.distance < o.distance { Ordering::Less } else if self.distance > o.distance { Ordering::Greater } else { Ordering::Equal } }
}
impl SearchOrd for Individual {
    open spec fn cmp_s(&self, o: &Self) -> Ordering {
        let a = self.evaluation.penalized_cost@; let b = o.evaluation.penalized_cost@;
        if rabs(a - b) < EPSILON_spec() { Ordering::Equal } else if a < b { Ordering::Less } else { Ordering::Greater }
    }
}
// ---- the recorded diversity of a pair: the distance from the older to the newer individual
pub open spec fn bpd(a: Individual, b: Individual) -> int { broken_pairs(a.evaluation, b.evaluation, a.genotype@.len() as int) }
pub open spec fn pair_d(a: Individual, b: Individual) -> int { if a.number < b.number { bpd(a, b) } else { bpd(b, a) } }
pub open spec fn ind_ok(ctx: &Context, a: Individual) -> bool { a.genotype@.len() + 1 == ctx.n() && eval_covers(a.evaluation, ctx.n()) }
// equal up to the fitness
pub open spec fn same_ind(a: Individual, b: Individual) -> bool { a.number == b.number && a.genotype == b.genotype && a.phenotype == b.phenotype && a.evaluation == b.evaluation }
pub open spec fn distinct_numbers(p: Seq<Individual>) -> bool { forall|i: int, j: int| 0 <= i < j < p.len() ==> (#[trigger] p[i]).number != (#[trigger] p[j]).number }
// entry e of the list of member i is the pair (i, j)
pub open spec fn entry_ok(e: Diversity, p: Seq<Individual>, i: int, j: int) -> bool {
    0 <= j < p.len() && j != i && p[j].number == e.to_number && e.distance as int == pair_d(p[i], p[j])
}
pub open spec fn no_index(j: int) -> spec_fn(int) -> bool { |x: int| x != j }
pub open spec fn all_index() -> spec_fn(int) -> bool { |x: int| true }
pub open spec fn below(k: int) -> spec_fn(int) -> bool { |x: int| x < k }
pub open spec fn lists(d: Seq<Diversity>, num: u64) -> bool { exists|a: int| 0 <= a < d.len() && (#[trigger] d[a]).to_number == num }
pub open spec fn by_distance(d: Seq<Diversity>) -> bool { forall|a: int, b: int| 0 <= a < b < d.len() ==> (#[trigger] d[a]).distance <= (#[trigger] d[b]).distance }
pub open spec fn distinct_to(d: Seq<Diversity>) -> bool { forall|a: int, b: int| 0 <= a < b < d.len() ==> (#[trigger] d[a]).to_number != (#[trigger] d[b]).to_number }
pub open spec fn has_entry(e: Diversity, p: Seq<Individual>, i: int, f: spec_fn(int) -> bool) -> bool { exists|j: int| f(j) && #[trigger] entry_ok(e, p, i, j) }
pub open spec fn entries_in(d: Seq<Diversity>, p: Seq<Individual>, i: int, f: spec_fn(int) -> bool) -> bool { forall|a: int| 0 <= a < d.len() ==> has_entry(#[trigger] d[a], p, i, f) }
pub open spec fn covers(d: Seq<Diversity>, p: Seq<Individual>, i: int, f: spec_fn(int) -> bool) -> bool { forall|j: int| 0 <= j < p.len() && j != i && f(j) ==> lists(d, (#[trigger] p[j]).number) }
// d is the diversity list of member i towards the members in f
#[verifier::opaque]
pub open spec fn lst(d: Seq<Diversity>, p: Seq<Individual>, i: int, f: spec_fn(int) -> bool, cnt: int) -> bool {
    d.len() == cnt && by_distance(d) && distinct_to(d) && entries_in(d, p, i, f) && covers(d, p, i, f)
}
pub open spec fn part(p: Seq<Individual>, i: int, f: spec_fn(int) -> bool, j: int) -> bool { 0 <= j < p.len() && j != i && f(j) }
// the list does not depend on where the individuals are in the vector
pub open spec fn moved(p: Seq<Individual>, i: int, f: spec_fn(int) -> bool, p2: Seq<Individual>, i2: int, f2: spec_fn(int) -> bool, j: int, m: spec_fn(int) -> int) -> bool {
    part(p, i, f, j) ==> part(p2, i2, f2, m(j)) && same_ind(p[j], p2[m(j)])
}
pub proof fn lem_transport(d: Seq<Diversity>, p: Seq<Individual>, i: int, f: spec_fn(int) -> bool, p2: Seq<Individual>, i2: int, f2: spec_fn(int) -> bool, cnt: int, m: spec_fn(int) -> int, w: spec_fn(int) -> int)
    requires lst(d, p, i, f, cnt), 0 <= i < p.len(), 0 <= i2 < p2.len(), same_ind(p[i], p2[i2]),
        forall|j: int| #[trigger] moved(p, i, f, p2, i2, f2, j, m), forall|j: int| #[trigger] moved(p2, i2, f2, p, i, f, j, w),
    ensures lst(d, p2, i2, f2, cnt)
{
    reveal(lst);
    assert forall|a: int| 0 <= a < d.len() implies has_entry(#[trigger] d[a], p2, i2, f2) by {
        assert(has_entry(d[a], p, i, f));
        let j = choose|j: int| f(j) && entry_ok(d[a], p, i, j);
        assert(moved(p, i, f, p2, i2, f2, j, m));
        assert(f2(m(j)) && entry_ok(d[a], p2, i2, m(j)));
    }
    assert forall|j: int| 0 <= j < p2.len() && j != i2 && f2(j) implies lists(d, (#[trigger] p2[j]).number) by {
        assert(moved(p2, i2, f2, p, i, f, j, w));
        assert(lists(d, p[w(j)].number));
    }
}
pub proof fn lem_same_f(d: Seq<Diversity>, p: Seq<Individual>, i: int, f: spec_fn(int) -> bool, g: spec_fn(int) -> bool, cnt: int)
    requires lst(d, p, i, f, cnt), 0 <= i < p.len(), forall|j: int| 0 <= j < p.len() && j != i ==> #[trigger] f(j) == g(j)
    ensures lst(d, p, i, g, cnt)
{
    let id = |x: int| x;
    assert forall|j: int| #[trigger] moved(p, i, f, p, i, g, j, id) by { assert(f(j) || !f(j)); }
    assert forall|j: int| #[trigger] moved(p, i, g, p, i, f, j, id) by { assert(f(j) || !f(j)); }
    lem_transport(d, p, i, f, p, i, g, cnt, id, id);
}
pub open spec fn sorted_at(d: Seq<Diversity>, e: Diversity, x: int) -> bool {
    &&& 0 <= x <= d.len()
    &&& forall|a: int| 0 <= a < x ==> (#[trigger] d[a]).distance <= e.distance
    &&& forall|a: int| x <= a < d.len() ==> (#[trigger] d[a]).distance >= e.distance
}
pub proof fn lem_list_insert(d: Seq<Diversity>, p: Seq<Individual>, i: int, f: spec_fn(int) -> bool, g: spec_fn(int) -> bool, m: int, cnt: int, x: int, e: Diversity)
    requires lst(d, p, i, f, cnt), distinct_numbers(p), 0 <= i < p.len(), entry_ok(e, p, i, m), !f(m), sorted_at(d, e, x),
        forall|j: int| #[trigger] g(j) == (f(j) || j == m)
    ensures lst(d.insert(x, e), p, i, g, cnt + 1)
{
    reveal(lst);
    let d2 = d.insert(x, e);
    assert(g(m));
    assert forall|a: int| 0 <= a < d2.len() implies has_entry(#[trigger] d2[a], p, i, g) by {
        if a == x { assert(g(m) && entry_ok(d2[a], p, i, m)); }
        else {
            let b = if a < x { a } else { a - 1 };
            assert(d2[a] == d[b]);
            assert(has_entry(d[b], p, i, f));
            let j = choose|j: int| f(j) && entry_ok(d[b], p, i, j);
            assert(g(j) && entry_ok(d2[a], p, i, j));
        }
    }
    assert forall|a: int| 0 <= a < d.len() implies (#[trigger] d[a]).to_number != e.to_number by {
        assert(has_entry(d[a], p, i, f));
        let j = choose|j: int| f(j) && entry_ok(d[a], p, i, j);
        assert(j != m);
        assert(p[j].number != p[m].number);
    }
    assert forall|a: int, b: int| 0 <= a < b < d2.len() implies (#[trigger] d2[a]).distance <= (#[trigger] d2[b]).distance && d2[a].to_number != d2[b].to_number by {
        let a0 = if a < x { a } else { a - 1 }; let b0 = if b < x { b } else { b - 1 };
        if a != x { assert(d2[a] == d[a0]); } if b != x { assert(d2[b] == d[b0]); }
    }
    assert forall|j: int| 0 <= j < p.len() && j != i && g(j) implies lists(d2, (#[trigger] p[j]).number) by {
        if j == m { assert(d2[x].to_number == p[m].number); }
        else {
            assert(f(j));
            assert(lists(d, p[j].number));
            let a = choose|a: int| 0 <= a < d.len() && (#[trigger] d[a]).to_number == p[j].number;
            let b = if a < x { a } else { a + 1 };
            assert(d2[b] == d[a]);
        }
    }
}
pub proof fn lem_list_remove(d: Seq<Diversity>, p: Seq<Individual>, i: int, f: spec_fn(int) -> bool, g: spec_fn(int) -> bool, m: int, cnt: int, x: int)
    requires lst(d, p, i, f, cnt), distinct_numbers(p), 0 <= i < p.len(), 0 <= m < p.len(), m != i, 0 <= x < d.len(), d[x].to_number == p[m].number,
        forall|j: int| #[trigger] g(j) == (f(j) && j != m)
    ensures lst(d.remove(x), p, i, g, cnt - 1)
{
    reveal(lst);
    let d2 = d.remove(x);
    assert forall|a: int| 0 <= a < d2.len() implies has_entry(#[trigger] d2[a], p, i, g) by {
        let b = if a < x { a } else { a + 1 };
        assert(d2[a] == d[b]);
        assert(d[b].to_number != d[x].to_number);
        assert(has_entry(d[b], p, i, f));
        let j = choose|j: int| f(j) && entry_ok(d[b], p, i, j);
        assert(j != m);
        assert(g(j) && entry_ok(d2[a], p, i, j));
    }
    assert forall|j: int| 0 <= j < p.len() && j != i && g(j) implies lists(d2, (#[trigger] p[j]).number) by {
        assert(f(j));
        assert(lists(d, p[j].number));
        let a = choose|a: int| 0 <= a < d.len() && (#[trigger] d[a]).to_number == p[j].number;
        assert(p[j].number != p[m].number);
        let b = if a < x { a } else { a - 1 };
        assert(d2[b] == d[a]);
    }
    assert forall|a: int, b: int| 0 <= a < b < d2.len() implies (#[trigger] d2[a]).distance <= (#[trigger] d2[b]).distance && d2[a].to_number != d2[b].to_number by {
        let a0 = if a < x { a } else { a + 1 }; let b0 = if b < x { b } else { b + 1 };
        assert(d2[a] == d[a0] && d2[b] == d[b0]);
    }
}
// ---- fitness
pub open spec fn dist_sum(d: Seq<Diversity>, k: int) -> int
    decreases k
{ if k <= 0 { 0 } else { dist_sum(d, k - 1) + d[k - 1].distance as int } }
pub open spec fn avg_dist(d: Seq<Diversity>, num: int, size: int) -> real {
    let k = if num < size - 1 { num } else { size - 1 };
    (dist_sum(d, k) as real) / (k as real)
}
pub open spec fn biased(i: int, rank: int, size: int, elites: int, focus: bool) -> real {
    let n = (size as real) - 1real;
    let elite_factor = 1real - (elites as real) / (size as real);
    let cr = (i as real) / n; let dr = (rank as real) / n;
    if focus { if i < elites { cr } else { cr * elite_factor + dr } }
    else if size <= elites { cr } else { cr + elite_factor * dr }
}
impl SubPopulation {
    pub open spec fn p(&self) -> Seq<Individual> { self.population@ }
    pub open spec fn stored(&self, k: u64) -> Seq<Diversity> { if self.diversity.has(k) { self.diversity.at(k)@ } else { Seq::empty() } }
    pub open spec fn list(&self, i: int) -> Seq<Diversity> { self.stored(self.p()[i].number) }
    // exactly one diversity list per member and no others
    pub open spec fn keys_ok(&self, p: Seq<Individual>) -> bool {
        self.diversity.wf() && forall|k: u64| #[trigger] self.diversity.has(k) ==> exists|i: int| 0 <= i < p.len() && (#[trigger] p[i]).number == k
    }
    // the list of a member holds all other members (a member without stored list counts as one with an empty list)
    pub open spec fn list_ok(&self, i: int, f: spec_fn(int) -> bool, cnt: int) -> bool { lst(self.list(i), self.p(), i, f, cnt) }
    pub open spec fn lists_ok(&self) -> bool { forall|i: int| 0 <= i < self.p().len() ==> #[trigger] self.list_ok(i, all_index(), self.p().len() - 1) }
    pub open spec fn members_ok(&self, ctx: &Context, bound: int) -> bool {
        forall|i: int| 0 <= i < self.p().len() ==> ind_ok(ctx, #[trigger] self.p()[i]) && self.p()[i].number < bound
    }
    pub open spec fn inv(&self, ctx: &Context, bound: int) -> bool {
        &&& self.members_ok(ctx, bound) && distinct_numbers(self.p()) && self.keys_ok(self.p()) && self.lists_ok()
        &&& self.p().len() < 0x7fff_ffff && ctx.n() < 0x7fff_ffff
    }
    pub open spec fn clone_at(&self, i: int) -> bool { self.list(i)[0].distance == 0 }
    pub open spec fn avg_at(&self, ctx: &Context, i: int) -> real { avg_dist(self.list(i), ctx.config.num_diversity_closest as int, self.p().len() as int) }
    pub open spec fn ranks(&self, ctx: &Context, rank: Seq<int>) -> bool {
        is_perm_map(rank, self.p().len() as int)
        && forall|i: int, j: int| 0 <= i < self.p().len() && 0 <= j < self.p().len() && #[trigger] rank[i] < #[trigger] rank[j] ==> self.avg_at(ctx, i) >= self.avg_at(ctx, j)
    }
    // biased fitness: cost rank plus weighted diversity rank
    pub open spec fn fitness_ok(&self, ctx: &Context) -> bool {
        if self.p().len() == 1 { self.p()[0].fitness@ == 0real }
        else { exists|rank: Seq<int>| #[trigger] self.ranks(ctx, rank) && self.has_fitness(ctx, rank, self.p().len() as int) }
    }
    pub open spec fn has_fitness(&self, ctx: &Context, rank: Seq<int>, n: int) -> bool {
        forall|i: int| 0 <= i < n ==> (#[trigger] self.p()[i]).fitness@ == biased(i, rank[i], n, ctx.config.num_elites as int, self.focus_diversity)
    }
}
pub open spec fn only_fitness(a: Seq<Individual>, b: Seq<Individual>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> same_ind(a[i], #[trigger] b[i]) }
pub open spec fn conf_ok(ctx: &Context) -> bool { ctx.config.num_diversity_closest >= 1 && ctx.config.min_population_size >= 1 }
@fn src/solver/genetic/population.rs Diversity::new
@params distance to_number
@ret r
@spec
ensures r.distance == distance, r.to_number == to_number,
@endfn
@fn src/solver/genetic/population.rs Diversity@Ord::cmp
@params other
@ret r
@spec
ensures r == self.cmp_s(other),
@endfn
@fn src/solver/genetic/individual.rs Individual@PartialEq::eq
@params other
@ret r
@spec
ensures r == (self.cmp_s(other) == Ordering::Equal),
@endfn
@fn src/solver/genetic/individual.rs Individual@PartialOrd::partial_cmp
@params other
@ret r
@subst self == other ==> self.eq(other)
@spec
ensures r == Some(self.cmp_s(other)),
@endfn
@fn src/solver/genetic/individual.rs Individual@Ord::cmp
@params other
@ret r
@spec
ensures r == self.cmp_s(other),
@endfn
@fn src/solver/genetic/population.rs SubPopulation::size
@ret r
@spec
ensures r == self.p().len(),
@endfn
@raw
#[inline] pub fn min(a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } }
pub proof fn lem_ready(d: Seq<Diversity>, e: Diversity, a: int, b: int)
    requires by_distance(d), 0 <= a <= b <= d.len(),
        forall|i: int| 0 <= i < a ==> (#[trigger] d[i]).distance < e.distance,
        forall|i: int| a <= i < b ==> (#[trigger] d[i]).distance == e.distance,
    ensures search_ready(d, e)
    decreases d.len() - a, d.len() - b
{
    if b < d.len() && d[b].distance == e.distance { lem_ready(d, e, a, b + 1); }
    else if a == b && a < d.len() && d[a].distance < e.distance { lem_ready(d, e, a + 1, a + 1); }
    else {
        assert forall|i: int| b <= i < d.len() implies (#[trigger] d[i]).distance > e.distance by { if i > b { assert(d[b].distance <= d[i].distance); } if a < b { assert(d[a].distance <= d[b].distance); } }
        assert(partitioned(d, e, a, b));
    }
}
pub proof fn lem_pair_bounds(ctx: &Context, a: Individual, b: Individual)
    requires ind_ok(ctx, a), ind_ok(ctx, b), ctx.n() < 0x7fff_ffff
    ensures 0 <= pair_d(a, b) <= 0x1_0000_0000
{ lem_bounds(a.evaluation, b.evaluation, a.genotype@.len() as int); lem_bounds(b.evaluation, a.evaluation, a.genotype@.len() as int); }
pub open spec fn bounded_list(d: Seq<Diversity>) -> bool { forall|a: int| 0 <= a < d.len() ==> 0 <= (#[trigger] d[a]).distance <= 0x1_0000_0000 }
pub proof fn lem_list_bounds(ctx: &Context, d: Seq<Diversity>, p: Seq<Individual>, i: int, f: spec_fn(int) -> bool, cnt: int)
    requires lst(d, p, i, f, cnt), forall|k: int| 0 <= k < p.len() ==> ind_ok(ctx, #[trigger] p[k]), 0 <= i < p.len(), ctx.n() < 0x7fff_ffff
    ensures bounded_list(d), d.len() == cnt, by_distance(d)
{
    reveal(lst);
    assert forall|a: int| 0 <= a < d.len() implies 0 <= (#[trigger] d[a]).distance <= 0x1_0000_0000 by {
        assert(has_entry(d[a], p, i, f));
        let j = choose|j: int| f(j) && entry_ok(d[a], p, i, j);
        lem_pair_bounds(ctx, p[i], p[j]);
    }
}
@fn src/solver/genetic/population.rs SubPopulation::average_broken_pairs_distance
@params individual num
@ret r
@spec
requires
    self.diversity.wf(), self.diversity.has(individual.number), self.stored(individual.number).len() == self.p().len() - 1, bounded_list(self.stored(individual.number)),
    self.p().len() >= 2, num >= 1, self.p().len() < 0x7fff_ffff,
ensures
    r@ == avg_dist(self.stored(individual.number), num as int, self.p().len() as int),
@loop 0
invariant
    __i0 <= num_to_check, num_to_check < self.p().len(), diversity_vec@ == self.stored(individual.number), diversity_vec@.len() == self.p().len() - 1,
    bounded_list(diversity_vec@), self.p().len() < 0x7fff_ffff,
    diversity_total as int == dist_sum(diversity_vec@, __i0 as int), 0 <= diversity_total <= 0x1_0000_0000 * (__i0 as int),
decreases num_to_check - __i0
@endfn
@fn src/solver/genetic/population.rs SubPopulation::individual_is_clone
@params individual
@ret r
@spec
requires self.diversity.wf(), self.diversity.has(individual.number), self.stored(individual.number).len() > 0,
ensures r == (self.stored(individual.number)[0].distance == 0),
@endfn
@fn src/solver/genetic/population.rs SubPopulation::add_diversity
@params key diversity
@spec
requires old(self).diversity.wf(), by_distance(old(self).stored(key)),
ensures
    final(self).population == old(self).population, final(self).focus_diversity == old(self).focus_diversity, final(self).max_individuals == old(self).max_individuals,
    final(self).diversity.wf(), forall|x: u64| #[trigger] final(self).diversity.has(x) == (old(self).diversity.has(x) || x == key),
    forall|x: u64| x != key ==> #[trigger] final(self).stored(x) == old(self).stored(x),
    exists|x: int| #[trigger] sorted_at(old(self).stored(key), diversity, x) && final(self).stored(key) == old(self).stored(key).insert(x, diversity),
@at start
let ghost d0 = self.stored(key);
proof { lem_ready(d0, diversity, 0, 0); assert(Seq::<Diversity>::empty().insert(0, diversity) =~= seq![diversity]); }
@at after let insert_index
proof { assert(sorted_at(d0, diversity, insert_index as int)); }
@at end
proof { if !old(self).diversity.has(key) { assert(sorted_at(d0, diversity, 0)); assert(self.stored(key) =~= d0.insert(0, diversity)); } }
@endfn
@raw
pub proof fn lem_sorted(d: Seq<Diversity>, p: Seq<Individual>, i: int, f: spec_fn(int) -> bool, cnt: int) requires lst(d, p, i, f, cnt) ensures by_distance(d), d.len() == cnt { reveal(lst); }
pub open spec fn sized(p: Seq<Individual>, n: int) -> bool { forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]).genotype@.len() + 1 == n && eval_covers(p[i].evaluation, n) }
pub open spec fn newest(p: Seq<Individual>, index: int) -> bool { forall|j: int| 0 <= j < p.len() && j != index ==> (#[trigger] p[j]).number < p[index].number }
pub open spec fn upto(k: int, index: int) -> int { if index < k { k - 1 } else { k } }
@fn src/solver/genetic/population.rs SubPopulation::update_diversity
@params index
@spec
requires
    index < old(self).p().len(), old(self).p().len() < 0x7fff_ffff, distinct_numbers(old(self).p()), newest(old(self).p(), index as int),
    old(self).keys_ok(old(self).p()), !old(self).diversity.has(old(self).p()[index as int].number),
    exists|n: int| 1 <= n < 0x7fff_ffff && #[trigger] sized(old(self).p(), n),
    forall|i: int| 0 <= i < old(self).p().len() && i != index ==> #[trigger] old(self).list_ok(i, no_index(index as int), old(self).p().len() - 2),
ensures
    final(self).population == old(self).population, final(self).focus_diversity == old(self).focus_diversity, final(self).max_individuals == old(self).max_individuals,
    final(self).keys_ok(final(self).p()), final(self).lists_ok(),
@at start
let ghost p0 = self.p();
let ghost n = choose|n: int| 1 <= n < 0x7fff_ffff && #[trigger] sized(old(self).p(), n);
proof { assert(self.list_ok(index as int, below(0), 0)) by { reveal(lst); assert(self.list(index as int).len() == 0); } }
@loop 0
invariant
    __i0 <= p0.len(), self.p() == p0, self.population == old(self).population, index < p0.len(), distinct_numbers(p0), newest(p0, index as int), p0.len() < 0x7fff_ffff,
    self.focus_diversity == old(self).focus_diversity, self.max_individuals == old(self).max_individuals,
    self.keys_ok(p0), 1 <= n < 0x7fff_ffff,
    sized(p0, n),
    forall|i: int| 0 <= i < __i0 && i != index ==> #[trigger] self.list_ok(i, all_index(), p0.len() - 1),
    forall|i: int| __i0 <= i < p0.len() && i != index ==> #[trigger] self.list_ok(i, no_index(index as int), p0.len() - 2),
    self.list_ok(index as int, below(__i0 as int), upto(__i0 as int, index as int)),
decreases p0.len() - __i0
@at loop 0 start
let ghost s0 = *self; let ghost s2 = *self; let ghost cnt = 0int; let ghost k = __c0 as int; let ghost ix = index as int; let ghost np = p0.len() as int;
proof {
    if k != ix { assert(s0.list_ok(k, no_index(ix), np - 2)); lem_sorted(s0.list(k), p0, k, no_index(ix), np - 2); lem_sorted(s0.list(ix), p0, ix, below(k), upto(k, ix)); assert(p0[k].number < p0[ix].number); }
}
@at after call add_diversity
let ghost s1 = s2; let ghost s2 = *self; let ghost cnt = cnt + 1;
proof {
    if cnt == 1 {
        let e = Diversity { distance: distance, to_number: p0[ix].number };
        let x = choose|x: int| #[trigger] sorted_at(s1.list(k), e, x) && s2.list(k) == s1.list(k).insert(x, e);
        assert(entry_ok(e, p0, k, ix));
        lem_list_insert(s1.list(k), p0, k, no_index(ix), all_index(), ix, np - 2, x, e);
    } else {
        let e = Diversity { distance: distance, to_number: p0[k].number };
        assert(s1.list(ix) == s0.list(ix));
        let x = choose|x: int| #[trigger] sorted_at(s1.list(ix), e, x) && s2.list(ix) == s1.list(ix).insert(x, e);
        assert(entry_ok(e, p0, ix, k));
        lem_list_insert(s1.list(ix), p0, ix, below(k), below(k + 1), k, upto(k, ix), x, e);
        assert(self.list_ok(k, all_index(), np - 1));
        assert(self.list_ok(ix, below(k + 1), upto(k + 1, ix)));
        assert forall|i: int| 0 <= i < np && i != ix && i != k implies #[trigger] self.list(i) == s0.list(i) by { assert(p0[i].number != p0[ix].number); assert(p0[i].number != p0[k].number); }
    }
}
@at loop 0 end
proof {
    if k == ix { lem_same_f(self.list(ix), p0, ix, below(k), below(k + 1), upto(k, ix)); assert(self.list_ok(ix, below(k + 1), upto(k + 1, ix))); assert(*self == s0); }
    assert forall|i: int| 0 <= i < k + 1 && i != ix implies #[trigger] self.list_ok(i, all_index(), np - 1) by { if i < k { assert(s0.list_ok(i, all_index(), np - 1)); } }
    assert forall|i: int| k + 1 <= i < np && i != ix implies #[trigger] self.list_ok(i, no_index(ix), np - 2) by { assert(s0.list_ok(i, no_index(ix), np - 2)); }
    assert(self.keys_ok(p0)) by {
        assert forall|x: u64| #[trigger] self.diversity.has(x) implies exists|i: int| 0 <= i < p0.len() && (#[trigger] p0[i]).number == x by {
            if x == p0[k].number { } else if x == p0[ix].number { } else { assert(s0.diversity.has(x)); }
        }
    }
}
@at after loop 0
proof {
    let ix = index as int; let np = p0.len() as int;
    lem_same_f(self.list(ix), p0, ix, below(np), all_index(), np - 1);
    assert forall|i: int| 0 <= i < np implies #[trigger] self.list_ok(i, all_index(), np - 1) by { }
}
@endfn
@raw
// d2 is d without the entry of num
pub open spec fn without(d: Seq<Diversity>, num: u64, d2: Seq<Diversity>) -> bool {
    if lists(d, num) { exists|a: int| 0 <= a < d.len() && (#[trigger] d[a]).to_number == num && d2 == d.remove(a) } else { d2 == d }
}
@fn src/solver/genetic/population.rs SubPopulation::remove_diversity
@attr #[verifier::allow_complex_invariants]
@params individual
@subst self . diversity . iter_mut () ==> self.diversity.entries.iter_mut()
@spec
requires old(self).diversity.wf(),
ensures
    final(self).population == old(self).population, final(self).focus_diversity == old(self).focus_diversity, final(self).max_individuals == old(self).max_individuals,
    final(self).diversity.wf(), forall|x: u64| #[trigger] final(self).diversity.has(x) == (old(self).diversity.has(x) && x != individual.number),
    forall|x: u64| final(self).diversity.has(x) ==> without(old(self).stored(x), individual.number, #[trigger] final(self).stored(x)),
@at before loop 0
let ghost e0 = self.diversity.entries@;
let ghost m0 = self.diversity;
@loop 0
invariant
    __i0 <= e0.len(), self.diversity.entries@.len() == e0.len(), m0.wf(), m0.entries@ == e0,
    self.population == old(self).population, self.focus_diversity == old(self).focus_diversity, self.max_individuals == old(self).max_individuals,
    forall|k: int| 0 <= k < e0.len() ==> (#[trigger] self.diversity.entries@[k]).0 == e0[k].0,
    forall|k: int| __i0 <= k < e0.len() ==> (#[trigger] self.diversity.entries@[k]) == e0[k],
    forall|k: int| 0 <= k < __i0 ==> without(e0[k].1@, individual.number, (#[trigger] self.diversity.entries@[k]).1@),
decreases e0.len() - __i0
@loop 1
invariant_except_break
    forall|a: int| 0 <= a < __i1 ==> (#[trigger] diversity_vec@[a]).to_number != individual.number,
    diversity_vec@ == e0[__c0 as int].1@,
invariant
    __i1 <= __e1, __e1 == e0[__c0 as int].1@.len(),
ensures
    without(e0[__c0 as int].1@, individual.number, diversity_vec@),
decreases __e1 - __i1
@at end
proof {
    let e1 = self.diversity.entries@;
    assert(self.diversity.wf()) by { assert forall|i: int, j: int| 0 <= i < j < e1.len() implies (#[trigger] e1[i]).0 != (#[trigger] e1[j]).0 by { assert(e0[i].0 != e0[j].0); } }
    assert forall|x: u64| #[trigger] self.diversity.has(x) == m0.has(x) by {
        if self.diversity.has(x) { let i = self.diversity.idx(x); assert(e0[i].0 == x); }
        if m0.has(x) { let i = m0.idx(x); assert(e0[i].0 == x); assert(e1[i].0 == x); }
    }
    assert forall|x: u64| self.diversity.has(x) implies without(old(self).stored(x), individual.number, #[trigger] self.stored(x)) by {
        let i = self.diversity.idx(x);
        assert(e1[i].0 == x && e0[i].0 == x);
        self.diversity.lem_entry(i); m0.lem_entry(i);
        assert(m0.at(x) == e0[i].1);
        assert(m0.has(x));
        assert(old(self).diversity.has(x) && x != individual.number);
        assert(m0.at(x) == old(self).diversity.at(x));
    }
}
@endfn

@raw
pub open spec fn key_ge() -> spec_fn((R, usize), (R, usize)) -> bool { |a: (R, usize), b: (R, usize)| b.0@ <= a.0@ }
@fn src/solver/genetic/population.rs SubPopulation::update_fitness
@params ctx
@spec
requires
    conf_ok(ctx), old(self).p().len() >= 1, old(self).p().len() < 0x7fff_ffff, old(self).diversity.wf(),
    old(self).p().len() >= 2 ==> forall|i: int| 0 <= i < old(self).p().len() ==> old(self).diversity.has((#[trigger] old(self).p()[i]).number) && old(self).list(i).len() == old(self).p().len() - 1 && bounded_list(old(self).list(i)),
ensures
    only_fitness(old(self).p(), final(self).p()), final(self).diversity == old(self).diversity, final(self).focus_diversity == old(self).focus_diversity, final(self).max_individuals == old(self).max_individuals,
    final(self).fitness_ok(ctx),
@at start
let ghost p0 = self.p(); let ghost n = p0.len() as int;
@sort 0 (R, usize)
@loop 0
invariant
    *self == *old(self), __i0 <= n, __a0@.len() == __i0, num_closest == ctx.config.num_diversity_closest as int, n == p0.len(), p0 == old(self).p(), n < 0x7fff_ffff,
    forall|i: int| 0 <= i < __i0 ==> (#[trigger] __a0@[i]).1 == i && __a0@[i].0@ == old(self).avg_at(ctx, i),
decreases n - __i0
@at before call sort_by_spec
let ghost un = diversity_sorted@;
@at after call sort_by_spec
let ghost q = choose|q: Seq<int>| permuted_by(un, diversity_sorted@, q);
let ghost ds = diversity_sorted@;
let ghost rank = lem_perm_inverse(q, n);
proof { assert forall|k: int| 0 <= k < n implies (#[trigger] ds[k]).1 == q[k] && ds[k].0@ == old(self).avg_at(ctx, q[k]) by { assert(ds[k] == un[q[k]]); } }
@loop 1
invariant
    __i1 <= n, diversity_sorted@ == ds, ds.len() == n, is_inverse(q, rank), q.len() == n, n == p0.len(), n < 0x7fff_ffff, n >= 2,
    self.diversity == old(self).diversity, self.focus_diversity == old(self).focus_diversity, self.max_individuals == old(self).max_individuals,
    only_fitness(p0, self.p()),
    forall|k: int| 0 <= k < n ==> (#[trigger] ds[k]).1 == q[k],
    forall|k: int| 0 <= k < __i1 ==> self.p()[#[trigger] q[k]].fitness@ == biased(q[k], k, n, num_elites as int, self.focus_diversity),
    num_elites == ctx.config.num_elites as int,
    population_factor@ == (n as real) - 1real, elite_factor@ == 1real - (num_elites as int as real) / (n as real),
decreases n - __i1
@at loop 1 end
proof { assert(rank[q[__c1 as int]] == __c1); assert(q[__c1 as int] == index); }
@at end
proof {
    if n >= 2 {
        assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n && #[trigger] rank[i] < #[trigger] rank[j] implies self.avg_at(ctx, i) >= self.avg_at(ctx, j) by {
            assert(ds[rank[j]].0@ <= ds[rank[i]].0@);
            assert(self.list(i) == old(self).list(i) && self.list(j) == old(self).list(j));
        }
        assert(self.ranks(ctx, rank));
        assert forall|i: int| 0 <= i < n implies (#[trigger] self.p()[i]).fitness@ == biased(i, rank[i], n, ctx.config.num_elites as int, self.focus_diversity) by { assert(q[rank[i]] == i); }
        assert(self.has_fitness(ctx, rank, n));
    }
}
@endfn
@raw
pub open spec fn shift(x: int) -> spec_fn(int) -> int { |j: int| if j < x { j } else { j + 1 } }
pub open spec fn unshift(x: int) -> spec_fn(int) -> int { |j: int| if j < x { j } else { j - 1 } }
// lists towards all but w in p are lists in p without w
pub proof fn lem_lst_removed(d: Seq<Diversity>, p: Seq<Individual>, w: int, i: int, cnt: int)
    requires 0 <= w < p.len(), 0 <= i < p.len(), i != w, lst(d, p, i, no_index(w), cnt)
    ensures lst(d, p.remove(w), unshift(w)(i), all_index(), cnt)
{
    let p2 = p.remove(w); let i2 = unshift(w)(i);
    assert forall|j: int| #[trigger] moved(p, i, no_index(w), p2, i2, all_index(), j, unshift(w)) by { if part(p, i, no_index(w), j) { assert(p2[unshift(w)(j)] == p[j]); } }
    assert forall|j: int| #[trigger] moved(p2, i2, all_index(), p, i, no_index(w), j, shift(w)) by { if part(p2, i2, all_index(), j) { assert(p2[j] == p[shift(w)(j)]); } }
    lem_transport(d, p, i, no_index(w), p2, i2, all_index(), cnt, unshift(w), shift(w));
}
pub proof fn lem_lst_inserted(d: Seq<Diversity>, p: Seq<Individual>, x: int, a: Individual, i: int, cnt: int)
    requires 0 <= x <= p.len(), 0 <= i < p.len(), lst(d, p, i, all_index(), cnt)
    ensures lst(d, p.insert(x, a), shift(x)(i), no_index(x), cnt)
{
    let p2 = p.insert(x, a); let i2 = shift(x)(i);
    assert forall|j: int| #[trigger] moved(p, i, all_index(), p2, i2, no_index(x), j, shift(x)) by { if part(p, i, all_index(), j) { assert(p2[shift(x)(j)] == p[j]); } }
    assert forall|j: int| #[trigger] moved(p2, i2, no_index(x), p, i, all_index(), j, unshift(x)) by { if part(p2, i2, no_index(x), j) { assert(p2[j] == p[unshift(x)(j)]); } }
    lem_transport(d, p, i, all_index(), p2, i2, no_index(x), cnt, shift(x), unshift(x));
}
pub proof fn lem_lst_fitness(d: Seq<Diversity>, p: Seq<Individual>, p2: Seq<Individual>, i: int, cnt: int)
    requires only_fitness(p, p2), 0 <= i < p.len(), lst(d, p, i, all_index(), cnt)
    ensures lst(d, p2, i, all_index(), cnt)
{
    let id = |x: int| x;
    assert forall|j: int| #[trigger] moved(p, i, all_index(), p2, i, all_index(), j, id) by { if 0 <= j < p.len() { assert(same_ind(p[j], p2[j])); } }
    assert forall|j: int| #[trigger] moved(p2, i, all_index(), p, i, all_index(), j, id) by { if 0 <= j < p.len() { assert(same_ind(p[j], p2[j])); } }
    assert(same_ind(p[i], p2[i]));
    lem_transport(d, p, i, all_index(), p2, i, all_index(), cnt, id, id);
}
pub open spec fn sorted_by_cost(s: Seq<Individual>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).evaluation.penalized_cost@ <= (#[trigger] s[j]).evaluation.penalized_cost@ }
// removal of member w: everything else stays
pub open spec fn removed(a: &SubPopulation, b: &SubPopulation, w: int) -> bool { only_fitness(a.p().remove(w), b.p()) && b.focus_diversity == a.focus_diversity && b.max_individuals == a.max_individuals }
impl SubPopulation {
    pub proof fn lem_after_fitness(&self, b: &SubPopulation, ctx: &Context, bound: int)
        requires self.inv(ctx, bound), only_fitness(self.p(), b.p()), b.diversity == self.diversity
        ensures b.inv(ctx, bound)
    {
        let p = self.p(); let p2 = b.p();
        assert forall|i: int| 0 <= i < p2.len() implies ind_ok(ctx, #[trigger] p2[i]) && p2[i].number < bound by { assert(same_ind(p[i], p2[i])); assert(ind_ok(ctx, p[i])); }
        assert forall|i: int, j: int| 0 <= i < j < p2.len() implies (#[trigger] p2[i]).number != (#[trigger] p2[j]).number by { assert(same_ind(p[i], p2[i]) && same_ind(p[j], p2[j])); assert(p[i].number != p[j].number); }
        assert forall|i: int| 0 <= i < p2.len() implies #[trigger] b.list_ok(i, all_index(), p2.len() - 1) by { assert(same_ind(p[i], p2[i])); assert(self.list_ok(i, all_index(), p.len() - 1)); lem_lst_fitness(self.list(i), p, p2, i, p.len() - 1); }
        assert(b.keys_ok(p2)) by {
            assert forall|k: u64| #[trigger] b.diversity.has(k) implies exists|i: int| 0 <= i < p2.len() && (#[trigger] p2[i]).number == k by {
                let i = choose|i: int| 0 <= i < p.len() && (#[trigger] p[i]).number == k; assert(same_ind(p[i], p2[i])); assert(p2[i].number == k);
            }
        }
    }
    // what update_fitness needs
    pub proof fn lem_fitness_ready(&self, ctx: &Context, bound: int)
        requires self.inv(ctx, bound)
        ensures self.p().len() >= 2 ==> forall|i: int| 0 <= i < self.p().len() ==> self.diversity.has((#[trigger] self.p()[i]).number) && self.list(i).len() == self.p().len() - 1 && bounded_list(self.list(i))
    {
        if self.p().len() >= 2 {
            assert forall|i: int| 0 <= i < self.p().len() implies self.diversity.has((#[trigger] self.p()[i]).number) && self.list(i).len() == self.p().len() - 1 && bounded_list(self.list(i)) by {
                assert(self.list_ok(i, all_index(), self.p().len() - 1));
                lem_list_bounds(ctx, self.list(i), self.p(), i, all_index(), self.p().len() - 1);
            }
        }
    }
}
@fn src/solver/genetic/population.rs SubPopulation::remove_individual
@params ctx index
@addparams Ghost(bound): Ghost<int>
@spec
requires conf_ok(ctx), old(self).inv(ctx, bound), old(self).p().len() >= 2, index < old(self).p().len(),
ensures
    removed(old(self), final(self), index as int), final(self).inv(ctx, bound), final(self).fitness_ok(ctx),
    final(self).p().len() == old(self).p().len() - 1,
@at start
let ghost p0 = self.p(); let ghost w = index as int; let ghost p1 = p0.remove(w); let ghost s0 = *self;
proof { assert forall|i: int| 0 <= i < p0.len() implies by_distance(#[trigger] self.list(i)) by { assert(self.list_ok(i, all_index(), p0.len() - 1)); lem_sorted(self.list(i), p0, i, all_index(), p0.len() - 1); } }
@at after call remove_diversity
let ghost s1 = *self;
proof {
    assert(self.p() == p1);
    assert forall|i: int| 0 <= i < p1.len() implies #[trigger] self.list_ok(i, all_index(), p1.len() - 1) by {
        let i0 = shift(w)(i);
        assert(p1[i] == p0[i0]);
        assert(p0[i0].number != p0[w].number);
        assert(s0.list_ok(i0, all_index(), p0.len() - 1));
        let d = s0.list(i0);
        assert(lists(d, p0[w].number)) by { reveal(lst); }
        assert(s0.diversity.has(p0[i0].number));
        assert(self.diversity.has(p1[i].number));
        assert(without(d, p0[w].number, self.stored(p1[i].number)));
        let a = choose|a: int| 0 <= a < d.len() && (#[trigger] d[a]).to_number == p0[w].number && self.stored(p1[i].number) == d.remove(a);
        lem_list_remove(d, p0, i0, all_index(), no_index(w), w, p0.len() - 1, a);
        lem_lst_removed(d.remove(a), p0, w, i0, p0.len() - 2);
        assert(unshift(w)(i0) == i);
    }
    assert(self.keys_ok(p1)) by {
        assert forall|k: u64| #[trigger] self.diversity.has(k) implies exists|i: int| 0 <= i < p1.len() && (#[trigger] p1[i]).number == k by {
            assert(s0.diversity.has(k));
            let j = choose|j: int| 0 <= j < p0.len() && (#[trigger] p0[j]).number == k;
            assert(p1[unshift(w)(j)] == p0[j]);
        }
    }
    assert forall|i: int| 0 <= i < p1.len() implies ind_ok(ctx, #[trigger] p1[i]) && p1[i].number < bound by { assert(p1[i] == p0[shift(w)(i)]); }
    assert(distinct_numbers(p1)) by { assert forall|i: int, j: int| 0 <= i < j < p1.len() implies (#[trigger] p1[i]).number != (#[trigger] p1[j]).number by { assert(p1[i] == p0[shift(w)(i)]); assert(p1[j] == p0[shift(w)(j)]); } }
    self.lem_fitness_ready(ctx, bound);
}
@at end
proof { s1.lem_after_fitness(self, ctx, bound); }
@endfn
@raw
impl SubPopulation {
    // a duplicate if there is one (the best individual is never removed), of these the largest biased fitness
    pub open spec fn worst(&self, w: int) -> bool {
        &&& 1 <= w < self.p().len()
        &&& self.clone_at(w) || forall|i: int| 1 <= i < self.p().len() ==> !#[trigger] self.clone_at(i)
        &&& forall|i: int| 1 <= i < self.p().len() && #[trigger] self.clone_at(i) == self.clone_at(w) ==> self.p()[i].fitness@ <= self.p()[w].fitness@
    }
    pub open spec fn fitness_nonneg(&self) -> bool { forall|i: int| 0 <= i < self.p().len() ==> (#[trigger] self.p()[i]).fitness@ >= 0real }
    pub proof fn lem_nonneg(&self, ctx: &Context)
        requires self.fitness_ok(ctx)
        ensures self.fitness_nonneg()
    {
        let n = self.p().len() as int;
        if n >= 2 {
            let rank = choose|rank: Seq<int>| #[trigger] self.ranks(ctx, rank) && self.has_fitness(ctx, rank, n);
            assert forall|i: int| 0 <= i < n implies (#[trigger] self.p()[i]).fitness@ >= 0real by {
                assert(0 <= rank[i] < n);
                lem_biased(i, rank[i], n, ctx.config.num_elites as int, self.focus_diversity);
            }
        }
    }
}
pub proof fn lem_biased(i: int, rank: int, n: int, e: int, focus: bool)
    requires 0 <= i < n, 0 <= rank < n, n >= 2, e >= 0
    ensures biased(i, rank, n, e, focus) >= 0real
{
    let m = (n as real) - 1real; let cr = (i as real) / m; let dr = (rank as real) / m; let q = (e as real) / (n as real); let ef = 1real - q;
    assert(cr >= 0real) by (nonlinear_arith) requires i >= 0, m > 0real, cr == (i as real) / m;
    assert(dr >= 0real) by (nonlinear_arith) requires rank >= 0, m > 0real, dr == (rank as real) / m;
    if n > e {
        let nr = n as real; let er = e as real;
        assert(q <= 1real) by (nonlinear_arith) requires nr > er, er >= 0real, nr > 0real, q == er / nr;
        assert(ef * dr >= 0real) by (nonlinear_arith) requires ef >= 0real, dr >= 0real;
        assert(cr * ef >= 0real) by (nonlinear_arith) requires ef >= 0real, cr >= 0real;
    }
}
@fn src/solver/genetic/population.rs SubPopulation::natural_selection
@params ctx
@addparams Ghost(bound): Ghost<int>
@passargs remove_individual Ghost(bound)
@spec
requires conf_ok(ctx), old(self).inv(ctx, bound), old(self).p().len() >= 2, old(self).fitness_nonneg(),
ensures
    exists|w: int| #[trigger] old(self).worst(w) && removed(old(self), final(self), w), final(self).inv(ctx, bound), final(self).fitness_ok(ctx),
    final(self).p().len() == old(self).p().len() - 1,
@at start
proof { self.lem_fitness_ready(ctx, bound); }
@loop 0
invariant
    *self == *old(self), 1 <= __i0 <= self.p().len(), self.p().len() >= 2, self.fitness_nonneg(), self.p().len() < 0x7fff_ffff, self.diversity.wf(),
    forall|i: int| 0 <= i < self.p().len() ==> self.diversity.has((#[trigger] self.p()[i]).number) && self.list(i).len() == self.p().len() - 1,
    1 <= worst_index < self.p().len(),
    __i0 == 1 ==> !worst_is_clone && worst_fitness@ < 0real,
    __i0 > 1 ==> worst_index < __i0 && worst_is_clone == self.clone_at(worst_index as int) && worst_fitness == self.p()[worst_index as int].fitness
        && (worst_is_clone || forall|i: int| 1 <= i < __i0 ==> !#[trigger] self.clone_at(i))
        && (forall|i: int| 1 <= i < __i0 && #[trigger] self.clone_at(i) == worst_is_clone ==> self.p()[i].fitness@ <= worst_fitness@),
decreases self.p().len() - __i0
@at after loop 0
proof { assert(self.worst(worst_index as int)); }
@endfn
@raw
pub open spec fn member_of(s: Seq<Individual>, x: Individual) -> bool { exists|j: int| 0 <= j < s.len() && same_ind(#[trigger] s[j], x) }
pub open spec fn all_from(p: Seq<Individual>, s: Seq<Individual>) -> bool { forall|i: int| 0 <= i < p.len() ==> member_of(s, #[trigger] p[i]) }
pub open spec fn cost(a: Individual) -> real { a.evaluation.penalized_cost@ }
// no member's cost is within the tolerance of x without being equal
pub open spec fn separated(s: Seq<Individual>, x: Individual) -> bool { forall|j: int| 0 <= j < s.len() ==> rabs(cost(#[trigger] s[j]) - cost(x)) < EPSILON_spec() ==> cost(s[j]) == cost(x) }
pub open spec fn best_not_worse(a: Seq<Individual>, b: Seq<Individual>) -> bool { b.len() > 0 && (a.len() > 0 ==> cost(b[0]) <= cost(a[0])) }
pub proof fn lem_ready_ind(s: Seq<Individual>, x: Individual, a: int, b: int)
    requires sorted_by_cost(s), 0 <= a <= b <= s.len(),
        forall|i: int| 0 <= i < a ==> (#[trigger] s[i]).cmp_s(&x) == Ordering::Less,
        forall|i: int| a <= i < b ==> (#[trigger] s[i]).cmp_s(&x) == Ordering::Equal,
    ensures search_ready(s, x)
    decreases s.len() - a, s.len() - b
{
    if b < s.len() && s[b].cmp_s(&x) == Ordering::Equal { lem_ready_ind(s, x, a, b + 1); }
    else if a == b && a < s.len() && s[a].cmp_s(&x) == Ordering::Less { lem_ready_ind(s, x, a + 1, a + 1); }
    else {
        assert forall|i: int| b <= i < s.len() implies (#[trigger] s[i]).cmp_s(&x) == Ordering::Greater by { if i > b { assert(cost(s[b]) <= cost(s[i])); } if a < b { assert(cost(s[a]) <= cost(s[b])); } }
        assert(partitioned(s, x, a, b));
    }
}
pub open spec fn good_index(s: Seq<Individual>, x: Individual, k: int) -> bool {
    0 <= k <= s.len() && (sorted_by_cost(s) && separated(s, x) ==> sorted_by_cost(s.insert(k, x)))
}
pub proof fn lem_removed_from(a: &SubPopulation, b: &SubPopulation, w: int, s: Seq<Individual>)
    requires removed(a, b, w), 0 <= w < a.p().len(), all_from(a.p(), s)
    ensures all_from(b.p(), s), sorted_by_cost(a.p()) ==> sorted_by_cost(b.p()), w >= 1 ==> cost(b.p()[0]) == cost(a.p()[0])
{
    let r = a.p().remove(w);
    assert forall|i: int| 0 <= i < b.p().len() implies member_of(s, #[trigger] b.p()[i]) by {
        assert(same_ind(r[i], b.p()[i])); assert(r[i] == a.p()[shift(w)(i)]);
        assert(member_of(s, a.p()[shift(w)(i)]));
        let j = choose|j: int| 0 <= j < s.len() && same_ind(#[trigger] s[j], a.p()[shift(w)(i)]);
        assert(same_ind(s[j], b.p()[i]));
    }
    if sorted_by_cost(a.p()) {
        assert forall|i: int, j: int| 0 <= i < j < b.p().len() implies (#[trigger] b.p()[i]).evaluation.penalized_cost@ <= (#[trigger] b.p()[j]).evaluation.penalized_cost@ by {
            assert(same_ind(r[i], b.p()[i]) && same_ind(r[j], b.p()[j]));
            assert(r[i] == a.p()[shift(w)(i)] && r[j] == a.p()[shift(w)(j)]);
        }
    }
    if w >= 1 { assert(same_ind(r[0], b.p()[0])); assert(r[0] == a.p()[0]); }
}
pub proof fn lem_good_index(p0: Seq<Individual>, x: Individual, k: int)
    requires 0 <= k <= p0.len(),
        sorted_by_cost(p0) && separated(p0, x) ==> (forall|i: int| 0 <= i < k ==> cost(#[trigger] p0[i]) <= cost(x)) && (forall|i: int| k <= i < p0.len() ==> cost(#[trigger] p0[i]) >= cost(x)),
    ensures good_index(p0, x, k), sorted_by_cost(p0) && separated(p0, x) && k == 0 && p0.len() > 0 ==> cost(x) <= cost(p0[0])
{
    if sorted_by_cost(p0) && separated(p0, x) {
        let p1 = p0.insert(k, x);
        assert forall|i: int, j: int| 0 <= i < j < p1.len() implies (#[trigger] p1[i]).evaluation.penalized_cost@ <= (#[trigger] p1[j]).evaluation.penalized_cost@ by {
            if i < k { assert(p1[i] == p0[i]); } else if i > k { assert(p1[i] == p0[i - 1]); }
            if j < k { assert(p1[j] == p0[j]); } else if j > k { assert(p1[j] == p0[j - 1]); }
        }
    }
}
pub open spec fn found(p0: Seq<Individual>, x: Individual, r: Result<usize, usize>) -> bool {
    match r { Ok(i) => i < p0.len() && p0[i as int].cmp_s(&x) == Ordering::Equal, Err(i) => partitioned(p0, x, i as int, i as int) }
}
pub proof fn lem_found(p0: Seq<Individual>, x: Individual, k: int)
    requires 0 <= k <= p0.len(), sorted_by_cost(p0) ==> (k < p0.len() && p0[k].cmp_s(&x) == Ordering::Equal) || partitioned(p0, x, k, k)
    ensures good_index(p0, x, k), sorted_by_cost(p0) && separated(p0, x) && k == 0 && p0.len() > 0 ==> cost(x) <= cost(p0[0])
{
    if sorted_by_cost(p0) && separated(p0, x) {
        if partitioned(p0, x, k, k) { } else { assert(cost(p0[k]) == cost(x)); assert forall|i: int| 0 <= i < k implies cost(#[trigger] p0[i]) <= cost(x) by { assert(p0[i].evaluation.penalized_cost@ <= p0[k].evaluation.penalized_cost@); } assert forall|i: int| k <= i < p0.len() implies cost(#[trigger] p0[i]) >= cost(x) by { if i > k { assert(p0[k].evaluation.penalized_cost@ <= p0[i].evaluation.penalized_cost@); } } }
    }
    lem_good_index(p0, x, k);
}
pub open spec fn inserted_ready(s1: &SubPopulation, ctx: &Context, k: int, bound: int, all: Seq<Individual>) -> bool {
    &&& distinct_numbers(s1.p()) && sized(s1.p(), ctx.n()) && newest(s1.p(), k) && s1.keys_ok(s1.p()) && !s1.diversity.has(s1.p()[k].number)
    &&& s1.members_ok(ctx, bound) && all_from(s1.p(), all)
    &&& forall|i: int| 0 <= i < s1.p().len() && i != k ==> #[trigger] s1.list_ok(i, no_index(k), s1.p().len() - 2)
}
pub proof fn lem_inserted(s0: &SubPopulation, s1: &SubPopulation, ctx: &Context, x: Individual, k: int)
    requires s0.inv(ctx, x.number as int), ind_ok(ctx, x), 0 <= k <= s0.p().len(), s1.p() == s0.p().insert(k, x), s1.diversity == s0.diversity
    ensures inserted_ready(s1, ctx, k, x.number as int + 1, s0.p().push(x)), s1.p()[k] == x, k > 0 ==> s1.p()[0] == s0.p()[0]
{
    let p0 = s0.p(); let p1 = s1.p(); let all = p0.push(x); let bound = x.number as int + 1;
    assert forall|i: int| 0 <= i < p1.len() implies ind_ok(ctx, #[trigger] p1[i]) && p1[i].number < bound && member_of(all, p1[i]) && (i != k ==> p1[i].number < x.number) by {
        if i < k { assert(p1[i] == p0[i]); assert(all[i] == p0[i]); } else if i > k { assert(p1[i] == p0[i - 1]); assert(all[i - 1] == p0[i - 1]); } else { assert(all[p0.len() as int] == x); }
    }
    assert forall|i: int, j: int| 0 <= i < j < p1.len() implies (#[trigger] p1[i]).number != (#[trigger] p1[j]).number by { 
        if i < k { assert(p1[i] == p0[i]); } else if i > k { assert(p1[i] == p0[i - 1]); }
        if j < k { assert(p1[j] == p0[j]); } else if j > k { assert(p1[j] == p0[j - 1]); }
    }
    assert(p1[k] == x);
    assert(newest(p1, k));
    assert(sized(p1, ctx.n()));
    if s0.diversity.has(x.number) { let j = choose|j: int| 0 <= j < p0.len() && (#[trigger] p0[j]).number == x.number; assert(ind_ok(ctx, p0[j])); assert(false); }
    assert forall|i: int| 0 <= i < p1.len() && i != k implies #[trigger] s1.list_ok(i, no_index(k), p1.len() - 2) by {
        let i0 = unshift(k)(i);
        assert(p1[i] == p0[i0]);
        assert(s0.list_ok(i0, all_index(), p0.len() - 1));
        lem_lst_inserted(s0.list(i0), p0, k, x, i0, p0.len() - 1);
        assert(shift(k)(i0) == i);
    }
    assert(s1.keys_ok(p1)) by {
        assert forall|y: u64| #[trigger] s1.diversity.has(y) implies exists|i: int| 0 <= i < p1.len() && (#[trigger] p1[i]).number == y by {
            assert(s0.diversity.has(y));
            let j = choose|j: int| 0 <= j < p0.len() && (#[trigger] p0[j]).number == y; assert(p1[shift(k)(j)] == p0[j]);
        }
    }
}
pub proof fn lem_after_insert(p0: Seq<Individual>, x: Individual, k: int, p1: Seq<Individual>, p2: Seq<Individual>, all: Seq<Individual>)
    requires good_index(p0, x, k), p1 == p0.insert(k, x), only_fitness(p1, p2), all_from(p1, all), sorted_by_cost(p0) && separated(p0, x) && k == 0 && p0.len() > 0 ==> cost(x) <= cost(p0[0])
    ensures all_from(p2, all), sorted_by_cost(p0) && separated(p0, x) ==> sorted_by_cost(p2) && best_not_worse(p0, p2)
{
    assert forall|i: int| 0 <= i < p2.len() implies member_of(all, #[trigger] p2[i]) by { assert(same_ind(p1[i], p2[i])); assert(member_of(all, p1[i])); let j = choose|j: int| 0 <= j < all.len() && same_ind(#[trigger] all[j], p1[i]); assert(same_ind(all[j], p2[i])); }
    if sorted_by_cost(p0) && separated(p0, x) {
        assert forall|i: int, j: int| 0 <= i < j < p2.len() implies (#[trigger] p2[i]).evaluation.penalized_cost@ <= (#[trigger] p2[j]).evaluation.penalized_cost@ by { assert(same_ind(p1[i], p2[i]) && same_ind(p1[j], p2[j])); } 
        assert(same_ind(p1[0], p2[0])); 
        if k == 0 { assert(p1[0] == x); } else { assert(p1[0] == p0[0]); }
    }
}
pub proof fn lem_after_clone(s2: &SubPopulation, s3: &SubPopulation, k: int, p0: Seq<Individual>, x: Individual, all: Seq<Individual>)
    requires removed(s2, s3, k), s2.p() == p0.insert(k, x), 0 <= k <= p0.len(), p0.len() > 0, all_from(s2.p(), all)
    ensures all_from(s3.p(), all), sorted_by_cost(p0) ==> sorted_by_cost(s3.p()), best_not_worse(p0, s3.p())
{
    lem_removed_from(s2, s3, k, all);
    assert(p0.insert(k, x).remove(k) =~= p0);
    assert(same_ind(p0[0], s3.p()[0]));
    if sorted_by_cost(p0) { assert forall|i: int, j: int| 0 <= i < j < s3.p().len() implies (#[trigger] s3.p()[i]).evaluation.penalized_cost@ <= (#[trigger] s3.p()[j]).evaluation.penalized_cost@ by { assert(same_ind(p0[i], s3.p()[i]) && same_ind(p0[j], s3.p()[j])); } }
}
pub proof fn lem_natural(sp: &SubPopulation, s: &SubPopulation, p0: Seq<Individual>, x: Individual, all: Seq<Individual>)
    requires exists|w: int| #[trigger] sp.worst(w) && removed(sp, s, w), all_from(sp.p(), all), sorted_by_cost(p0) && separated(p0, x) ==> sorted_by_cost(sp.p()) && best_not_worse(p0, sp.p())
    ensures all_from(s.p(), all), sorted_by_cost(p0) && separated(p0, x) ==> sorted_by_cost(s.p()) && best_not_worse(p0, s.p())
{ let w = choose|w: int| #[trigger] sp.worst(w) && removed(sp, s, w); lem_removed_from(sp, s, w, all); }
@fn src/solver/genetic/population.rs SubPopulation::add_individual
@params ctx individual
@passargs remove_individual Ghost(bound)
@passargs natural_selection Ghost(bound)
@spec
requires
    conf_ok(ctx), old(self).inv(ctx, individual.number as int), ind_ok(ctx, individual), old(self).p().len() + 1 < 0x7fff_ffff,
    ctx.config.min_population_size < old(self).max_individuals,
ensures
    final(self).inv(ctx, individual.number as int + 1), final(self).fitness_ok(ctx),
    1 <= final(self).p().len() < final(self).max_individuals, final(self).max_individuals == old(self).max_individuals, final(self).focus_diversity == old(self).focus_diversity,
    all_from(final(self).p(), old(self).p().push(individual)),
    sorted_by_cost(old(self).p()) && separated(old(self).p(), individual) ==> sorted_by_cost(final(self).p()) && best_not_worse(old(self).p(), final(self).p()),
@at start
let ghost x = individual; let ghost p0 = self.p(); let ghost bound = individual.number as int + 1; let ghost s0 = *self; let ghost all = p0.push(x);
proof { if sorted_by_cost(p0) { lem_ready_ind(p0, x, 0, 0); } }
@at before call insert
let ghost k = insert_index as int;
proof { lem_found(p0, x, k); }
@at after call insert
proof { assert(self.p() == p0.insert(k, x)); lem_inserted(&s0, self, ctx, x, k); }
@at after call update_diversity
let ghost s2 = *self;
proof { self.lem_fitness_ready(ctx, bound); }
@at after call remove_individual
proof { lem_after_clone(&s2, self, k, p0, x, all); }
@at after call update_fitness
proof { s2.lem_after_fitness(self, ctx, bound); lem_after_insert(p0, x, k, s2.p(), self.p(), all); }
@loop 0
invariant
    conf_ok(ctx), self.inv(ctx, bound), self.fitness_ok(ctx), self.p().len() >= ctx.config.min_population_size as int, ctx.config.min_population_size >= 1,
    self.max_individuals == s0.max_individuals, self.focus_diversity == s0.focus_diversity, ctx.config.min_population_size < s0.max_individuals,
    all_from(self.p(), all), p0 == s0.p(),
    sorted_by_cost(p0) && separated(p0, x) ==> sorted_by_cost(self.p()) && best_not_worse(p0, self.p()),
decreases self.p().len()
@at before call natural_selection
let ghost sp = *self;
proof { self.lem_nonneg(ctx); }
@at after call natural_selection
proof { lem_natural(&sp, self, p0, x, all); }
@endfn

@fn src/solver/genetic/population.rs SubPopulation::new
@params ctx
@ret r
@spec
requires ctx.config.min_population_size as int + ctx.config.population_lambda as int <= u64::MAX,
ensures
    r.p().len() == 0, r.diversity.wf(), !r.focus_diversity, r.max_individuals as int == ctx.config.min_population_size as int + ctx.config.population_lambda as int,
    ctx.n() < 0x7fff_ffff ==> r.inv(ctx, 0), forall|k: u64| !#[trigger] r.diversity.has(k),
@endfn
@raw
pub open spec fn all_feas(p: Seq<Individual>, b: bool) -> bool { forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]).evaluation.feasible == b }
pub proof fn lem_feas(p: Seq<Individual>, all: Seq<Individual>, b: bool)
    requires all_from(p, all), all_feas(all, b)
    ensures all_feas(p, b)
{
    assert forall|i: int| 0 <= i < p.len() implies (#[trigger] p[i]).evaluation.feasible == b by { assert(member_of(all, p[i])); let j = choose|j: int| 0 <= j < all.len() && same_ind(#[trigger] all[j], p[i]); assert(all[j].evaluation.feasible == b); }
}
pub open spec fn best_kept(a: &SubPopulation, b: &SubPopulation, x: Individual) -> bool {
    sorted_by_cost(a.p()) && separated(a.p(), x) ==> sorted_by_cost(b.p()) && best_not_worse(a.p(), b.p())
}
impl SubPopulation {
    pub open spec fn small(&self) -> bool { self.p().len() < self.max_individuals }
    pub open spec fn takes(&self, ctx: &Context) -> bool { ctx.config.min_population_size < self.max_individuals && self.max_individuals < 0x7fff_ffff }
}
impl Population {
    // feasible and infeasible members are kept apart, both subpopulations consistent, numbers are given out once
    pub open spec fn inv(&self, ctx: &Context) -> bool {
        &&& self.feasible.inv(ctx, self.total_individuals_count as int) && self.infeasible.inv(ctx, self.total_individuals_count as int)
        &&& all_feas(self.feasible.p(), true) && all_feas(self.infeasible.p(), false)
        &&& self.feasible.takes(ctx) && self.infeasible.takes(ctx) && self.feasible.small() && self.infeasible.small()
    }
    pub open spec fn sub(&self, b: bool) -> &SubPopulation { if b { &self.feasible } else { &self.infeasible } }
    pub open spec fn member(&self, k: int) -> Individual { if k < self.feasible.p().len() { self.feasible.p()[k] } else { self.infeasible.p()[k - self.feasible.p().len()] } }
    pub open spec fn count(&self) -> int { self.feasible.p().len() as int + self.infeasible.p().len() as int }
}
pub proof fn lem_weaken(s: &SubPopulation, ctx: &Context, b: int, b2: int)
    requires s.inv(ctx, b), b <= b2
    ensures s.inv(ctx, b2)
{ assert forall|i: int| 0 <= i < s.p().len() implies ind_ok(ctx, #[trigger] s.p()[i]) && s.p()[i].number < b2 by {} }
@fn src/solver/genetic/population.rs Population::new
@params ctx
@ret r
@spec
requires ctx.config.min_population_size + ctx.config.population_lambda < 0x7fff_ffff, ctx.config.population_lambda >= 1, ctx.n() < 0x7fff_ffff,
ensures
    r.inv(ctx), r.count() == 0, r.total_individuals_count == 0,
    r.feasible_history@.len() == 100,
@endfn
@fn src/solver/genetic/population.rs Population::size
@ret r
@spec
requires self.count() <= usize::MAX,
ensures r == self.count(),
@endfn
@fn src/solver/genetic/population.rs Population::add_individual
@params ctx individual update_feasibility_history
@spec
requires
    conf_ok(ctx), old(self).inv(ctx), individual.genotype@.len() + 1 == ctx.n(), eval_covers(individual.evaluation, ctx.n()),
    old(self).total_individuals_count < u64::MAX, update_feasibility_history ==> old(self).feasible_history@.len() > 0,
ensures
    final(self).inv(ctx), final(self).total_individuals_count == old(self).total_individuals_count + 1,
    // the other subpopulation is untouched, the individual enters the one of its feasibility
    final(self).sub(!individual.evaluation.feasible) == old(self).sub(!individual.evaluation.feasible),
    all_from(final(self).sub(individual.evaluation.feasible).p(), old(self).sub(individual.evaluation.feasible).p().push(Individual { number: old(self).total_individuals_count, ..individual })),
    best_kept(old(self).sub(individual.evaluation.feasible), final(self).sub(individual.evaluation.feasible), individual),
    final(self).sub(individual.evaluation.feasible).fitness_ok(ctx),
    // the feasibility history is a sliding window
    final(self).feasible_history@ == (if update_feasibility_history { old(self).feasible_history@.push(individual.evaluation.feasible).remove(0) } else { old(self).feasible_history@ }),
@at start
let ghost x0 = individual; let ghost s0 = *self; let ghost f = individual.evaluation.feasible;
@at before call add_individual
let ghost x1 = individual; let ghost num = self.total_individuals_count as int;
@at end
proof {
    let n = s0.total_individuals_count as int; let x1 = Individual { number: s0.total_individuals_count, ..x0 };
    lem_weaken(self.sub(!f), ctx, n, n + 1);
    let all = s0.sub(f).p().push(x1);
    assert forall|i: int| 0 <= i < all.len() implies (#[trigger] all[i]).evaluation.feasible == f by { if i < s0.sub(f).p().len() { assert(all[i] == s0.sub(f).p()[i]); } }
    lem_feas(self.sub(f).p(), all, f);
    assert(separated(s0.sub(f).p(), x0) ==> separated(s0.sub(f).p(), x1));
}
@endfn
@raw
// the individuals drawn for a tournament and its winner
pub open spec fn draws_ok(p: &Population, draws: Seq<usize>, k: int) -> bool { draws.len() == k && forall|j: int| 0 <= j < draws.len() ==> (#[trigger] draws[j]) < p.count() && drawn(0, p.count(), draws[j] as int) }
pub open spec fn wins(p: &Population, draws: Seq<usize>, k: int, w: Individual) -> bool {
    (exists|j: int| 0 <= j < k && p.member(#[trigger] draws[j] as int) == w) && forall|j: int| 0 <= j < k ==> w.fitness@ <= p.member(#[trigger] draws[j] as int).fitness@
}
@fn src/solver/genetic/population.rs Population::tournament
@params ctx num_contestants
@addparams draws: &mut Ghost<Seq<usize>>
@ret r
@spec
requires 1 <= self.count() <= usize::MAX, num_contestants >= 1,
ensures draws_ok(self, final(draws)@, num_contestants as int), wins(self, final(draws)@, num_contestants as int, *r),
@loop 0
invariant
    1 <= self.count() <= usize::MAX, lower == 0, __e0 == num_contestants, __i0 <= num_contestants, __s0 == 0, draws_ok(self, __a0@, __i0 as int),
decreases num_contestants - __i0
@at before loop 1
proof { *draws = Ghost(indicies@); }
@loop 1
invariant
    1 <= self.count() <= usize::MAX, draws_ok(self, draws@, num_contestants as int), indicies@ == draws@, __i1 <= num_contestants,
    winner is None == (__i1 == 0), winner is Some ==> wins(self, draws@, __i1 as int, *winner->Some_0),
decreases num_contestants - __i1
@endfn
@fn src/solver/genetic/population.rs Population::get_parent
@params ctx
@addparams draws: &mut Ghost<Seq<usize>>
@passargs tournament draws
@ret r
@spec
requires 1 <= self.count() <= usize::MAX, ctx.config.tournament_size >= 1,
ensures draws_ok(self, final(draws)@, ctx.config.tournament_size as int), wins(self, final(draws)@, ctx.config.tournament_size as int, *r),
@endfn
