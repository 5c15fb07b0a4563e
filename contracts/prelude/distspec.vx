@const src/models/matrix.rs CORRELATION_LIMIT
@struct src/models/matrix.rs DistanceMatrixBuilder
@struct src/models/matrix.rs DistanceMatrix
@struct src/models/matrix.rs CorrelationMatrix
@struct src/models/matrix.rs MatrixProvider
@raw
pub open spec fn euclid(a: Coordinate, b: Coordinate) -> real { sqrt_spec((b.lng@ - a.lng@) * (b.lng@ - a.lng@) + (b.lat@ - a.lat@) * (b.lat@ - a.lat@)) }
pub open spec fn rd(rounded: bool, x: real) -> real { if rounded { round_spec(x) as real } else { x } }
pub axiom fn ax_sqrt_zero() ensures sqrt_spec(0real) == 0real;
pub proof fn lem_euclid_sym(a: Coordinate, b: Coordinate) ensures euclid(a, b) == euclid(b, a) {
    let (x, y) = (b.lng@ - a.lng@, b.lat@ - a.lat@);
    assert(x * x == (-x) * (-x)) by (nonlinear_arith);
    assert(y * y == (-y) * (-y)) by (nonlinear_arith);
    assert(a.lng@ - b.lng@ == -x && a.lat@ - b.lat@ == -y);
}
pub proof fn lem_euclid_self(a: Coordinate) ensures euclid(a, a) == 0real, rd(true, 0real) == 0real {
    assert(a.lng@ - a.lng@ == 0real && a.lat@ - a.lat@ == 0real);
    assert(0real * 0real + 0real * 0real == 0real) by (nonlinear_arith);
    ax_sqrt_zero();
    assert(round_spec(0real) == 0) by { assert((0real + 0.5real).floor() == 0); }
}
pub const WIDEST: usize = 0xff_ffff;
impl DistanceMatrix {
    pub open spec fn n(&self) -> int { self.locations@.len() as int }
    // what the unchecked accesses rely on
    pub open spec fn ok(&self) -> bool { self.storage.ok() && self.n() <= WIDEST && (self.precomputed ==> self.storage.rows == self.n() && self.storage.cols == self.n()) }
    pub open spec fn d(&self, i: int, j: int) -> real {
        if self.precomputed { self.storage.table()[i][j]@ } else { rd(self.rounded, euclid(self.locations@[i], self.locations@[j])) }
    }
    pub open spec fn symmetric(&self) -> bool {
        (forall|i: int, j: int| 0 <= i < self.n() && 0 <= j < self.n() ==> #[trigger] self.d(i, j) == self.d(j, i)) && (forall|i: int| 0 <= i < self.n() ==> #[trigger] self.d(i, i) == 0real)
    }
    // distances of coordinates, the same for stored and for computed distances
    pub open spec fn geometric(&self) -> bool {
        forall|i: int, j: int| 0 <= i < self.n() && 0 <= j < self.n() ==> #[trigger] self.d(i, j) == rd(self.rounded, euclid(self.locations@[i], self.locations@[j]))
    }
}
// the largest distance between two nodes, up to the comparison tolerance
pub open spec fn largest(dm: &DistanceMatrix, m: Option<R>) -> bool {
    &&& dm.n() >= 2 ==> m is Some
    &&& m is Some ==> exists|i: int, j: int| 0 <= i < dm.n() && 0 <= j < dm.n() && #[trigger] dm.d(i, j) == m.unwrap()@
    &&& m is Some ==> forall|i: int, j: int| 0 <= i < dm.n() && 0 <= j < dm.n() && i != j ==> #[trigger] dm.d(i, j) <= m.unwrap()@ + EPSILON_spec()
}
// rows 1.. of a lower triangular matrix without the diagonal
pub open spec fn triangular(input: Seq<Vec<R>>, n: int) -> bool { input.len() == n - 1 && forall|i: int| 0 <= i < input.len() ==> (#[trigger] input[i])@.len() == i + 1 }
pub proof fn lem_row_step(row: int, col: int, k: int, n: int)
    requires 0 <= row, 0 <= col < n
    ensures (row * n + col) / n == row, (row * n + col) % n == col
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(row * n + col, n, row, col);
}
// the filtered list of all customers other than i: its k-th member
pub open spec fn other(i: int, k: int) -> int { if i > 0 && k + 1 >= i { k + 2 } else { k + 1 } }
pub open spec fn others(i: int, upto: int) -> int { if upto <= 0 { 0 } else if 0 < i < upto { upto - 2 } else { upto - 1 } }
pub open spec fn rank_of(i: int, j: int) -> int { if i > 0 && j > i { j - 2 } else { j - 1 } }
// C17: the neighbour list of node i
pub open spec fn nearest(dm: &DistanceMatrix, i: int, l: Seq<usize>) -> bool {
    &&& l.len() == (if dm.n() - 2 < 200 { dm.n() - 2 } else { 200 })
    &&& forall|k: int| 0 <= k < l.len() ==> 0 < #[trigger] l[k] < dm.n() && l[k] != i
    &&& forall|k: int, m: int| 0 <= k < m < l.len() ==> #[trigger] l[k] != #[trigger] l[m]
    &&& forall|k: int, m: int| 0 <= k < m < l.len() ==> dm.d(i, #[trigger] l[k] as int) <= dm.d(i, #[trigger] l[m] as int)
    &&& forall|j: int, k: int| 0 < j < dm.n() && j != i && !l.contains(j as usize) && 0 <= k < l.len() ==> dm.d(i, #[trigger] l[k] as int) <= #[trigger] dm.d(i, j)
}
// the cell of a flat index
pub proof fn lem_cell_of<T: Copy>(m: &Matrix<T>, x: int)
    requires m.ok(), 0 <= x < m.ptr@.len()
    ensures m.cols > 0, 0 <= x / (m.cols as int) < m.rows, 0 <= x % (m.cols as int) < m.cols, m.table()[x / (m.cols as int)][x % (m.cols as int)] == m.ptr@[x]
{
    let c = m.cols as int;
    if c == 0 { assert(m.rows * c == 0) by (nonlinear_arith) requires c == 0; }
    let (q, r) = (x / c, x % c);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, c);
    vstd::arithmetic::div_mod::lemma_mod_bound(x, c);
    assert(c * q == q * c) by (nonlinear_arith);
    assert(q >= 0) by (nonlinear_arith) requires q * c + r >= 0, r < c, c > 0;
    assert(q < m.rows) by (nonlinear_arith) requires q * c + r < m.rows * c, r >= 0, c > 0;
    lem_table(m);
    assert(m.line(q)[r] == m.ptr@[q * m.cols + r]);
}
// ---- filling a symmetric matrix pair by pair
pub struct Fill { pub locs: Seq<Coordinate>, pub input: Option<Seq<Vec<R>>>, pub rounded: bool }
pub open spec fn fval(s: Fill, a: int, b: int) -> real {
    match s.input { Some(inp) => rd(s.rounded, inp[b - 1]@[a]@), None => rd(s.rounded, euclid(s.locs[a], s.locs[b])) }
}
pub open spec fn fdone(s: Fill, i: int, j: int, a: int, b: int) -> bool {
    if s.input is Some { b - 1 < i || (b - 1 == i && a < j) } else { a < i || (a == i && b < j) }
}
#[verifier::opaque]
pub open spec fn filled(t: Seq<Seq<R>>, n: int, s: Fill, i: int, j: int, max: Option<R>) -> bool {
    &&& t.len() == n
    &&& forall|a: int| 0 <= a < n ==> (#[trigger] t[a]).len() == n
    &&& forall|a: int, b: int| 0 <= a < b < n && #[trigger] fdone(s, i, j, a, b) ==> t[a][b]@ == fval(s, a, b) && t[b][a]@ == fval(s, a, b)
    &&& forall|a: int| 0 <= a < n ==> (#[trigger] t[a])[a]@ == 0real
    &&& max is None ==> forall|a: int, b: int| 0 <= a < b < n ==> !#[trigger] fdone(s, i, j, a, b)
    &&& max is Some ==> exists|a: int, b: int| 0 <= a < b < n && #[trigger] fdone(s, i, j, a, b) && fval(s, a, b) == max.unwrap()@
    &&& max is Some ==> forall|a: int, b: int| 0 <= a < b < n && #[trigger] fdone(s, i, j, a, b) ==> fval(s, a, b) <= max.unwrap()@ + EPSILON_spec()
}
pub proof fn lem_fill_start(m: &Matrix<R>, n: int, s: Fill)
    requires m.ok(), m.rows == n, m.cols == n, forall|k: int| 0 <= k < m.ptr@.len() ==> #[trigger] m.ptr@[k] == zero_cell::<R>()
    ensures filled(m.table(), n, s, 0, if s.input is Some { 0 } else { 1 }, None)
{
    lem_table(m);
    ax_zero_real();
    assert forall|a: int| 0 <= a < n implies (#[trigger] m.table()[a])[a]@ == 0real by {
        lem_cell(a, a, n, n);
        assert(m.line(a)[a] == m.ptr@[a * m.cols + a]);
    }
    reveal(filled);
}
pub proof fn lem_fill_step(t: Seq<Seq<R>>, t2: Seq<Seq<R>>, n: int, s: Fill, i: int, j: int, max: Option<R>, max2: Option<R>, d: R)
    requires
        filled(t, n, s, i, j, max),
        s.input is Some ==> 0 <= j < i + 1 < n && t2 == put(put(t, i + 1, j, d), j, i + 1, d) && d@ == fval(s, j, i + 1),
        s.input is None ==> 0 <= i < j < n && t2 == put(put(t, i, j, d), j, i, d) && d@ == fval(s, i, j),
        max is None ==> max2 == Some(d),
        max is Some ==> max2 == (if d@ > max.unwrap()@ + EPSILON_spec() { Some(d) } else { max }),
    ensures filled(t2, n, s, i, j + 1, max2)
{
    reveal(filled);
    let (lo, hi) = if s.input is Some { (j, i + 1) } else { (i, j) };
    assert(EPSILON_spec() > 0real);
    assert forall|a: int, b: int| 0 <= a < b < n && #[trigger] fdone(s, i, j + 1, a, b) implies fdone(s, i, j, a, b) || (a == lo && b == hi) by { }
    assert forall|a: int, b: int| 0 <= a < b < n && #[trigger] fdone(s, i, j, a, b) implies fdone(s, i, j + 1, a, b) by { }
    assert(fdone(s, i, j + 1, lo, hi));
    assert forall|a: int| 0 <= a < n implies (#[trigger] t2[a]).len() == n && t2[a][a]@ == 0real by { assert(t[a].len() == n); assert(t[a][a]@ == 0real); }
    assert forall|a: int, b: int| 0 <= a < b < n && #[trigger] fdone(s, i, j + 1, a, b) implies t2[a][b]@ == fval(s, a, b) && t2[b][a]@ == fval(s, a, b) by {
        assert(t[a].len() == n && t[b].len() == n);
        if !(a == lo && b == hi) { assert(fdone(s, i, j, a, b)); }
    }
    if max is Some {
        let (a, b) = choose|a: int, b: int| 0 <= a < b < n && #[trigger] fdone(s, i, j, a, b) && fval(s, a, b) == max.unwrap()@;
        assert(fdone(s, i, j + 1, a, b));
    }
    assert forall|a: int, b: int| 0 <= a < b < n && #[trigger] fdone(s, i, j + 1, a, b) implies fval(s, a, b) <= max2.unwrap()@ + EPSILON_spec() by {
        if !(a == lo && b == hi) { assert(fdone(s, i, j, a, b)); }
    }
}
pub open spec fn put(t: Seq<Seq<R>>, i: int, j: int, d: R) -> Seq<Seq<R>> { t.update(i, t[i].update(j, d)) }
pub proof fn lem_fill_row(t: Seq<Seq<R>>, n: int, s: Fill, i: int, max: Option<R>)
    requires filled(t, n, s, i, if s.input is Some { i + 1 } else { n }, max)
    ensures filled(t, n, s, i + 1, if s.input is Some { 0 } else { i + 2 }, max)
{
    reveal(filled);
    let (j, j2) = if s.input is Some { (i + 1, 0int) } else { (n, i + 2) };
    assert forall|a: int, b: int| 0 <= a < b < n implies #[trigger] fdone(s, i, j, a, b) == fdone(s, i + 1, j2, a, b) by { }
    assert forall|a: int, b: int| 0 <= a < b < n implies #[trigger] fdone(s, i + 1, j2, a, b) == fdone(s, i, j, a, b) by { }
}
pub proof fn lem_fill_end(r: &DistanceMatrix, s: Fill, i: int, j: int, max: Option<R>)
    requires r.ok(), r.precomputed, filled(r.storage.table(), r.n(), s, i, j, max), s.locs == r.locations@, s.rounded == r.rounded, i >= (if s.input is Some { r.n() - 1 } else { r.n() })
    ensures r.symmetric(), largest(r, max), s.input is None ==> r.geometric(),
        s.input is Some ==> forall|a: int, b: int| 0 <= b <= a < r.n() - 1 ==> #[trigger] r.d(a + 1, b) == fval(s, b, a + 1)
{
    reveal(filled);
    let n = r.n();
    let t = r.storage.table();
    assert forall|a: int, b: int| 0 <= a < b < n implies #[trigger] fdone(s, i, j, a, b) by { }
    assert forall|a: int, b: int| 0 <= a < n && 0 <= b < n implies #[trigger] r.d(a, b) == (if a == b { 0real } else if a < b { fval(s, a, b) } else { fval(s, b, a) }) by {
        if a < b { assert(fdone(s, i, j, a, b)); }
        if b < a { assert(fdone(s, i, j, b, a)); }
        if a == b { assert(t[a][a]@ == 0real); }
    }
    if n >= 2 { assert(fdone(s, i, j, 0, 1)); }
    if max is Some {
        let (a, b) = choose|a: int, b: int| 0 <= a < b < n && #[trigger] fdone(s, i, j, a, b) && fval(s, a, b) == max.unwrap()@;
        assert(r.d(a, b) == max.unwrap()@);
        assert forall|a: int, b: int| 0 <= a < n && 0 <= b < n && a != b implies #[trigger] r.d(a, b) <= max.unwrap()@ + EPSILON_spec() by {
            if a < b { assert(fdone(s, i, j, a, b)); } else { assert(fdone(s, i, j, b, a)); }
        }
    }
    if s.input is None {
        assert forall|a: int, b: int| 0 <= a < n && 0 <= b < n implies #[trigger] r.d(a, b) == rd(r.rounded, euclid(r.locations@[a], r.locations@[b])) by {
            lem_euclid_self(r.locations@[a]);
            lem_euclid_sym(r.locations@[a], r.locations@[b]);
        }
    }
}
pub proof fn lem_lazy(r: &DistanceMatrix)
    requires !r.precomputed
    ensures r.symmetric(), r.geometric()
{
    assert forall|i: int, j: int| 0 <= i < r.n() && 0 <= j < r.n() implies #[trigger] r.d(i, j) == r.d(j, i) by { lem_euclid_sym(r.locations@[i], r.locations@[j]); }
    assert forall|i: int| 0 <= i < r.n() implies #[trigger] r.d(i, i) == 0real by { lem_euclid_self(r.locations@[i]); }
}
pub proof fn lem_fits(n: int) requires 0 <= n <= WIDEST ensures allocatable(n, n), n * n >= 0 {
    assert(n * n <= 0xff_ffff * 0xff_ffff) by (nonlinear_arith) requires 0 <= n <= 0xff_ffff;
    assert(n * n >= 0) by (nonlinear_arith);
}
impl CorrelationMatrix {
    pub open spec fn ok(&self) -> bool { self.storage.ok() && self.storage.cols == self.width }
    pub open spec fn n(&self) -> int { self.storage.rows as int }
    pub open spec fn list(&self, i: int) -> Seq<usize> { self.storage.table()[i] }
}
pub proof fn lem_fits_rows(n: int) requires 0 <= n <= WIDEST ensures forall|w: int| 0 <= w <= 200 ==> #[trigger] allocatable(n, w), n * n >= 0 {
    assert forall|w: int| 0 <= w <= 200 implies #[trigger] allocatable(n, w) by { assert(n * w <= 0xff_ffff * 200) by (nonlinear_arith) requires 0 <= n <= 0xff_ffff, 0 <= w <= 200; }
    assert(n * n >= 0) by (nonlinear_arith);
}
// the maximum over all cells is the largest distance
pub proof fn lem_max_cells(r: &DistanceMatrix)
    requires r.ok(), r.precomputed, r.max_distance is Some, exists|k: int| 0 <= k < r.storage.ptr@.len() && #[trigger] r.storage.ptr@[k] == r.max_distance.unwrap(),
        forall|k: int| 0 <= k < r.storage.ptr@.len() ==> #[trigger] r.storage.ptr@[k]@ <= r.max_distance.unwrap()@
    ensures largest(r, r.max_distance)
{
    let m = r.max_distance.unwrap();
    let k = choose|k: int| 0 <= k < r.storage.ptr@.len() && #[trigger] r.storage.ptr@[k] == m;
    lem_cell_of(&r.storage, k);
    assert(r.d(k / r.n(), k % r.n()) == m@);
    lem_table(&r.storage);
    assert(EPSILON_spec() > 0real);
    assert forall|i: int, j: int| 0 <= i < r.n() && 0 <= j < r.n() && i != j implies #[trigger] r.d(i, j) <= m@ + EPSILON_spec() by {
        lem_cell(i, j, r.n(), r.n());
        assert(r.storage.line(i)[j] == r.storage.ptr@[i * r.storage.cols + j]);
        assert(r.d(i, j) == r.storage.line(i)[j]@);
    }
}
pub proof fn lem_nearest(dm: &DistanceMatrix, i: int, sv: Seq<(usize, R)>, l: Seq<usize>)
    requires dm.n() >= 2, 0 <= i < dm.n(), dm.n() <= WIDEST,
        exists|a: Seq<(usize, R)>| #[trigger] rearranged(a, sv) && a.len() == others(i, dm.n()) && forall|k: int| 0 <= k < a.len() ==> (#[trigger] a[k]).0 == other(i, k) && a[k].1@ == dm.d(i, other(i, k)),
        forall|x: int, y: int| 0 <= x < y < sv.len() ==> (#[trigger] sv[x]).1@ <= (#[trigger] sv[y]).1@,
        l.len() == (if dm.n() - 2 < 200 { dm.n() - 2 } else { 200 }),
        forall|k: int| 0 <= k < l.len() ==> #[trigger] l[k] == sv[k].0,
    ensures nearest(dm, i, l)
{
    let a = choose|a: Seq<(usize, R)>| #[trigger] rearranged(a, sv) && a.len() == others(i, dm.n()) && forall|k: int| 0 <= k < a.len() ==> (#[trigger] a[k]).0 == other(i, k) && a[k].1@ == dm.d(i, other(i, k));
    let q = choose|q: Seq<int>| permuted_by(a, sv, q);
    let n = a.len() as int;
    assert(l.len() <= n);
    assert forall|k: int| 0 <= k < sv.len() implies (#[trigger] sv[k]).0 == other(i, q[k]) && 0 < sv[k].0 < dm.n() && sv[k].0 != i && sv[k].1@ == dm.d(i, sv[k].0 as int) by { assert(sv[k] == a[q[k]]); }
    assert forall|k: int, m: int| 0 <= k < m < l.len() implies #[trigger] l[k] != #[trigger] l[m] by { assert(sv[k].0 == other(i, q[k])); assert(sv[m].0 == other(i, q[m])); }
    assert forall|k: int, m: int| 0 <= k < m < l.len() implies dm.d(i, #[trigger] l[k] as int) <= dm.d(i, #[trigger] l[m] as int) by { assert(sv[k].1@ <= sv[m].1@); }
    assert forall|j: int, k: int| 0 < j < dm.n() && j != i && !l.contains(j as usize) && 0 <= k < l.len() implies dm.d(i, #[trigger] l[k] as int) <= #[trigger] dm.d(i, j) by {
        let p = rank_of(i, j);
        assert(other(i, p) == j);
        let x = lem_perm_surj(q, n, p);
        assert(sv[x].0 == j);
        if x < l.len() { assert(l[x] == j as usize); }
        assert(sv[k].1@ <= sv[x].1@);
    }
}
