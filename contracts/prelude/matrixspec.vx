@raw
impl<T: Copy> Matrix<T> {
    // the storage has exactly one cell per row and column
    pub open spec fn ok(&self) -> bool { self.ptr@.len() == self.rows * self.cols && allocatable(self.rows as int, self.cols as int) }
    #[verifier::opaque]
    pub open spec fn line(&self, k: int) -> Seq<T> { Seq::new(self.cols as nat, |j: int| self.ptr@[k * self.cols + j]) }
    #[verifier::opaque]
    pub open spec fn table(&self) -> Seq<Seq<T>> { Seq::new(self.rows as nat, |k: int| self.line(k)) }
}
pub proof fn lem_cell(row: int, col: int, rows: int, cols: int)
    requires 0 <= row < rows, 0 <= col < cols,
    ensures 0 <= row * cols + col < rows * cols, row * cols >= 0
{
    assert(0 <= row * cols) by (nonlinear_arith) requires 0 <= row, 0 < cols;
    assert((row + 1) * cols <= rows * cols) by (nonlinear_arith) requires row + 1 <= rows, 0 < cols;
    assert((row + 1) * cols == row * cols + cols) by (nonlinear_arith);
}
// different (row, column) pairs are different cells
pub proof fn lem_cell_inj(r1: int, c1: int, r2: int, c2: int, cols: int)
    requires 0 <= r1, 0 <= r2, 0 <= c1 < cols, 0 <= c2 < cols, r1 * cols + c1 == r2 * cols + c2
    ensures r1 == r2, c1 == c2
{
    if r1 < r2 {
        assert((r1 + 1) * cols <= r2 * cols) by (nonlinear_arith) requires r1 + 1 <= r2, 0 < cols;
        assert((r1 + 1) * cols == r1 * cols + cols) by (nonlinear_arith);
    }
    if r2 < r1 {
        assert((r2 + 1) * cols <= r1 * cols) by (nonlinear_arith) requires r2 + 1 <= r1, 0 < cols;
        assert((r2 + 1) * cols == r2 * cols + cols) by (nonlinear_arith);
    }
}
pub proof fn lem_table<T: Copy>(m: &Matrix<T>)
    requires m.ok()
    ensures m.table().len() == m.rows, forall|k: int| 0 <= k < m.rows ==> #[trigger] m.table()[k] == m.line(k) && m.line(k).len() == m.cols,
        forall|k: int| (#[trigger] m.line(k)).len() == m.cols,
        forall|k: int, j: int| 0 <= j < m.cols ==> #[trigger] m.line(k)[j] == m.ptr@[k * m.cols + j]
{ reveal(Matrix::table); reveal(Matrix::line); }
pub proof fn lem_write<T: Copy>(a: &Matrix<T>, b: &Matrix<T>, row: int, col: int, v: T)
    requires a.ok(), 0 <= row < a.rows, 0 <= col < a.cols, b.rows == a.rows, b.cols == a.cols, b.ptr@ == a.ptr@.update(row * a.cols + col, v)
    ensures b.ok(), b.table() == a.table().update(row, a.table()[row].update(col, v))
{
    lem_cell(row, col, a.rows as int, a.cols as int);
    lem_table(a);
    lem_table(b);
    let t = a.table().update(row, a.table()[row].update(col, v));
    assert forall|k: int| 0 <= k < a.rows implies #[trigger] b.table()[k] == t[k] by {
        assert forall|j: int| 0 <= j < a.cols implies b.line(k)[j] == t[k][j] by {
            lem_cell(k, j, a.rows as int, a.cols as int);
            assert(b.line(k)[j] == b.ptr@[k * a.cols + j]);
            assert(a.line(k)[j] == a.ptr@[k * a.cols + j]);
            if k * a.cols + j == row * a.cols + col { lem_cell_inj(k, j, row, col, a.cols as int); }
        }
        assert(a.table()[k].len() == a.cols);
        assert(b.line(k) =~= t[k]);
    }
    assert(b.table() =~= t);
}
pub proof fn lem_writes<T: Copy>(a: &Matrix<T>, row: int, col: int)
    requires a.ok(), 0 <= row < a.rows, 0 <= col < a.cols
    ensures forall|b: Matrix<T>, v: T| b.rows == a.rows && b.cols == a.cols && b.ptr@ == #[trigger] a.ptr@.update(row * a.cols + col, v)
        ==> b.ok() && #[trigger] b.table() == a.table().update(row, a.table()[row].update(col, v))
{
    assert forall|b: Matrix<T>, v: T| b.rows == a.rows && b.cols == a.cols && b.ptr@ == #[trigger] a.ptr@.update(row * a.cols + col, v)
        implies b.ok() && #[trigger] b.table() == a.table().update(row, a.table()[row].update(col, v)) by {
        lem_write(a, &b, row, col, v);
    }
}
pub proof fn lem_row_end(row: int, rows: int, cols: int)
    requires 0 <= row < rows, 0 <= cols
    ensures row * cols + cols <= rows * cols, row * cols >= 0
{
    assert((row + 1) * cols <= rows * cols) by (nonlinear_arith) requires row + 1 <= rows, 0 <= cols;
    assert((row + 1) * cols == row * cols + cols) by (nonlinear_arith);
    assert(row * cols >= 0) by (nonlinear_arith) requires row >= 0, cols >= 0;
}
pub proof fn lem_write_row<T: Copy>(a: &Matrix<T>, b: &Matrix<T>, row: int, col: int, w: Seq<T>)
    requires a.ok(), 0 <= row < a.rows, 0 <= col, col + w.len() <= a.cols, b.rows == a.rows, b.cols == a.cols, b.ptr@ == block_with(a.ptr@, row * a.cols + col, w)
    ensures b.ok(), b.table() == a.table().update(row, block_with(a.line(row), col, w))
{
    lem_row_end(row, a.rows as int, a.cols as int);
    lem_table(a);
    lem_table(b);
    let t = a.table().update(row, block_with(a.line(row), col, w));
    assert forall|k: int| 0 <= k < a.rows implies #[trigger] b.table()[k] == t[k] by {
        assert forall|j: int| 0 <= j < a.cols implies b.line(k)[j] == t[k][j] by {
            lem_cell(k, j, a.rows as int, a.cols as int);
            assert(b.line(k)[j] == b.ptr@[k * a.cols + j]);
            assert(a.line(k)[j] == a.ptr@[k * a.cols + j]);
            let x = k * a.cols + j;
            let y = row * a.cols + col;
            if y <= x < y + w.len() { lem_cell_inj(k, j, row, col + (x - y), a.cols as int); }
            if k == row { assert(x - y == j - col); }
        }
        assert(a.table()[k].len() == a.cols);
        assert(b.line(k) =~= t[k]);
    }
    assert(b.table() =~= t);
}
pub open spec fn row_written<T: Copy>(a: &Matrix<T>, b: &Matrix<T>, row: int, col: int, w: Seq<T>) -> bool {
    b.ok() && b.table() == a.table().update(row, block_with(a.line(row), col, w))
}
pub proof fn lem_write_rows<T: Copy>(a: &Matrix<T>, row: int, col: int, number: int, at: int)
    requires at == row * a.cols + col, a.ok(), 0 <= row < a.rows, 0 <= col, 0 <= number, col + number <= a.cols
    ensures forall|b: Matrix<T>, w: Seq<T>| b.rows == a.rows && b.cols == a.cols && w.len() == number && b.ptr@ == #[trigger] block_with(a.ptr@, at, w)
        ==> #[trigger] row_written(a, &b, row, col, w)
{
    lem_table(a);
    assert forall|b: Matrix<T>, w: Seq<T>| b.rows == a.rows && b.cols == a.cols && w.len() == number && b.ptr@ == #[trigger] block_with(a.ptr@, at, w)
        implies #[trigger] row_written(a, &b, row, col, w) by {
        lem_write_row(a, &b, row, col, w);
    }
}
