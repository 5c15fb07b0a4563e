@raw
// src/models/matrix.rs Matrix through its contract (proved in unit `matrix`): a table of rows x cols cells (g is its `table()`)
pub struct Matrix<T> { pub rows: usize, pub cols: usize, pub g: Ghost<Seq<Seq<T>>> }
impl<T: Copy> Matrix<T> {
    pub open spec fn line(&self, k: int) -> Seq<T> { self.g@[k] }
    pub open spec fn ok(&self) -> bool { self.g@.len() == self.rows && forall|k: int| 0 <= k < self.rows ==> (#[trigger] self.g@[k]).len() == self.cols }
    #[verifier::external_body]
    pub fn new(rows: usize, cols: usize) -> (r: Self)
        requires rows * cols <= 0x1ff_ffff_ffff_ffff,
        ensures r.rows == rows, r.cols == cols, r.ok() { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, row: usize, col: usize) -> (r: T)
        requires row < self.rows, col < self.cols,
        ensures r == self.line(row as int)[col as int] { unimplemented!() }
    #[verifier::external_body]
    pub fn set(&mut self, row: usize, col: usize, value: T)
        requires row < old(self).rows, col < old(self).cols,
        ensures final(self).rows == old(self).rows, final(self).cols == old(self).cols,
            final(self).g@ == old(self).g@.update(row as int, old(self).g@[row as int].update(col as int, value)) { unimplemented!() }
}
// std::collections::VecDeque
pub struct VecDeque<T> { pub g: Ghost<Seq<T>> }
impl<T> View for VecDeque<T> { type V = Seq<T>; open spec fn view(&self) -> Seq<T> { self.g@ } }
impl<T> VecDeque<T> {
    #[verifier::external_body] pub fn with_capacity(n: usize) -> (r: Self) ensures r@.len() == 0 { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body] pub fn clear(&mut self) ensures final(self)@.len() == 0 { unimplemented!() }
    #[verifier::external_body] pub fn pop_back(&mut self) -> (r: Option<T>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@, old(self)@.len() > 0 ==> r == Some(old(self)@.last()) && final(self)@ == old(self)@.drop_last() { unimplemented!() }
    #[verifier::external_body] pub fn pop_front(&mut self) -> (r: Option<T>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@, old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.drop_first() { unimplemented!() }
    #[verifier::external_body] pub fn push_back(&mut self, x: T) ensures final(self)@ == old(self)@.push(x) { unimplemented!() }
    #[verifier::external_body] pub fn push_front(&mut self, x: T) ensures final(self)@ == seq![x] + old(self)@ { unimplemented!() }
    #[verifier::external_body] pub fn front(&self) -> (r: Option<&T>) ensures self@.len() == 0 ==> r is None, self@.len() > 0 ==> r == Some(&self@[0]) { unimplemented!() }
    #[verifier::external_body] pub fn back(&self) -> (r: Option<&T>) ensures self@.len() == 0 ==> r is None, self@.len() > 0 ==> r == Some(&self@.last()) { unimplemented!() }
}
