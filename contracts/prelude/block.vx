@raw
// A block of heap cells behind a raw pointer: every access must be inside the block
pub struct Block<T> { pub g: Ghost<Seq<T>> }
impl<T> View for Block<T> { type V = Seq<T>; open spec fn view(&self) -> Seq<T> { self.g@ } }
// size in bytes of a stored cell (8 for f64 and usize, more for the records of the split and the insertion cache)
pub uninterp spec fn cell_size<T>() -> nat;
pub broadcast axiom fn ax_cell_size<T>() ensures 0 < #[trigger] cell_size::<T>() <= 64;
// the value all of whose bytes are zero
pub uninterp spec fn zero_cell<T>() -> T;
pub axiom fn ax_zero_real() ensures zero_cell::<R>() == mk(0real);
pub axiom fn ax_zero_usize() ensures zero_cell::<usize>() == 0usize;
// the block can be requested at all: its size in bytes does not exceed isize::MAX
pub open spec fn allocatable(rows: int, cols: int) -> bool { rows * cols <= 0x1ff_ffff_ffff_ffff }
impl<T: Copy> Block<T> {
    #[verifier::external_body]
    pub fn read_at(&self, k: usize) -> (r: T)
        requires k < self@.len(),
        ensures r == self@[k as int] { unimplemented!() }
    #[verifier::external_body]
    pub fn write_at(&mut self, k: usize, v: T)
        requires k < old(self)@.len(),
        ensures final(self)@ == old(self)@.update(k as int, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn cell_mut(&mut self, k: usize) -> (r: &mut T)
        requires k < old(self)@.len(),
        ensures *r == old(self)@[k as int], final(self)@ == old(self)@.update(k as int, *final(r)) { unimplemented!() }
    #[verifier::external_body]
    pub fn cell(&self, k: usize) -> (r: &T)
        requires k < self@.len(),
        ensures *r == self@[k as int] { unimplemented!() }
    #[verifier::external_body]
    pub fn window(&self, k: usize, n: usize) -> (r: &Vec<T>)
        requires k + n <= self@.len(),
        ensures r@ == self@.subrange(k as int, k + n) { unimplemented!() }
    #[verifier::external_body]
    pub fn window_mut(&mut self, k: usize, n: usize) -> (r: &mut Vec<T>)
        requires k + n <= old(self)@.len(),
        ensures r@ == old(self)@.subrange(k as int, k + n),
            // a slice cannot change its length
            final(r)@.len() == n,
            final(self)@ == block_with(old(self)@, k as int, final(r)@) { unimplemented!() }
}
// the cells from k on replaced by w
pub open spec fn block_with<T>(old: Seq<T>, k: int, w: Seq<T>) -> Seq<T> { old.subrange(0, k) + w + old.subrange(k + w.len(), old.len() as int) }
// std::alloc
pub struct Layout { pub g: Ghost<(nat, nat)> }
pub struct LayoutError {}
impl Layout {
    pub open spec fn cells(&self) -> nat { self.g@.0 }
    pub open spec fn unit(&self) -> nat { self.g@.1 }
    pub open spec fn bytes(&self) -> int { self.cells() as int * self.unit() as int }
    #[verifier::external_body]
    pub fn array<T>(n: usize) -> (r: Option<Layout>)
        ensures r is Some <==> n * cell_size::<T>() <= isize::MAX,
            r is Some ==> r.unwrap().cells() == n && r.unwrap().unit() == cell_size::<T>() { unimplemented!() }
    #[verifier::external_body]
    pub fn size(&self) -> (r: usize) ensures r == self.bytes() { unimplemented!() }
}
#[verifier::external_body]
pub fn alloc_zeroed<T>(layout: Layout) -> (r: Block<T>)
    requires layout.bytes() > 0, layout.unit() == cell_size::<T>(),
    ensures r@ == Seq::new(layout.cells(), |i: int| zero_cell::<T>()) { unimplemented!() }
pub struct NonNull<T> { pub g: Ghost<Option<T>> }
impl<T> NonNull<T> {
    #[verifier::external_body] pub fn dangling() -> (r: NonNull<T>) { unimplemented!() }
    #[verifier::external_body] pub fn as_ptr(self) -> (r: Block<T>) ensures r@.len() == 0 { unimplemented!() }
}
// the layout must be the one the block was allocated with
#[verifier::external_body]
pub fn dealloc<T>(p: &mut Block<T>, layout: Layout)
    requires layout.cells() == old(p)@.len(), layout.unit() == cell_size::<T>(), layout.bytes() > 0,
{ unimplemented!() }
