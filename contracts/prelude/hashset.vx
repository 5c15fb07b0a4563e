@raw
// std::collections::HashSet through its mathematical contract
pub struct RandomState { pub g: Ghost<int> }
impl Random { #[verifier::external_body] pub fn random_state(&self) -> (r: RandomState) { unimplemented!() } }
pub struct HashSet<T> { pub s: Ghost<Set<T>> }
impl<T> View for HashSet<T> { type V = Set<T>; open spec fn view(&self) -> Set<T> { self.s@ } }
impl<T> HashSet<T> {
    #[verifier::external_body] pub fn with_capacity_and_hasher(n: usize, h: RandomState) -> (r: Self) ensures r@ == Set::<T>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn with_hasher(h: RandomState) -> (r: Self) ensures r@ == Set::<T>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, x: T) -> (r: bool) ensures final(self)@ == old(self)@.insert(x), r == !old(self)@.contains(x) { unimplemented!() }
    #[verifier::external_body] pub fn remove(&mut self, x: &T) -> (r: bool) ensures final(self)@ == old(self)@.remove(*x), r == old(self)@.contains(*x) { unimplemented!() }
    #[verifier::external_body] pub fn contains(&self, x: &T) -> (r: bool) ensures r == self@.contains(*x) { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (forall|x: T| !self@.contains(x)) { unimplemented!() }
    // iter().next(): some member
    #[verifier::external_body] pub fn some_member(&self) -> (r: Option<&T>) ensures r is Some ==> self@.contains(*r.unwrap()), r is None ==> (forall|x: T| !self@.contains(x)) { unimplemented!() }
    #[verifier::external_body] pub fn clear(&mut self) ensures final(self)@ == Set::<T>::empty() { unimplemented!() }
}
