@raw
// std::collections::HashMap through its mathematical contract; `entries` is the (arbitrary) iteration order
pub struct HashMap<V> { pub entries: Vec<(u64, V)> }
impl<V> HashMap<V> {
    pub open spec fn wf(&self) -> bool { forall|i: int, j: int| 0 <= i < j < self.entries@.len() ==> (#[trigger] self.entries@[i]).0 != (#[trigger] self.entries@[j]).0 }
    pub open spec fn idx(&self, k: u64) -> int { choose|i: int| 0 <= i < self.entries@.len() && (#[trigger] self.entries@[i]).0 == k }
    pub open spec fn has(&self, k: u64) -> bool { exists|i: int| 0 <= i < self.entries@.len() && (#[trigger] self.entries@[i]).0 == k }
    pub open spec fn at(&self, k: u64) -> V { self.entries@[self.idx(k)].1 }
    pub proof fn lem_entry(&self, i: int)
        requires self.wf(), 0 <= i < self.entries@.len()
        ensures self.has(self.entries@[i].0), self.at(self.entries@[i].0) == self.entries@[i].1, self.idx(self.entries@[i].0) == i
    { let k = self.entries@[i].0; assert(self.entries@[self.idx(k)].0 == k); }
    #[verifier::external_body] pub fn get(&self, k: &u64) -> (r: Option<&V>) requires self.wf(),
        ensures match r { Some(v) => self.has(*k) && *v == self.at(*k), None => !self.has(*k) } { unimplemented!() }
    #[verifier::external_body] pub fn get_mut(&mut self, k: &u64) -> (r: Option<&mut V>) requires old(self).wf(),
        ensures final(self).wf(), forall|x: u64| #[trigger] final(self).has(x) == old(self).has(x), forall|x: u64| x != *k ==> #[trigger] final(self).at(x) == old(self).at(x),
            match r { Some(v) => old(self).has(*k) && *v == old(self).at(*k) && final(self).at(*k) == *final(v), None => !old(self).has(*k) && *final(self) == *old(self) } { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: u64, v: V) -> (r: Option<V>) requires old(self).wf(),
        ensures final(self).wf(), forall|x: u64| #[trigger] final(self).has(x) == (old(self).has(x) || x == k), forall|x: u64| x != k ==> #[trigger] final(self).at(x) == old(self).at(x), final(self).at(k) == v { unimplemented!() }
    #[verifier::external_body] pub fn remove(&mut self, k: &u64) -> (r: Option<V>) requires old(self).wf(),
        ensures final(self).wf(), forall|x: u64| #[trigger] final(self).has(x) == (old(self).has(x) && x != *k), forall|x: u64| x != *k ==> #[trigger] final(self).at(x) == old(self).at(x) { unimplemented!() }
}
