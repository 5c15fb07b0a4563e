@raw
// slice::binary_search: a hit if the slice is partitioned into less / equal / greater elements, else an unspecified index in range
pub trait SearchOrd: Sized { spec fn cmp_s(&self, o: &Self) -> core::cmp::Ordering; }
pub open spec fn search_ready<T: SearchOrd>(s: Seq<T>, x: T) -> bool {
    exists|a: int, b: int| #[trigger] partitioned(s, x, a, b)
}
pub open spec fn partitioned<T: SearchOrd>(s: Seq<T>, x: T, a: int, b: int) -> bool {
    &&& 0 <= a <= b <= s.len()
    &&& forall|i: int| 0 <= i < a ==> (#[trigger] s[i]).cmp_s(&x) == core::cmp::Ordering::Less
    &&& forall|i: int| a <= i < b ==> (#[trigger] s[i]).cmp_s(&x) == core::cmp::Ordering::Equal
    &&& forall|i: int| b <= i < s.len() ==> (#[trigger] s[i]).cmp_s(&x) == core::cmp::Ordering::Greater
}
pub trait VecSearch<T: SearchOrd> {
    spec fn items(&self) -> Seq<T>;
    fn binary_search(&self, x: &T) -> (r: Result<usize, usize>)
        ensures match r { Ok(i) => i < self.items().len(), Err(i) => i <= self.items().len() },
            search_ready(self.items(), *x) ==> match r {
                Ok(i) => self.items()[i as int].cmp_s(x) == core::cmp::Ordering::Equal,
                Err(i) => partitioned(self.items(), *x, i as int, i as int) };
}
impl<T: SearchOrd> VecSearch<T> for Vec<T> {
    open spec fn items(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn binary_search(&self, x: &T) -> (r: Result<usize, usize>) { unimplemented!() }
}
