@include real.vx
@const src/utils/comparison.rs EPSILON
@fn src/utils/comparison.rs f64@FloatCompare::approx_lt
@self R
@mut self:value
@params other
@ptype other: R
@generics
@ret r
@subst * self ==> self
@subst EPSILON ==> EPSILON_val()
@spec
ensures r == (self@ < other@ - EPSILON_spec())
@endfn
@fn src/utils/comparison.rs f64@FloatCompare::approx_gt
@self R
@mut self:value
@params other
@ptype other: R
@generics
@ret r
@subst * self ==> self
@subst EPSILON ==> EPSILON_val()
@spec
ensures r == (self@ > other@ + EPSILON_spec())
@endfn
@fn src/utils/comparison.rs f64@FloatCompare::approx_eq
@self R
@mut self:value
@params other
@ptype other: R
@generics
@ret r
@subst * self ==> self
@subst EPSILON ==> EPSILON_val()
@spec
ensures r == (rabs(self@ - other@) < EPSILON_spec())
@endfn
@fn src/utils/comparison.rs f64@FloatCompare::approx_lte
@self R
@mut self:value
@params other
@ptype other: R
@generics
@ret r
@subst * self ==> self
@spec
ensures r == (self@ < other@ + EPSILON_spec())
@endfn
@fn src/utils/comparison.rs f64@FloatCompare::approx_gte
@self R
@mut self:value
@params other
@ptype other: R
@generics
@ret r
@subst * self ==> self
@spec
ensures r == (self@ > other@ - EPSILON_spec())
@endfn

@struct src/models/problem.rs Coordinate
@attr #[derive(Copy, Clone)]
@struct src/models/problem.rs Node
@struct src/models/problem.rs Vehicle
@struct src/models/problem.rs Problem
@struct src/config.rs Config
@raw
// q is the permutation: new[i] == old[q[i]]
pub open spec fn is_perm_map(q: Seq<int>, n: int) -> bool {
    q.len() == n && (forall|i: int| 0 <= i < n ==> 0 <= #[trigger] q[i] < n) && (forall|i: int, j: int| 0 <= i < n && 0 <= j < n && i != j ==> q[i] != q[j])
}
pub open spec fn permuted_by<T>(a: Seq<T>, b: Seq<T>, q: Seq<int>) -> bool {
    b.len() == a.len() && is_perm_map(q, a.len() as int) && forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] == a[q[i]]
}
pub open spec fn rearranged<T>(a: Seq<T>, b: Seq<T>) -> bool { exists|q: Seq<int>| permuted_by(a, b, q) }
