## f64 is modelled by exact reals (trusted assumption A1: machine floats treated as mathematical reals).
@raw
global size_of usize == 8;
pub struct R { pub v: Ghost<real> }
impl Copy for R {}
impl Clone for R {
    #[verifier::external_body]
    fn clone(&self) -> (r: R) ensures r == *self { unimplemented!() }
}
impl View for R { type V = real; open spec fn view(&self) -> real { self.v@ } }
pub open spec fn mk(x: real) -> R { R { v: Ghost(x) } }
#[inline] pub fn r_lit(g: Ghost<real>) -> (r: R) ensures r == mk(g@), r@ == g@ { R { v: g } }

impl vstd::std_specs::ops::AddSpecImpl<R> for R {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, o: R) -> bool { true }
    open spec fn add_spec(self, o: R) -> R { mk(self@ + o@) }
}
impl std::ops::Add<R> for R { type Output = R; fn add(self, o: R) -> R { R { v: Ghost(self@ + o@) } } }
impl vstd::std_specs::ops::SubSpecImpl<R> for R {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, o: R) -> bool { true }
    open spec fn sub_spec(self, o: R) -> R { mk(self@ - o@) }
}
impl std::ops::Sub<R> for R { type Output = R; fn sub(self, o: R) -> R { R { v: Ghost(self@ - o@) } } }
impl vstd::std_specs::ops::MulSpecImpl<R> for R {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, o: R) -> bool { true }
    open spec fn mul_spec(self, o: R) -> R { mk(self@ * o@) }
}
impl std::ops::Mul<R> for R { type Output = R; fn mul(self, o: R) -> R { R { v: Ghost(self@ * o@) } } }
impl vstd::std_specs::ops::DivSpecImpl<R> for R {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, o: R) -> bool { o@ != 0real }
    open spec fn div_spec(self, o: R) -> R { mk(self@ / o@) }
}
impl std::ops::Div<R> for R { type Output = R; #[verifier::external_body] fn div(self, o: R) -> R { unimplemented!() } }
impl vstd::std_specs::ops::NegSpecImpl for R {
    open spec fn obeys_neg_spec() -> bool { true }
    open spec fn neg_req(self) -> bool { true }
    open spec fn neg_spec(self) -> R { mk(-self@) }
}
impl std::ops::Neg for R { type Output = R; fn neg(self) -> R { R { v: Ghost(-self@) } } }

impl vstd::std_specs::cmp::PartialEqSpecImpl for R {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &R) -> bool { self@ == o@ }
}
impl PartialEq for R { #[verifier::external_body] fn eq(&self, o: &R) -> bool { unimplemented!() } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl for R {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &R) -> Option<core::cmp::Ordering> {
        if self@ < o@ { Some(core::cmp::Ordering::Less) }
        else if self@ > o@ { Some(core::cmp::Ordering::Greater) }
        else { Some(core::cmp::Ordering::Equal) }
    }
}
impl PartialOrd for R { #[verifier::external_body] fn partial_cmp(&self, o: &R) -> Option<core::cmp::Ordering> { unimplemented!() } }

pub open spec fn rmax(a: real, b: real) -> real { if a >= b { a } else { b } }
pub open spec fn rmin(a: real, b: real) -> real { if a <= b { a } else { b } }
pub open spec fn rabs(a: real) -> real { if a >= 0real { a } else { -a } }
pub uninterp spec fn inf_spec() -> real;
pub uninterp spec fn fmax_spec() -> real;
pub uninterp spec fn feps_spec() -> real;
pub uninterp spec fn exp_spec(x: real) -> real;
pub uninterp spec fn ln_spec(x: real) -> real;
pub uninterp spec fn pow_spec(x: real, y: real) -> real;
pub uninterp spec fn sqrt_spec(x: real) -> real;
pub uninterp spec fn atan2_spec(y: real, x: real) -> real;
pub open spec fn floor_spec(x: real) -> int { x.floor() }
pub open spec fn ceil_spec(x: real) -> int { -((-x).floor()) }
pub open spec fn round_spec(x: real) -> int { if x >= 0real { (x + 0.5real).floor() } else { -((-x + 0.5real).floor()) } }
#[verifier::external_body] pub fn r_infinity() -> (r: R) ensures r@ == inf_spec() { unimplemented!() }
#[verifier::external_body] pub fn r_max() -> (r: R) ensures r@ == fmax_spec() { unimplemented!() }
#[verifier::external_body] pub fn r_min() -> (r: R) ensures r@ == -fmax_spec() { unimplemented!() }
#[verifier::external_body] pub fn r_epsilon() -> (r: R) ensures r@ == feps_spec() { unimplemented!() }
impl R {
    pub fn default() -> (r: R) ensures r@ == 0real { R { v: Ghost(0real) } }
    #[verifier::external_body] pub fn max(self, o: R) -> (r: R) ensures r@ == rmax(self@, o@), r == mk(r@) { unimplemented!() }
    #[verifier::external_body] pub fn min(self, o: R) -> (r: R) ensures r@ == rmin(self@, o@), r == mk(r@) { unimplemented!() }
    #[verifier::external_body] pub fn abs(self) -> (r: R) ensures r@ == rabs(self@), r == mk(r@) { unimplemented!() }
    #[verifier::external_body] pub fn floor(self) -> (r: R) ensures r@ == floor_spec(self@) as real { unimplemented!() }
    #[verifier::external_body] pub fn ceil(self) -> (r: R) ensures r@ == ceil_spec(self@) as real { unimplemented!() }
    #[verifier::external_body] pub fn round(self) -> (r: R) ensures r@ == round_spec(self@) as real { unimplemented!() }
    #[verifier::external_body] pub fn sqrt(self) -> (r: R) ensures r@ == sqrt_spec(self@) { unimplemented!() }
    #[verifier::external_body] pub fn exp(self) -> (r: R) ensures r@ == exp_spec(self@) { unimplemented!() }
    #[verifier::external_body] pub fn ln(self) -> (r: R) ensures r@ == ln_spec(self@) { unimplemented!() }
    #[verifier::external_body] pub fn powf(self, e: R) -> (r: R) ensures r@ == pow_spec(self@, e@) { unimplemented!() }
    #[verifier::external_body] pub fn powi(self, e: i32) -> (r: R) ensures e == 2 ==> r@ == self@ * self@ { unimplemented!() }
    #[verifier::external_body] pub fn atan2(self, x: R) -> (r: R) ensures r@ == atan2_spec(self@, x@) { unimplemented!() }
    // `x as usize` / `as i32` / `as u64` on a float: saturating truncation towards zero
    #[verifier::external_body] pub fn to_usize(self) -> (r: usize) ensures self@ >= 0real && self@.floor() <= usize::MAX ==> r == self@.floor(), self@ < 0real ==> r == 0 { unimplemented!() }
    #[verifier::external_body] pub fn to_u64(self) -> (r: u64) ensures self@ >= 0real && self@.floor() <= u64::MAX ==> r == self@.floor(), self@ < 0real ==> r == 0 { unimplemented!() }
    #[verifier::external_body] pub fn to_i32(self) -> (r: i32) ensures i32::MIN <= self@.floor() <= i32::MAX ==> (if self@ >= 0real { r == self@.floor() } else { r == -((-self@).floor()) }) { unimplemented!() }
}
pub trait ToR { spec fn to_r_spec(&self) -> real; fn to_r(&self) -> (r: R) ensures r@ == self.to_r_spec(); }
impl ToR for R { open spec fn to_r_spec(&self) -> real { self@ } fn to_r(&self) -> (r: R) { *self } }
impl ToR for usize { open spec fn to_r_spec(&self) -> real { *self as int as real } #[verifier::external_body] fn to_r(&self) -> (r: R) { unimplemented!() } }
impl ToR for u64 { open spec fn to_r_spec(&self) -> real { *self as int as real } #[verifier::external_body] fn to_r(&self) -> (r: R) { unimplemented!() } }
impl ToR for u32 { open spec fn to_r_spec(&self) -> real { *self as int as real } #[verifier::external_body] fn to_r(&self) -> (r: R) { unimplemented!() } }
impl ToR for i64 { open spec fn to_r_spec(&self) -> real { *self as int as real } #[verifier::external_body] fn to_r(&self) -> (r: R) { unimplemented!() } }
impl ToR for i32 { open spec fn to_r_spec(&self) -> real { *self as int as real } #[verifier::external_body] fn to_r(&self) -> (r: R) { unimplemented!() } }

// assert!/panic! of the code become proof obligations
#[inline] pub fn rt_assert(b: bool) requires b { }
#[verifier::external_body] pub fn rt_panic<T>() -> (r: T) requires false { unimplemented!() }
#[verifier::external_body] pub fn opaque_string() -> (r: String) { unimplemented!() }
#[inline] pub fn min_usize(a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } }
#[inline] pub fn max_usize(a: usize, b: usize) -> (r: usize) ensures r == (if a >= b { a } else { b }) { if a >= b { a } else { b } }
#[verifier::external_body]
pub fn vec_rep<T: Clone>(x: T, n: usize) -> (r: Vec<T>)
    ensures r@.len() == n, forall|i: int| #![trigger cloned(x, r@[i])] #![trigger r@[i]] 0 <= i < n ==> cloned(x, r@[i]),
{ unimplemented!() }
#[inline] pub fn ty_link<T>(a: &Option<T>, x: &T) { }
#[verifier::external_body]
pub fn vec_extend<T: Copy>(v: &mut Vec<T>, w: &Vec<T>) ensures final(v)@ == old(v)@ + w@ { unimplemented!() }
