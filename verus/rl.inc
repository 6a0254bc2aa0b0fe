// ---- the sample type as mathematical real numbers: what is proved holds of the exact arithmetic, rounding aside
#[derive(Copy, Clone)]
pub struct F { r: Ghost<real> }
pub closed spec fn fr(r: real) -> F { F { r: Ghost(r) } }
impl F { pub closed spec fn v(self) -> real { self.r@ } }
impl vstd::std_specs::ops::AddSpecImpl for F {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, rhs: F) -> bool { true }
    open spec fn add_spec(self, rhs: F) -> F { fr(self.v() + rhs.v()) }
}
impl core::ops::Add for F { type Output = F; #[verifier::external_body] fn add(self, b: F) -> F { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl for F {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, rhs: F) -> bool { true }
    open spec fn sub_spec(self, rhs: F) -> F { fr(self.v() - rhs.v()) }
}
impl core::ops::Sub for F { type Output = F; #[verifier::external_body] fn sub(self, b: F) -> F { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl for F {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, rhs: F) -> bool { true }
    open spec fn mul_spec(self, rhs: F) -> F { fr(self.v() * rhs.v()) }
}
impl core::ops::Mul for F { type Output = F; #[verifier::external_body] fn mul(self, b: F) -> F { unimplemented!() } }
impl vstd::std_specs::ops::DivSpecImpl for F {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, rhs: F) -> bool { rhs.v() != 0real }
    open spec fn div_spec(self, rhs: F) -> F { fr(self.v() / rhs.v()) }
}
impl core::ops::Div for F { type Output = F; #[verifier::external_body] fn div(self, b: F) -> F { unimplemented!() } }
impl vstd::std_specs::ops::NegSpecImpl for F {
    open spec fn obeys_neg_spec() -> bool { true }
    open spec fn neg_req(self) -> bool { true }
    open spec fn neg_spec(self) -> F { fr(0real - self.v()) }
}
impl core::ops::Neg for F { type Output = F; #[verifier::external_body] fn neg(self) -> F { unimplemented!() } }
pub uninterp spec fn rexp(x: real) -> real;
pub uninterp spec fn rln(x: real) -> real;
pub uninterp spec fn rtan(x: real) -> real;
pub uninterp spec fn rsqrt(x: real) -> real;
pub uninterp spec fn rpow(x: real, y: real) -> real;
pub uninterp spec fn rpi() -> real;
impl F {
    #[verifier::external_body]
    fn zero() -> (r: F) ensures r.v() == 0real { unimplemented!() }
    #[verifier::external_body]
    fn one() -> (r: F) ensures r.v() == 1real { unimplemented!() }
    #[verifier::external_body]
    fn pi() -> (r: F) ensures r.v() == rpi() { unimplemented!() }
    /// the constant n / d
    #[verifier::external_body]
    fn num(n: i64, d: i64) -> (r: F) requires d > 0 ensures r.v() == (n as real) / (d as real) { unimplemented!() }
    #[verifier::external_body]
    fn same(a: F, b: F) -> (r: bool) ensures r == (a.v() == b.v()) { unimplemented!() }
    #[verifier::external_body]
    fn exp(self) -> (r: F) ensures r.v() == rexp(self.v()) { unimplemented!() }
    #[verifier::external_body]
    fn ln(self) -> (r: F) ensures r.v() == rln(self.v()) { unimplemented!() }
    #[verifier::external_body]
    fn tan(self) -> (r: F) ensures r.v() == rtan(self.v()) { unimplemented!() }
    #[verifier::external_body]
    fn sqrt(self) -> (r: F) requires self.v() >= 0real ensures r.v() == rsqrt(self.v()) { unimplemented!() }
    #[verifier::external_body]
    fn powf(self, y: F) -> (r: F) ensures r.v() == rpow(self.v(), y.v()) { unimplemented!() }
}
