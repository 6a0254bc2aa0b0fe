// ---- the sample type: opaque values, every operation an uninterpreted function of its operands, so that what is
// proved is an expression over the same operations and holds for f32 and f64 alike
#[verifier::external_body]
#[derive(Copy, Clone)]
pub struct F { x: f32 }
pub uninterp spec fn fadd(a: F, b: F) -> F;
pub uninterp spec fn fsub(a: F, b: F) -> F;
pub uninterp spec fn fmul(a: F, b: F) -> F;
pub uninterp spec fn fdiv(a: F, b: F) -> F;
pub uninterp spec fn f0() -> F;
pub uninterp spec fn f1() -> F;
impl vstd::std_specs::ops::AddSpecImpl for F {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, rhs: F) -> bool { true }
    open spec fn add_spec(self, rhs: F) -> F { fadd(self, rhs) }
}
impl core::ops::Add for F { type Output = F; #[verifier::external_body] fn add(self, b: F) -> F { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl for F {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, rhs: F) -> bool { true }
    open spec fn sub_spec(self, rhs: F) -> F { fsub(self, rhs) }
}
impl core::ops::Sub for F { type Output = F; #[verifier::external_body] fn sub(self, b: F) -> F { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl for F {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, rhs: F) -> bool { true }
    open spec fn mul_spec(self, rhs: F) -> F { fmul(self, rhs) }
}
impl core::ops::Mul for F { type Output = F; #[verifier::external_body] fn mul(self, b: F) -> F { unimplemented!() } }
impl vstd::std_specs::ops::DivSpecImpl for F {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, rhs: F) -> bool { true }
    open spec fn div_spec(self, rhs: F) -> F { fdiv(self, rhs) }
}
impl core::ops::Div for F { type Output = F; #[verifier::external_body] fn div(self, b: F) -> F { unimplemented!() } }
impl F {
    #[verifier::external_body]
    fn zero() -> (r: F) ensures r == f0() { unimplemented!() }
    #[verifier::external_body]
    fn one() -> (r: F) ensures r == f1() { unimplemented!() }
}
#[verifier::external_body]
fn filled(x: F, n: usize) -> (r: Vec<F>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> r@[i] == x { unimplemented!() }
fn min_usize(a: usize, b: usize) -> (r: usize) ensures r == (if a < b { a } else { b }) { if a < b { a } else { b } }
fn max_usize(a: usize, b: usize) -> (r: usize) ensures r == (if a < b { b } else { a }) { if a < b { b } else { a } }
