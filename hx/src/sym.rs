//! A sample type whose operations are (nearly) free: the result records which operation was applied to which
//! operands. Code that is generic over the sample type and cannot look inside it computes the same expression
//! for every sample type, so proving an expression for `Sym` proves it for f32 and f64. The laws that hold
//! exactly for IEEE floats hold here too, so that code using them is not told apart: + and * commute,
//! a - b = a + (-b), -(-a) = a, (-a) * b = -(a * b), a * 1 = a, a / 1 = a.
//!
//! Natively (replay of a counterexample, search for a failing input) `Sym` is f32 itself, so that a failing
//! input is one of the code that runs; results are compared up to rounding there.
#[cfg(kani)]
pub use free::*;
#[cfg(not(kani))]
pub use real::*;

#[cfg(not(kani))]
mod real {
    use crate::nd;
    pub type Sym = f32;
    pub fn any() -> Sym {
        let b: u32 = nd::any();
        const SPECIAL: [f32; 12] = [0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 2.0, 3.0, 1e-30, 1e9, -7.25, 100.0];
        if b % 8 == 0 { SPECIAL[(b / 8 % 12) as usize] } else { (b as f64 / u32::MAX as f64 * 8.0 - 4.0) as f32 }
    }
    pub fn eq(a: Sym, b: Sym) -> bool {
        a == b || (a.is_nan() && b.is_nan()) || (a - b).abs() <= 2e-5 * (1.0 + a.abs().min(b.abs()))
    }
}

#[cfg(kani)]
mod free {
use crate::nd;
use core::ops::*;
use knaster_graph::Float;
use num_traits::{Num, NumCast, One, ToPrimitive, Zero};

#[derive(Clone, Copy, PartialEq, PartialOrd, Debug, Default)]
pub struct Sym(pub u32);
const S: u32 = 0x8000_0000;
const fn h(bits: u64) -> u32 {
    ((bits >> 32) as u32) ^ (bits as u32).rotate_left(9)
}
pub fn any() -> Sym {
    Sym(nd::any())
}
pub fn eq(a: Sym, b: Sym) -> bool {
    a == b
}
fn op1(tag: u32, a: Sym) -> Sym {
    Sym(a.0.rotate_left(tag % 13 + 3) ^ (0x0101_0107u32.wrapping_shl(tag % 5)).wrapping_add(tag))
}
fn op2(tag: u32, a: Sym, b: Sym) -> Sym {
    Sym(a.0.rotate_left(5).wrapping_add(b.0.rotate_left(14)) ^ (0x1030_5071u32.wrapping_add(tag)))
}
impl Add for Sym {
    type Output = Sym;
    fn add(self, b: Sym) -> Sym {
        let f = |x: Sym| x.0.rotate_left(7) ^ 0x0135_7913;
        Sym(f(self).wrapping_add(f(b)))
    }
}
impl Neg for Sym {
    type Output = Sym;
    fn neg(self) -> Sym {
        Sym(self.0 ^ S)
    }
}
impl Sub for Sym {
    type Output = Sym;
    fn sub(self, b: Sym) -> Sym {
        self + (-b)
    }
}
const ONE: Sym = Sym(h(0x3ff0_0000_0000_0000));
impl Mul for Sym {
    type Output = Sym;
    fn mul(self, b: Sym) -> Sym {
        if self.0 & !S == ONE.0 {
            return Sym(b.0 ^ (self.0 & S));
        }
        if b.0 & !S == ONE.0 {
            return Sym(self.0 ^ (b.0 & S));
        }
        let f = |x: Sym| (x.0 & !S).rotate_left(3) ^ 0x2468_1357;
        Sym((f(self).wrapping_add(f(b)) & !S) | ((self.0 ^ b.0) & S))
    }
}
impl Div for Sym {
    type Output = Sym;
    fn div(self, b: Sym) -> Sym {
        if b.0 & !S == ONE.0 {
            return Sym(self.0 ^ (b.0 & S));
        }
        Sym((op2(1, Sym(self.0 & !S), Sym(b.0 & !S)).0 & !S) | ((self.0 ^ b.0) & S))
    }
}
impl Rem for Sym {
    type Output = Sym;
    fn rem(self, b: Sym) -> Sym {
        op2(2, self, b)
    }
}
macro_rules! assign { ($($t:ident $f:ident $o:ident),*) => {$( impl $t for Sym { fn $f(&mut self, b: Sym) { *self = (*self).$o(b) } } )*} }
assign!(AddAssign add_assign add, SubAssign sub_assign sub, MulAssign mul_assign mul, DivAssign div_assign div, RemAssign rem_assign rem);
impl core::iter::Sum for Sym {
    fn sum<I: Iterator<Item = Sym>>(it: I) -> Sym {
        let mut s = Sym(0);
        for x in it {
            s = s + x;
        }
        s
    }
}
impl Zero for Sym {
    fn zero() -> Sym {
        Sym(0)
    }
    fn is_zero(&self) -> bool {
        self.0 == 0
    }
}
impl One for Sym {
    fn one() -> Sym {
        ONE
    }
}
impl Num for Sym {
    type FromStrRadixErr = ();
    fn from_str_radix(_: &str, _: u32) -> Result<Sym, ()> {
        Err(())
    }
}
impl ToPrimitive for Sym {
    fn to_i64(&self) -> Option<i64> {
        Some(self.0 as i64)
    }
    fn to_u64(&self) -> Option<u64> {
        Some(self.0 as u64)
    }
    fn to_f64(&self) -> Option<f64> {
        Some(self.0 as f64)
    }
}
impl NumCast for Sym {
    fn from<T: ToPrimitive>(n: T) -> Option<Sym> {
        n.to_f64().map(|x| Sym(h(x.to_bits())))
    }
}
macro_rules! ops {
    ($($u:ident $tu:literal),*; $($b:ident $tb:literal),*) => {
        impl num_traits::Float for Sym {
            fn nan() -> Sym { Sym(0x7fc0_0000) }
            fn infinity() -> Sym { Sym(0x7f80_0000) }
            fn neg_infinity() -> Sym { Sym(0xff80_0000) }
            fn neg_zero() -> Sym { Sym(S) }
            fn min_value() -> Sym { Sym(0xff7f_ffff) }
            fn min_positive_value() -> Sym { Sym(1) }
            fn max_value() -> Sym { Sym(0x7f7f_ffff) }
            fn is_nan(self) -> bool { false }
            fn is_infinite(self) -> bool { false }
            fn is_finite(self) -> bool { true }
            fn is_normal(self) -> bool { true }
            fn classify(self) -> core::num::FpCategory { core::num::FpCategory::Normal }
            fn is_sign_positive(self) -> bool { self.0 & S == 0 }
            fn is_sign_negative(self) -> bool { self.0 & S != 0 }
            fn mul_add(self, a: Sym, b: Sym) -> Sym { op2(77, op2(76, self, a), b) }
            fn powi(self, n: i32) -> Sym { op2(78, self, Sym(n as u32)) }
            fn sin_cos(self) -> (Sym, Sym) { (self.sin(), self.cos()) }
            fn abs(self) -> Sym { Sym(self.0 & !S) }
            fn max(self, o: Sym) -> Sym { if self.0 >= o.0 { self } else { o } }
            fn min(self, o: Sym) -> Sym { if self.0 <= o.0 { self } else { o } }
            fn clamp(self, a: Sym, b: Sym) -> Sym { if self < a { a } else if self > b { b } else { self } }
            fn integer_decode(self) -> (u64, i16, i8) { (self.0 as u64, 0, 0) }
            $(fn $u(self) -> Sym { op1($tu, self) })*
            $(fn $b(self, o: Sym) -> Sym { op2($tb, self, o) })*
        }
    };
}
ops!(floor 10, ceil 11, round 12, trunc 13, fract 14, signum 15, recip 16, sqrt 17, exp 18, exp2 19, ln 20, log2 21, log10 22, cbrt 23, sin 24, cos 25, tan 26,
     asin 27, acos 28, atan 29, exp_m1 30, ln_1p 31, sinh 32, cosh 33, tanh 34, asinh 35, acosh 36, atanh 37;
     powf 50, log 51, abs_sub 52, hypot 53, atan2 54);
impl Float for Sym {
    const ZERO: Sym = Sym(0);
    const ONE: Sym = ONE;
    const PI: Sym = Sym(h(0x4009_21fb_5444_2d18));
    const TAU: Sym = Sym(h(0x4019_21fb_5444_2d18));
    const ANTI_DENORMAL: Sym = Sym(0x1234_5678);
    fn from_usize(i: usize) -> Sym {
        Sym(h((i as f64).to_bits()))
    }
    fn new<F: Float>(v: F) -> Sym {
        Sym(h(Float::to_f64(v).to_bits()))
    }
    fn to_f32(self) -> f32 {
        self.0 as f32
    }
    fn to_f64(self) -> f64 {
        self.0 as f64
    }
}
}
