//! Nondeterministic values. Under Kani every value is symbolic (all values at once, a proof);
//! natively the same harness body is driven by a recorded counterexample (replay) or by a
//! pseudo-random source biased to corner values (search for a failing input).

#[cfg(kani)]
mod imp {
    pub trait Nd: kani::Arbitrary {}
    impl<T: kani::Arbitrary> Nd for T {}
    #[inline(always)]
    pub fn any<T: Nd>() -> T {
        kani::any()
    }
    #[inline(always)]
    pub fn assume(b: bool) {
        kani::assume(b)
    }
    #[macro_export]
    macro_rules! reach {
        ($c:expr, $m:literal) => {
            kani::cover!($c, $m)
        };
    }
}

#[cfg(not(kani))]
mod imp {
    use std::cell::RefCell;
    pub enum Source {
        Replay { vals: Vec<Vec<u8>>, next: usize },
        Random { state: u64 },
    }
    pub struct State {
        pub src: Source,
        pub trace: Vec<Vec<u8>>,
        pub text: Vec<String>,
        pub reached: Vec<&'static str>,
    }
    thread_local! {
        pub static STATE: RefCell<State> = const { RefCell::new(State { src: Source::Random { state: 1 }, trace: vec![], text: vec![], reached: vec![] }) };
    }
    /// Panic payload of an assumption that the current values do not meet.
    pub struct Discard;
    pub fn rng(state: &mut u64) -> u64 {
        *state = state.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = *state;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub trait Nd: Sized {
        fn from_bytes(b: &[u8]) -> Self;
        fn to_bytes(&self) -> Vec<u8>;
        fn random(s: &mut u64) -> Self;
        fn show(&self) -> String;
    }
    macro_rules! ints {
        ($($t:ty),*) => {$(impl Nd for $t {
            fn from_bytes(b: &[u8]) -> Self {
                let mut a = [0u8; size_of::<$t>()];
                let n = b.len().min(a.len());
                a[..n].copy_from_slice(&b[..n]);
                <$t>::from_le_bytes(a)
            }
            fn to_bytes(&self) -> Vec<u8> { self.to_le_bytes().to_vec() }
            fn random(s: &mut u64) -> Self {
                let r = rng(s);
                let bits = <$t>::BITS as u64;
                match r % 8 {
                    0 => (rng(s) % 4) as $t,
                    1 => <$t>::MAX.wrapping_sub((rng(s) % 4) as $t),
                    2 | 3 => (rng(s) % 17) as $t,
                    4 => { let sh = rng(s) % bits; ((1 as $t) << sh).wrapping_add((rng(s) % 3) as $t).wrapping_sub(1) }
                    5 => { let sh = rng(s) % bits; (rng(s) as $t) >> sh }
                    _ => rng(s) as $t,
                }
            }
            fn show(&self) -> String { format!("{}{}", self, stringify!($t)) }
        })*};
    }
    ints!(u8, u16, u32, u64, usize, i8, i16, i32, i64);
    impl Nd for bool {
        fn from_bytes(b: &[u8]) -> Self { b.first().copied().unwrap_or(0) != 0 }
        fn to_bytes(&self) -> Vec<u8> { vec![*self as u8] }
        fn random(s: &mut u64) -> Self { rng(s) & 1 == 1 }
        fn show(&self) -> String { format!("{self}") }
    }
    macro_rules! floats {
        ($($t:ty, $u:ty);*) => {$(impl Nd for $t {
            fn from_bytes(b: &[u8]) -> Self { <$t>::from_bits(<$u as Nd>::from_bytes(b)) }
            fn to_bytes(&self) -> Vec<u8> { self.to_bits().to_le_bytes().to_vec() }
            fn random(s: &mut u64) -> Self {
                match rng(s) % 8 {
                    0 => <$t>::from_bits(rng(s) as $u),
                    1 => [0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 2.0, 3.0, <$t>::MAX, <$t>::MIN, <$t>::INFINITY, <$t>::NEG_INFINITY, <$t>::NAN, <$t>::MIN_POSITIVE, <$t>::EPSILON, 1.0 - <$t>::EPSILON][(rng(s) % 16) as usize],
                    2 => (rng(s) % 100) as $t,
                    3 => (rng(s) % 2048) as $t / 1024.0 - 1.0,
                    4 => ((rng(s) >> 11) as f64 / (1u64 << 53) as f64) as $t,
                    5 => (rng(s) % 100_000) as $t / 7.0,
                    6 => -(((rng(s) >> 11) as f64 / (1u64 << 53) as f64) as $t),
                    _ => (rng(s) % 16) as $t * 0.25,
                }
            }
            fn show(&self) -> String { format!("{:?}{}", self, stringify!($t)) }
        })*};
    }
    floats!(f32, u32; f64, u64);
    pub fn any<T: Nd>() -> T {
        STATE.with(|s| {
            let s = &mut *s.borrow_mut();
            let v = match &mut s.src {
                Source::Replay { vals, next } => {
                    let v = if *next < vals.len() { T::from_bytes(&vals[*next]) } else { T::from_bytes(&[]) };
                    *next += 1;
                    v
                }
                Source::Random { state } => T::random(state),
            };
            s.trace.push(v.to_bytes());
            s.text.push(v.show());
            v
        })
    }
    pub fn assume(b: bool) {
        if !b {
            std::panic::panic_any(Discard);
        }
    }
    pub fn reached(m: &'static str) {
        STATE.with(|s| {
            let s = &mut *s.borrow_mut();
            if !s.reached.contains(&m) {
                s.reached.push(m)
            }
        })
    }
    #[macro_export]
    macro_rules! reach {
        ($c:expr, $m:literal) => {
            if $c {
                $crate::nd::reached($m)
            }
        };
    }
}
pub use imp::*;

/// A value in `0..n` (n > 0): natively by reduction, so that random runs are not discarded.
#[inline(always)]
pub fn below(n: usize) -> usize {
    let v: u8 = any();
    #[cfg(kani)]
    assume((v as usize) < n);
    #[cfg(not(kani))]
    let v = (v as usize % n) as u8;
    v as usize
}
/// A value in `lo..=hi` of a u32, drawn as a u32.
#[inline(always)]
pub fn range_u32(lo: u32, hi: u32) -> u32 {
    let v: u32 = any();
    #[cfg(kani)]
    assume(v >= lo && v <= hi);
    #[cfg(not(kani))]
    let v = if v >= lo && v <= hi { v } else { lo + (v as u64 % (hi as u64 - lo as u64 + 1)) as u32 };
    v
}
#[inline(always)]
pub fn range_u64(lo: u64, hi: u64) -> u64 {
    let v: u64 = any();
    #[cfg(kani)]
    assume(v >= lo && v <= hi);
    #[cfg(not(kani))]
    let v = if v >= lo && v <= hi { v } else { lo + (v as u128 % (hi as u128 - lo as u128 + 1)) as u64 };
    v
}
/// A finite float in [lo, hi].
#[inline(always)]
pub fn range_f32(lo: f32, hi: f32) -> f32 {
    let v: f32 = any();
    #[cfg(kani)]
    assume(v >= lo && v <= hi);
    #[cfg(not(kani))]
    let v = if v >= lo && v <= hi { v } else { let f = (v.to_bits() as f64) / (u32::MAX as f64); (lo as f64 + f * (hi as f64 - lo as f64)) as f32 };
    v
}
#[inline(always)]
pub fn range_f64(lo: f64, hi: f64) -> f64 {
    let v: f64 = any();
    #[cfg(kani)]
    assume(v >= lo && v <= hi);
    #[cfg(not(kani))]
    let v = if v >= lo && v <= hi { v } else { let f = (v.to_bits() as f64) / (u64::MAX as f64); lo + f * (hi - lo) };
    v
}
