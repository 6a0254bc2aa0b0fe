//! C23: UGens without memory: arithmetic, closures, constants, limiter, panner; and the trigger which marks done.
use crate::probe::{ctx, same, same64};
use crate::sym::{self, Sym, eq};
use crate::{nd, reach};
use knaster_core_dsp::closure::*;
use knaster_core_dsp::dynamics::*;
use knaster_core_dsp::math::{Add, Ceil, Div, Exp, Floor, Fract, Math1UGen, MathUGen, Mul, Pow, Sqrt, Sub, Trunc};
use knaster_core_dsp::pan::*;
use knaster_core_dsp::util::*;
use knaster_graph::typenum::*;
use knaster_graph::*;

/// A block of up to 8 channels of 3 frames.
struct Small<F> {
    d: [[F; 3]; 8],
    channels: usize,
}
impl<F: Float> Small<F> {
    fn new(channels: usize) -> Self {
        Small { d: [[F::ZERO; 3]; 8], channels }
    }
}
impl<F: Float> Block for Small<F> {
    type Sample = F;
    fn channel_as_slice(&self, c: usize) -> &[F] {
        assert!(c < self.channels);
        &self.d[c]
    }
    fn channel_as_slice_mut(&mut self, c: usize) -> &mut [F] {
        assert!(c < self.channels);
        &mut self.d[c]
    }
    fn read(&self, c: usize, t: usize) -> F {
        assert!(c < self.channels);
        self.d[c][t]
    }
    fn write(&mut self, v: F, c: usize, t: usize) {
        assert!(c < self.channels);
        self.d[c][t] = v;
    }
    fn channels(&self) -> usize {
        self.channels
    }
    fn block_size(&self) -> usize {
        3
    }
}
const B: usize = 3;
/// Every sample of every output channel is f of what the inputs are on that frame, frame by frame, in whole blocks
/// and in parts of blocks; nothing is written outside of the part.
fn pure<F: Float, I: Size, O: Size, U: UGen<Sample = F, Inputs = I, Outputs = O>>(u: &mut U, any: fn() -> F, f: impl Fn(&[F], usize) -> F, check: fn(F, F) -> bool) {
    let mut c = ctx(48000, B);
    let mut fl = UGenFlags::new();
    if nd::any() {
        let mut x = Frame::<F, I>::default();
        for i in 0..I::USIZE {
            x[i] = any();
        }
        let y = u.process(&mut c, &mut fl, x.clone());
        for o in 0..O::USIZE {
            assert!(check(y[o], f(&x, o)));
        }
        reach!(true, "frame");
    } else {
        let start = nd::below(B);
        let len = nd::below(B - start) + 1;
        let mut bin = Small::<F>::new(I::USIZE);
        let mut bout = Small::<F>::new(O::USIZE);
        let seven = F::new(7.0);
        for t in 0..B {
            for i in 0..I::USIZE {
                bin.write(any(), i, t);
            }
            for o in 0..O::USIZE {
                bout.write(seven, o, t);
            }
        }
        c.block = c.block.make_partial(start, len);
        {
            let pin = PartialBlock::from_block(&bin, start, len);
            let mut pout = bout.partial_mut(start, len);
            u.process_block(&mut c, &mut fl, &pin, &mut pout);
        }
        for t in 0..B {
            let mut x = Frame::<F, I>::default();
            for i in 0..I::USIZE {
                x[i] = Block::read(&bin, i, t);
            }
            for o in 0..O::USIZE {
                let y = Block::read(&bout, o, t);
                if t >= start && t < start + len {
                    assert!(check(y, f(&x, o)));
                } else {
                    assert!(y == seven);
                }
            }
        }
        reach!(start == 1 && len == 2, "part of a block");
    }
    assert!(fl.done().is_none() && !fl.remove_self() && fl.remove_graph().is_none());
}
macro_rules! arith {
    ($op:ident, $n:ident, $f:expr) => {
        pure(&mut MathUGen::<Sym, $n, $op>::new(), sym::any, |x, c| { let f: fn(Sym, Sym) -> Sym = $f; f(x[c], x[c + $n::USIZE]) }, eq)
    };
}
macro_rules! float1 {
    ($f:ident, $same:ident) => {{
        fn any() -> $f { nd::any() }
        match nd::below(6) {
            0 => pure(&mut Math1UGen::<$f, Ceil>::new(), any, |x, _| x[0].ceil(), $same),
            1 => pure(&mut Math1UGen::<$f, Sqrt>::new(), any, |x, _| x[0].sqrt(), $same),
            2 => pure(&mut Math1UGen::<$f, Floor>::new(), any, |x, _| x[0].floor(), $same),
            3 => pure(&mut Math1UGen::<$f, Trunc>::new(), any, |x, _| x[0].trunc(), $same),
            4 => pure(&mut Math1UGen::<$f, Fract>::new(), any, |x, _| x[0].fract(), $same),
            _ => pure(&mut Math1UGen::<$f, Exp>::new(), any, |x, _| x[0].exp(), $same),
        }
    }};
}
macro_rules! float2 {
    ($f:ident, $same:ident, $n:ident) => {{
        fn any() -> $f { nd::any() }
        const N: usize = $n::USIZE;
        match nd::below(5) {
            0 => pure(&mut MathUGen::<$f, $n, Add>::new(), any, |x, c| x[c] + x[c + N], $same),
            1 => pure(&mut MathUGen::<$f, $n, Sub>::new(), any, |x, c| x[c] - x[c + N], $same),
            2 => pure(&mut MathUGen::<$f, $n, Mul>::new(), any, |x, c| x[c] * x[c + N], $same),
            3 => pure(&mut MathUGen::<$f, $n, Div>::new(), any, |x, c| x[c] / x[c + N], $same),
            _ => pure(&mut MathUGen::<$f, $n, Pow>::new(), any, |x, c| x[c].powf(x[c + N]), $same),
        }
    }};
}
fn limited32(x: f32) -> f32 {
    if x.is_nan() { 0.0 } else if x > 1.0 { 1.0 } else if x < -1.0 { -1.0 } else { x }
}
fn limited64(x: f64) -> f64 {
    if x.is_nan() { 0.0 } else if x > 1.0 { 1.0 } else if x < -1.0 { -1.0 } else { x }
}
fn one<U: UGen>(u: &mut U, c: &mut AudioCtx, fl: &mut UGenFlags, x: U::Sample) -> Frame<U::Sample, U::Outputs> {
    let mut f = Frame::<U::Sample, U::Inputs>::default();
    if U::Inputs::USIZE > 0 {
        f[0] = x;
    }
    u.process(c, fl, f)
}

crate::harnesses! {
    complete("2 channels; a frame, or any part of a block of 3 frames; any samples (free terms)")
    #[kani::unwind(6)]
    fn c23_add() { arith!(Add, U2, |a, b| a + b) }
    complete("as c23_add")
    #[kani::unwind(6)]
    fn c23_sub() { arith!(Sub, U2, |a, b| a - b) }
    complete("as c23_add")
    #[kani::unwind(6)]
    fn c23_mul() { arith!(Mul, U2, |a, b| a * b) }
    complete("as c23_add")
    #[kani::unwind(6)]
    fn c23_div() { arith!(Div, U2, |a, b| a / b) }
    complete("as c23_add")
    #[kani::unwind(6)]
    fn c23_pow() { arith!(Pow, U2, |a, b| num_traits::Float::powf(a, b)) }
    complete("as c23_add, each operation of one input")
    #[kani::unwind(5)]
    fn c23_unary_rounding() {
        use num_traits::Float as N;
        match nd::below(3) {
            0 => pure(&mut Math1UGen::<Sym, Ceil>::new(), sym::any, |x, _| N::ceil(x[0]), eq),
            1 => pure(&mut Math1UGen::<Sym, Floor>::new(), sym::any, |x, _| N::floor(x[0]), eq),
            _ => pure(&mut Math1UGen::<Sym, Trunc>::new(), sym::any, |x, _| N::trunc(x[0]), eq),
        }
    }
    complete("as c23_add, each operation of one input")
    #[kani::unwind(5)]
    fn c23_unary() {
        use num_traits::Float as N;
        match nd::below(3) {
            0 => pure(&mut Math1UGen::<Sym, Sqrt>::new(), sym::any, |x, _| N::sqrt(x[0]), eq),
            1 => pure(&mut Math1UGen::<Sym, Fract>::new(), sym::any, |x, _| N::fract(x[0]), eq),
            _ => pure(&mut Math1UGen::<Sym, Exp>::new(), sym::any, |x, _| N::exp(x[0]), eq),
        }
    }
    complete("every f32, also infinite and NaN; a frame, or any part of a block of 3 frames")
    #[kani::unwind(5)]
    fn c23_limiter_f32() { pure(&mut SafetyLimiter::<f32>::new(), nd::any, |x, _| limited32(x[0]), same) }
    complete("every f64, also infinite and NaN; a frame, or any part of a block of 3 frames")
    #[kani::unwind(5)]
    fn c23_limiter_f64() { pure(&mut SafetyLimiter::<f64>::new(), nd::any, |x, _| limited64(x[0]), same64) }
    complete("any constant, also set to any parameter value; a frame, or any part of a block of 3 frames")
    #[kani::unwind(5)]
    fn c23_constant() {
        let (a, b): (f64, f64) = (nd::any(), nd::any());
        let mut u = Constant::<f64>::new(a);
        let set: bool = nd::any();
        if set {
            u.param_apply(&mut ctx(48000, B), 0, ParameterValue::Float(b));
        }
        let v = if set { b } else { a };
        pure(&mut u, nd::any, |_, _| v, same64);
    }
    native("every operation, f32 and f64, also infinite and NaN, 1 to 4 channels")
    fn c23_floats() {
        match nd::below(8) {
            0 => float1!(f32, same),
            1 => float1!(f64, same64),
            2 => float2!(f32, same, U1),
            3 => float2!(f32, same, U2),
            4 => float2!(f32, same, U3),
            5 => float2!(f64, same64, U1),
            6 => float2!(f64, same64, U2),
            _ => float2!(f64, same64, U4),
        }
    }
    native("closures of 0 to 3 inputs and outputs called over up to 8 frames and blocks; they see the context, the flags and each frame in order")
    fn c23_closures() {
        use std::sync::{Arc, Mutex};
        let log = Arc::new(Mutex::new(vec![]));
        let mut c = ctx(44100, 4);
        let mut want = vec![];
        let mut n = 0.0f64;
        fn feed<U: UGen<Sample = f64>>(u: &mut U, c: &mut AudioCtx, n: &mut f64, want: &mut Vec<Vec<f64>>, check: impl Fn(&[f64], usize) -> f64) {
            let ins = U::Inputs::USIZE;
            for _ in 0..1 + nd::below(8) {
                let mut fl = UGenFlags::new();
                if nd::any() {
                    let mut f = Frame::<f64, U::Inputs>::default();
                    for i in 0..ins {
                        f[i] = *n + i as f64 * 0.25;
                    }
                    *n += 1.0;
                    want.push(f.to_vec());
                    let y = u.process(c, &mut fl, f.clone());
                    for o in 0..U::Outputs::USIZE {
                        assert!(y[o] == check(&f, o));
                    }
                } else {
                    let mut bin = VecBlock::<f64>::new(ins, 4);
                    let mut bout = VecBlock::<f64>::new(<U::Outputs as Unsigned>::USIZE, 4);
                    for t in 0..4 {
                        for i in 0..ins {
                            bin.write(*n + i as f64 * 0.25, i, t);
                        }
                        *n += 1.0;
                        want.push((0..ins).map(|i| Block::read(&bin, i, t)).collect());
                    }
                    u.process_block(c, &mut fl, &bin, &mut bout);
                    for t in 0..4 {
                        let f: Vec<f64> = (0..ins).map(|i| Block::read(&bin, i, t)).collect();
                        for o in 0..U::Outputs::USIZE {
                            assert!(Block::read(&bout, o, t) == check(&f, o));
                        }
                    }
                }
                assert!(fl.done() == Some(3), "the flags of the caller are given to the closure");
            }
        }
        let l = log.clone();
        macro_rules! body {
            ($i:literal, $o:literal) => {{
                let mut u = ugen(move |c: &mut AudioCtx, fl: &mut UGenFlags, x: [f64; $i]| -> [f64; $o] {
                    assert!(c.sample_rate() == 44100);
                    fl.mark_done(3);
                    l.lock().unwrap().push(x.to_vec());
                    core::array::from_fn(|o| x[o % $i] * (o + 2) as f64)
                });
                feed(&mut u, &mut c, &mut n, &mut want, |x, o| x[o % $i] * (o + 2) as f64);
            }};
        }
        match nd::below(7) {
            0 => body!(1, 1),
            1 => body!(2, 1),
            2 => body!(1, 3),
            3 => body!(3, 2),
            4 => body!(8, 8),
            5 => {
                let mut u = ugen::<f64, U0, U1>(move |c: &mut AudioCtx, fl: &mut UGenFlags| {
                    assert!(c.sample_rate() == 44100);
                    fl.mark_done(3);
                    l.lock().unwrap().push(vec![]);
                    5.5
                });
                feed(&mut u, &mut c, &mut n, &mut want, |_, _| 5.5);
            }
            _ => {
                let mut u = ugen::<f64, U1, U0>(move |c: &mut AudioCtx, fl: &mut UGenFlags, x: f64| {
                    assert!(c.sample_rate() == 44100);
                    fl.mark_done(3);
                    l.lock().unwrap().push(vec![x]);
                });
                feed(&mut u, &mut c, &mut n, &mut want, |_, _| 0.0);
            }
        }
        assert!(*log.lock().unwrap() == want, "called once for each frame, in order");
    }
    native("any pan position, signals -10 to 10, changes of position, f32 and f64")
    fn c23_pan() {
        fn run<F: Float>() {
            let mut p = match nd::below(4) { 0 => -1.0, 1 => 1.0, 2 => 0.0, _ => nd::range_f32(-1.0, 1.0) };
            let mut u = Pan2::<F>::new(p);
            let mut c = ctx(48000, B);
            for _ in 0..6 {
                if nd::below(3) == 0 {
                    p = nd::range_f32(-1.0, 1.0);
                    u.param(&mut c, "pan", ParameterValue::Float(p as f64)).unwrap();
                }
                let x = nd::range_f64(-10.0, 10.0);
                let mut fl = UGenFlags::new();
                let y = one(&mut u, &mut c, &mut fl, F::new(x));
                let a = (p as f64 + 1.0) * std::f64::consts::FRAC_PI_4;
                let (l, r) = (Float::to_f64(y[0]), Float::to_f64(y[1]));
                assert!((l - x * a.cos()).abs() <= 2e-3 * x.abs() + 1e-6 && (r - x * a.sin()).abs() <= 2e-3 * x.abs() + 1e-6, "{l} and {r} of {x} at {p}");
            }
        }
        if nd::any() { run::<f32>() } else { run::<f64>() }
    }
    native("up to 10 frames and blocks with a trigger among them")
    fn c23_done_on_trig() {
        let mut u = DoneOnTrig::<f32>::new();
        let mut c = ctx(48000, B);
        let mut trig = false;
        for _ in 0..10 {
            let mut fl = UGenFlags::new();
            match nd::below(3) {
                0 if !trig => {
                    trig = nd::below(4) == 0;
                    if trig {
                        u.param(&mut c, "t_done", ParameterValue::Trigger).unwrap();
                    }
                    continue;
                }
                1 => {
                    let bin = VecBlock::<f32>::new(U0::USIZE, 3);
                    let mut bout = VecBlock::<f32>::new(U0::USIZE, 3);
                    u.process_block(&mut c, &mut fl, &bin, &mut bout);
                }
                _ => { one(&mut u, &mut c, &mut fl, 0.0); }
            }
            assert!(fl.done() == if trig { Some(0) } else { None });
            if trig {
                break;
            }
        }
    }
}
