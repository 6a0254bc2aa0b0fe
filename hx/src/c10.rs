//! C10: a UGen computes the same signal and the same done state however the frames are divided into blocks.
use crate::nd;
use crate::probe::ctx;
use knaster_core_dsp::closure::{UGenClosure, ugen};
use knaster_core_dsp::*;
use knaster_graph::typenum::*;
use knaster_graph::*;

/// A value in the range of the hint.
pub fn in_hint(h: &ParameterHint, wild: bool) -> ParameterValue {
    match h {
        ParameterHint::Float(_) => {
            let v = match nd::below(6) {
                0 => 0.0,
                1 => 1.0,
                2 => nd::range_f64(0.0, 1.0),
                3 if wild => nd::range_f64(-2.0, 0.0),
                4 => nd::range_f64(0.0, 0.01),
                _ => nd::range_f64(0.0, 2000.0),
            };
            ParameterValue::Float(v)
        }
        ParameterHint::Trigger => ParameterValue::Trigger,
        ParameterHint::Integer(h) => {
            let n = (h.range.1.0 - h.range.0.0).min(20);
            ParameterValue::Integer(PInteger(h.range.0.0 + nd::below(n + 2)))
        }
        ParameterHint::Bool => ParameterValue::Bool(nd::any()),
    }
}
pub fn same(a: f32, b: f32, tol: f32) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()) || a == b || (a - b).abs() <= tol * (1.0 + a.abs())
}
const JUNK: f32 = -987654.25;
/// `a` is run frame by frame, `b` (made the same) in blocks and parts of blocks.
fn split<U: UGen<Sample = f32>>(mut a: U, mut b: U, set: impl Fn(&ParameterHint, usize) -> ParameterValue, tol: f32, low: bool) {
    let sr = if low { [44100, 48000, 1000, 7][nd::below(4)] } else { [44100, 48000, 88200, 22050][nd::below(4)] };
    let bs = 1 + nd::below(16);
    let (mut ca, mut cb) = (ctx(sr, bs), ctx(sr, bs));
    a.init(sr, bs);
    b.init(sr, bs);
    let (ni, no, np) = (U::Inputs::USIZE, U::Outputs::USIZE, U::Parameters::USIZE);
    for _ in 0..1 + nd::below(12) {
        let mut at = 0;
        // one whole block, in one or more parts
        while at < bs {
            if np > 0 && nd::below(3) == 0 {
                let i = nd::below(np);
                let v = set(&U::param_hints()[i], i);
                a.param_apply(&mut ca, i, v);
                b.param_apply(&mut cb, i, v);
            }
            let n = if nd::any() { bs - at } else { 1 + nd::below(bs - at) };
            let mut bin = VecBlock::<f32>::new(ni.max(1), bs);
            let mut bout = VecBlock::<f32>::new(no.max(1), bs);
            for f in 0..bs {
                for c in 0..ni.max(1) {
                    // what is outside of the part is not to be looked at
                    let x = if f < at || f >= at + n { f32::NAN } else if nd::below(4) == 0 { 0.0 } else { nd::range_f32(-1.5, 1.5) };
                    Block::write(&mut bin, x, c, f);
                }
                for c in 0..no.max(1) {
                    Block::write(&mut bout, JUNK, c, f);
                }
            }
            let (mut fa, mut fb) = (UGenFlags::new(), UGenFlags::new());
            let mut want = vec![vec![JUNK; bs]; no];
            for f in at..at + n {
                let mut i = Frame::<f32, U::Inputs>::default();
                for c in 0..ni {
                    i[c] = Block::read(&bin, c, f);
                }
                let o = a.process(&mut ca, &mut fa, i);
                for c in 0..no {
                    want[c][f] = o[c];
                }
            }
            let org = cb.block;
            cb.block = org.make_partial(at, n);
            if n == bs {
                b.process_block(&mut cb, &mut fb, &bin, &mut bout);
            } else {
                b.process_block(&mut cb, &mut fb, &PartialBlock::from_block(&bin, at, n), &mut bout.partial_mut(at, n));
            }
            cb.block = org;
            for c in 0..no {
                for f in 0..bs {
                    let got = Block::read(&bout, c, f);
                    assert!(same(want[c][f], got, tol), "channel {c} frame {f} (part {at}..{} of {bs}) is {got} and frame by frame {}", at + n, want[c][f]);
                }
            }
            assert!(fa.done().is_some() == fb.done().is_some(), "done by block {:?}, frame by frame {:?}", fb.done(), fa.done());
            at += n;
        }
    }
}
fn std<U: UGen<Sample = f32>>(make: impl Fn() -> U) {
    split(make(), make(), |h, _| in_hint(h, true), 0.0, true)
}
/// For UGens which can't be cloned but own nothing: a bitwise copy has the same state, including that of the random number generator.
fn copied<U: UGen<Sample = f32>>(u: U) {
    let c = std::mem::ManuallyDrop::new(u);
    let (a, b) = unsafe { (std::ptr::read(&*c), std::ptr::read(&*c)) };
    split(a, b, |h, _| in_hint(h, false), 0.0, true)
}
fn secs() -> f32 {
    [0.0, 0.001, 0.01, 0.5][nd::below(4)]
}
fn freq() -> f32 {
    [0.0, 1.0, 440.0, 19000.0, 333.3][nd::below(5)]
}

crate::harnesses! {
    native("random partitions of up to 12 blocks of up to 16 frames, random parameter changes")
    fn c10_osc() {
        let f = freq();
        match nd::below(4) {
            0 => std(|| osc::SinWt::<f32>::new(f)),
            1 => std(|| osc::SinNumeric::<f32>::new(f)),
            2 => std(|| osc::Phasor::<f32>::new(f as f64)),
            _ => {
                let w = polyblep::Waveform::from(PInteger(nd::below(14)));
                std(|| polyblep::PolyBlep::<f32>::new(w, f))
            }
        }
    }
    native("random partitions of up to 12 blocks of up to 16 frames, random parameter changes")
    fn c10_envelopes() {
        let (a, r) = (secs(), secs());
        match nd::below(3) {
            0 => std(|| envelopes::EnvAsr::<f32>::new(a, r)),
            1 => std(|| envelopes::EnvAr::<f32>::new(a, r)),
            _ => {
                let l = nd::any();
                let n = 1 + nd::below(4);
                let seg: Vec<_> = (0..n).map(|_| (secs() as f64, nd::range_f64(-1.0, 2.0))).collect();
                std(|| envelopes::Envelope::<f32>::new(0.25, seg.iter().map(|(d, v)| envelopes::EnvelopeSegment::new(*d, *v)).collect()).looping(l))
            }
        }
    }
    native("random partitions of up to 12 blocks of up to 16 frames, random parameter changes")
    fn c10_filters() {
        let f = freq();
        match nd::below(5) {
            0 => std(|| onepole::OnePoleLpf::<f32>::new(f)),
            1 => std(onepole::OnePoleHpf::<f32>::new),
            2 => {
                let t = svf::SvfFilterType::from(PInteger(nd::below(9)));
                let q = nd::range_f32(0.1, 4.0);
                std(|| svf::SvfFilter::<f32>::new(t, f, q, 3.0))
            }
            3 => std(dynamics::SafetyLimiter::<f32>::new),
            _ => std(|| pan::Pan2::<f32>::new(0.25)),
        }
    }
    native("random partitions of up to 12 blocks of up to 16 frames, random parameter changes")
    fn c10_delays() {
        let max = [0.0, 0.001, 0.004, 1.3][nd::below(4)];
        let m = Seconds::from_secs_f64(max);
        let set = |h: &ParameterHint, i: usize| if i == 0 { ParameterValue::Float(nd::range_f64(0.0, max * 1.2 + 0.001)) } else { in_hint(h, true) };
        match nd::below(3) {
            0 => split(delay::SampleDelay::<f32>::new(m), delay::SampleDelay::new(m), set, 0.0, true),
            1 => split(delay::AllpassDelay::<f32>::new(m), delay::AllpassDelay::new(m), set, 0.0, true),
            _ => split(delay::AllpassFeedbackDelay::<f32>::new(m), delay::AllpassFeedbackDelay::new(m), set, 0.0, true),
        }
    }
    native("random partitions of up to 12 blocks of up to 16 frames, random parameter changes")
    fn c10_noise() {
        match nd::below(4) {
            0 => copied(noise::WhiteNoise::<f32>::new()),
            1 => copied(noise::PinkNoise::<f32>::new()),
            2 => copied(noise::BrownNoise::<f32>::new()),
            _ => copied(noise::RandomLin::<f32>::new(freq())),
        }
    }
    native("random partitions of up to 12 blocks of up to 16 frames, random parameter changes")
    fn c10_math() {
        use knaster_core_dsp::math::*;
        match nd::below(12) {
            0 => std(MathUGen::<f32, U1, Add>::new),
            1 => std(MathUGen::<f32, U3, Sub>::new),
            2 => std(MathUGen::<f32, U2, Mul>::new),
            3 => std(MathUGen::<f32, U2, Div>::new),
            4 => std(MathUGen::<f32, U1, Pow>::new),
            5 => std(Math1UGen::<f32, Ceil>::new),
            6 => std(Math1UGen::<f32, Sqrt>::new),
            7 => std(Math1UGen::<f32, Floor>::new),
            8 => std(Math1UGen::<f32, Trunc>::new),
            9 => std(Math1UGen::<f32, Fract>::new),
            10 => std(Math1UGen::<f32, Exp>::new),
            _ => std(|| util::Constant::new(0.75f32)),
        }
    }
    native("random partitions of up to 12 blocks of up to 16 frames, random parameter changes")
    fn c10_buffer() {
        let ch = 1 + nd::below(3);
        let n = nd::below(30);
        let data: Vec<f32> = (0..n * ch).map(|i| i as f32 + 1.0).collect();
        let r = [1.0, 0.5, 1.7, 0.0][nd::below(4)];
        let l = nd::any();
        let bsr = [1000.0, 44100.0][nd::below(2)];
        let set = |h: &ParameterHint, _: usize| match in_hint(h, false) {
            ParameterValue::Float(v) => ParameterValue::Float(v.min(3.0)),
            v => v,
        };
        let mk = || buffer::BufferReader::<f32, U2>::new(dsp::buffer::Buffer::from_vec_interleaved(data.clone(), ch, bsr), r, l);
        split(mk(), mk(), set, 0.0, true)
    }
    native("random partitions of up to 12 blocks of up to 16 frames, random parameter changes")
    fn c10_util() {
        match nd::below(2) {
            0 => std(util::DoneOnTrig::<f32>::new),
            _ => {
                let mk = || -> UGenClosure<f32, U2, U3> {
                    let mut n = 0.0;
                    ugen(move |_: &mut AudioCtx, f: &mut UGenFlags, i: [f32; 2]| {
                        n += 1.0;
                        if n == 9.0 {
                            f.mark_done(0)
                        }
                        [i[0] * n, i[1], n]
                    })
                };
                split(mk(), mk(), |h, _| in_hint(h, true), 0.0, true)
            }
        }
    }
    native("random partitions of up to 12 blocks of up to 16 frames, random parameter changes, no detuning")
    fn c10_galactic() {
        let p = [nd::range_f32(0.0, 1.0), nd::range_f32(0.0, 1.0), nd::range_f32(0.0, 1.0), nd::range_f32(0.0, 1.0)];
        let g = || knaster_airwindows::galactic::Galactic::<f32>::new(p[0], 0.0, p[1], p[2], p[3]);
        // the dither differs by the seed of each
        split(g(), g(), |_, i| ParameterValue::Float(if i == 1 { 0.0 } else { nd::range_f64(0.0, 1.0) }), 1e-4, false)
    }
}
