//! C17: oscillators output their waveform at the phase which their frequency, offset and resets define.
use crate::probe::ctx;
use crate::{nd, reach};
use core::f64::consts::{PI, TAU};
use knaster_core_dsp::dsp::wavetable::*;
use knaster_core_dsp::osc::*;
use knaster_core_dsp::polyblep::*;
use knaster_graph::*;

fn param<U: UGen>(name: &str) -> usize {
    U::param_descriptions().iter().position(|d| *d == name).expect("a parameter with that name")
}
fn frac(x: f64) -> f64 {
    x - x.floor()
}
/// The distance of two phases on the circle.
fn apart(a: f64, b: f64) -> f64 {
    let d = frac(a - b);
    d.min(1.0 - d)
}
fn sr() -> u32 {
    [44100, 48000, 1000, 96000][nd::below(4)]
}
fn freq(sr: u32) -> f64 {
    let s = sr as f64;
    match nd::below(6) {
        0 => 0.0,
        1 => nd::range_f64(0.0, s * 0.5),
        2 => s / (1 + nd::below(64)) as f64,
        3 => 440.0,
        4 => nd::range_f64(0.0, s * 0.01),
        _ => nd::range_f64(0.0, s),
    }
}
/// Runs an oscillator in random blocks with frequency changes, offsets and resets: `check(output, phase, error)` for every frame.
fn run<U: UGen<Sample = F>, F: Float>(mk: impl Fn(f64) -> U, has_offset: bool, negative: bool, check: impl Fn(f64, f64, f64, f64)) {
    let sr = sr();
    let f0 = freq(sr);
    let bs = 1 + nd::below(16);
    let mut u = mk(f0);
    let mut cx = ctx(sr, bs);
    u.init(sr, bs);
    let (mut f, mut phase, mut off, mut err) = (f0, 0.0, 0.0, 0.0);
    for _ in 0..nd::below(20) {
        match nd::below(6) {
            0 => {
                f = freq(sr);
                if negative && nd::below(3) == 0 {
                    f = -f;
                }
                u.param_apply(&mut cx, param::<U>("freq"), ParameterValue::Float(f));
            }
            1 if has_offset => {
                off = if nd::any() { nd::range_f64(0.0, 1.0) } else { [0.0, 0.25, 0.5, 0.75, 1.0][nd::below(5)] };
                u.param_apply(&mut cx, param::<U>("phase_offset"), ParameterValue::Float(off));
            }
            2 if has_offset && nd::below(3) == 0 => {
                u.param_apply(&mut cx, param::<U>("reset_phase"), ParameterValue::Trigger);
                (phase, err) = (0.0, 0.0);
            }
            _ => {
                let mut fl = UGenFlags::new();
                let n = if nd::any() { bs } else { 1 };
                let bin = VecBlock::<F>::new(1, bs);
                let mut bout = VecBlock::<F>::new(1, bs);
                if n == bs {
                    u.process_block(&mut cx, &mut fl, &bin, &mut bout);
                } else {
                    let x = u.process(&mut cx, &mut fl, Default::default());
                    Block::write(&mut bout, x[0], 0, 0);
                }
                for i in 0..n {
                    check(Float::to_f64(Block::read(&bout, 0, i)), phase + off, err, f / sr as f64);
                    phase = frac(phase + f / sr as f64);
                    err += 1.0;
                }
                assert!(fl.done().is_none());
            }
        }
    }
}
/// The waveform without band limiting at the phase t, and its corners.
fn naive(w: usize, t: f64, pw: f64) -> (f64, Vec<f64>) {
    let tri = |t: f64| { let y = 4.0 * t; if y >= 3.0 { y - 4.0 } else if y > 1.0 { 2.0 - y } else { y } };
    match w {
        0 => (2.0 * frac(t + 0.5) - 1.0, vec![0.5]),
        1 => ((t * TAU).sin(), vec![]),
        2 => ((t * TAU).cos(), vec![]),
        3 => (tri(t), vec![0.25, 0.75]),
        4 => (if t < 0.5 { 1.0 } else { -1.0 }, vec![0.0, 0.5]),
        5 => (if t < pw { 2.0 - 2.0 * pw } else { -2.0 * pw }, vec![0.0, pw]),
        6 => (1.0 - 2.0 * t, vec![0.0]),
        // peak at half the pulse width, crossing 0 at 0 and 0.5
        7 => {
            let h = pw / 2.0;
            (if t < h { t / h } else if t > 1.0 - h { (t - 1.0) / h } else { 1.0 - (t - h) / (0.5 - h) }, vec![h, 1.0 - h])
        }
        8 => {
            // two square waves, a pulse width apart
            let t1 = frac(t + 0.875 + 0.25 * (pw - 0.5));
            let t2 = frac(t1 + 0.5 * (1.0 - pw));
            let s = |t: f64| if t < 0.5 { 0.5 } else { -0.5 };
            let c = -(0.875 + 0.25 * (pw - 0.5));
            let d = c - 0.5 * (1.0 - pw);
            (s(t1) + s(t2), vec![frac(c), frac(c + 0.5), frac(d), frac(d + 0.5)])
        }
        9 => (if t < 0.5 { 2.0 * (t * TAU).sin() } else { 0.0 } - 2.0 / PI, vec![0.0, 0.5]),
        10 => (2.0 * (frac(t + 0.25) * PI).sin() - 4.0 / PI, vec![0.75]),
        11 => {
            let u = frac(t + 0.75 + 0.5 * pw);
            let h = pw / 2.0;
            (if u >= pw { 0.0 } else if u < h { 2.0 * u / h } else { 2.0 * (pw - u) / h } - pw, vec![frac(-(0.75 + h)), frac(-0.75), frac(-0.75 + h)])
        }
        12 => ((2.0 * tri(t)).clamp(-1.0, 1.0), vec![0.125, 0.375, 0.625, 0.875]),
        _ => {
            let a = 0.25 - 0.25 * pw;
            ((tri(t) / (1.0 - pw)).clamp(-1.0, 1.0), vec![a, 0.5 - a, 0.5 + a, 1.0 - a])
        }
    }
}
fn table() -> Vec<f64> {
    let (a, b, c) = (nd::range_f64(-1.0, 1.0), nd::range_f64(0.1, 9.0), nd::range_f64(0.0, 1.0));
    (0..TABLE_SIZE).map(|i| a * (i as f64 * b).sin() + c * (i % 7) as f64).collect()
}

crate::harnesses! {
    complete("all phases and steps")
    fn c17_phase() {
        let (a, b): (u32, u32) = (nd::any(), nd::any());
        let p = WavetablePhase(a);
        assert!(TABLE_SIZE as u64 * (TABLE_HIGH_MASK as u64 + 1) == (TABLE_SIZE as u64) * (TABLE_SIZE as u64) && TABLE_SIZE == 1 << TABLE_POWER);
        // lookups are in the table, and whole and fractional part are the phase in one period of the table
        assert!(p.integer_component() < TABLE_SIZE);
        assert!(p.fractional_component() < FRACTIONAL_PART);
        assert!((p.integer_component() as u64 * FRACTIONAL_PART as u64 + p.fractional_component() as u64) == a as u64 % (TABLE_SIZE as u64 * FRACTIONAL_PART as u64));
        let f = p.fractional_component_f32();
        assert!(f >= 0.0 && f <= 1.0);
        // adding steps is adding modulo the period
        let period = TABLE_SIZE as u64 * FRACTIONAL_PART as u64;
        let mut q = p;
        q.increase(b);
        assert!((a as u64 + b as u64) % period == q.0 as u64 % period);
        assert!((WavetablePhase(a) + WavetablePhase(b)).0 as u64 % period == (a as u64 + b as u64) % period);
        reach!(p.integer_component() == TABLE_SIZE - 1, "last sample of the table");
    }
    native("up to 20 changes, frames and blocks of up to 16 frames")
    fn c17_sin_wt() {
        run::<SinWt<f32>, f32>(|f| SinWt::new(f as f32), true, false, |x, p, n, inc| {
            // the table has a resolution, frequencies have one of f32, and the steps one of 2^-30
            let tol = TAU * (1.25 / TABLE_SIZE as f64 + n * (2e-9 + inc.abs() * 1.3e-7)) + 1e-6;
            let want = (TAU * p).sin();
            assert!((x - want).abs() <= tol, "{x} at the phase {p} and not {want}");
        })
    }
    native("up to 20 changes, frames and blocks of up to 16 frames")
    fn c17_sin_numeric() {
        run::<SinNumeric<f64>, f64>(|f| SinNumeric::new(f), true, true, |x, p, n, _| {
            let want = (TAU * p).sin();
            assert!((x - want).abs() <= 1e-6 + n * 1e-9, "{x} at the phase {p} and not {want}");
        })
    }
    native("up to 20 changes, frames and blocks of up to 16 frames")
    fn c17_phasor() {
        run::<Phasor<f64>, f64>(|f| Phasor::new(f), false, true, |x, p, _, _| {
            assert!((0.0..=1.0).contains(&x), "{x} is not in 0 to 1");
            assert!(apart(x, p) <= 1e-9, "{x} at the phase {p}");
        })
    }
    native("up to 20 changes, frames and blocks of up to 16 frames, all waveforms and pulse widths")
    fn c17_polyblep() {
        let w0 = nd::below(14);
        let pw = [0.5, 0.25, 0.1, 0.8, nd::range_f64(0.05, 0.95)][nd::below(5)];
        let by_param: bool = nd::any();
        run::<PolyBlep<f64>, f64>(|f| {
            let mut p = PolyBlep::<f64>::new(Waveform::from(PInteger(if by_param { 0 } else { w0 })), f);
            let mut cx = ctx(48000, 8);
            if by_param {
                UGen::param_apply(&mut p, &mut cx, param::<PolyBlep<f64>>("waveform"), ParameterValue::Integer(PInteger(w0)));
            }
            UGen::param_apply(&mut p, &mut cx, param::<PolyBlep<f64>>("pulse_width"), ParameterValue::Float(pw));
            p
        }, false, false, |x, p, n, dt| {
            let t = frac(p);
            // half of the sample rate and more: only the fundamental
            if dt > 0.25 + 1e-9 {
                assert!((x - (TAU * t).sin()).abs() <= 1e-6 + n * 1e-8, "{x} at the phase {t}, step {dt}");
                return;
            }
            if dt > 0.25 - 1e-9 {
                return;
            }
            let (want, corners) = naive(w0, t, pw);
            let near = corners.iter().map(|c| apart(t, *c)).fold(1.0, f64::min);
            // band limiting only affects the samples next to a corner
            if near > dt + 1e-6 {
                assert!((x - want).abs() <= 1e-6, "waveform {w0} is {x} and not {want} at the phase {t} (pulse width {pw}, step {dt})");
            }
            assert!(x.abs() <= 3.0, "{x}");
        })
    }
    native("tables of any content, all phases and frequencies")
    fn c17_wavetable() {
        let b = table();
        let mut t = NonAaWavetable::<f64>::new();
        t.set_from_buffer(b.clone());
        let (m, v) = (nd::range_f64(-2.0, 2.0), nd::range_f64(-1.0, 1.0));
        let mul: bool = nd::any();
        let b: Vec<f64> = if mul { t.multiply(m); b.iter().map(|x| x * m).collect() } else { b };
        let w = Wavetable::from_buffer(b.clone()).unwrap();
        for _ in 0..50 {
            let p = WavetablePhase(nd::any());
            let i = p.integer_component();
            let f: f64 = match nd::below(4) { 0 => nd::any(), _ => nd::range_f64(0.0, 24000.0) };
            assert!(t.get(p) == b[i] && w.get(p, f) == b[i]);
            let want = b[i] + (b[(i + 1) % TABLE_SIZE] - b[i]) * (p.fractional_component() as f64 / FRACTIONAL_PART as f64);
            for got in [t.get_linear_interp(p), w.get_linear_interp(p, f)] {
                // the fraction is one of 65535 and not of 65536
                let d = (b[(i + 1) % TABLE_SIZE] - b[i]).abs();
                assert!((got - want).abs() <= 2e-5 * d + 1e-6 * (1.0 + want.abs()), "{got} and not {want} at {:?}", p);
            }
        }
        if nd::below(4) == 0 {
            t.fill(v);
            let p = WavetablePhase(nd::any());
            assert!(t.get(p) == v && t.get_linear_interp(p) == v);
        }
        let short = nd::below(100);
        assert!(Wavetable::<f64>::from_buffer(vec![0.0; TABLE_SIZE - 1 - short]).is_err() && Wavetable::<f64>::from_buffer(vec![0.0; TABLE_SIZE + 1 + short]).is_err());
    }
    native("the standard wavetables at any phase")
    fn c17_shapes() {
        type T = NonAaWavetable<f64>;
        let k = nd::below(7);
        let (f, a, ph) = ((1 + nd::below(9)) as f64, nd::range_f64(-2.0, 2.0), nd::range_f64(0.0, 6.0));
        let nh = 1 + nd::below(6);
        let t = match k {
            0 => T::sine(),
            1 => T::cosine(),
            2 => T::aliasing_saw(),
            3 => T::hann_window(),
            4 => T::hamming_window(),
            5 => T::sine_window(),
            _ => {
                let mut t = T::new();
                t.add_sine(f, a, ph);
                t.fill_sine(nh, f);
                t
            }
        };
        for _ in 0..30 {
            let p = WavetablePhase(nd::any());
            let x = p.integer_component() as f64 / TABLE_SIZE as f64;
            let want = match k {
                0 => (TAU * x).sin(),
                1 => (TAU * x).cos(),
                2 => 2.0 * x - 1.0,
                3 => 0.5 - 0.5 * (TAU * x).cos(),
                4 => 0.53836 - 0.46164 * (TAU * x).cos(),
                5 => (PI * x).sin(),
                _ => a * (TAU * f * x + ph).sin() + (0..nh).map(|n| (TAU * f * (n + 1) as f64 * x).sin() * if n == 0 { 1.0 } else { 0.5 * (nh - n) as f64 / nh as f64 }).sum::<f64>(),
            };
            let got = t.get(p);
            assert!((got - want).abs() <= 1e-6, "shape {k} is {got} and not {want} at {x}");
        }
    }
    native("any frequency and phase of a PolyBlep, set at any time")
    fn c17_sync() {
        let w = nd::below(14);
        let mut p = PolyBlep::<f64>::new(Waveform::from(PInteger(w)), 0.0);
        let mut cx = ctx(48000, 8);
        let mut fl = UGenFlags::new();
        UGen::init(&mut p, 48000, 8);
        let f = nd::range_f64(1.0, 200.0);
        UGen::param_apply(&mut p, &mut cx, param::<PolyBlep<f64>>("freq"), ParameterValue::Float(f));
        let ph = nd::range_f64(0.0, 5.0);
        p.sync(ph);
        let mut t = frac(ph);
        for _ in 0..10 {
            let x = UGen::process(&mut p, &mut cx, &mut fl, Default::default())[0];
            let (want, corners) = naive(w, t, 0.5);
            if corners.iter().map(|c| apart(t, *c)).fold(1.0, f64::min) > f / 48000.0 + 1e-6 {
                assert!((x - want).abs() <= 1e-6, "waveform {w} is {x} and not {want} at the phase {t}");
            }
            t = frac(t + f / 48000.0);
        }
    }
}
