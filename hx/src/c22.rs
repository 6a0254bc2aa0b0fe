//! C22: the filters. The oracles know nothing of the coefficients used by the code: biquads made from the analogue
//! prototypes by the bilinear transform, and the state variable equations solved for each sample.
use crate::nd;
use crate::probe::ctx;
use knaster_core_dsp::onepole::*;
use knaster_core_dsp::svf::*;
use knaster_graph::*;

const TYPES: [SvfFilterType; 9] = [
    SvfFilterType::Low,
    SvfFilterType::High,
    SvfFilterType::Band,
    SvfFilterType::Notch,
    SvfFilterType::Peak,
    SvfFilterType::All,
    SvfFilterType::Bell,
    SvfFilterType::LowShelf,
    SvfFilterType::HighShelf,
];
/// Numerator and denominator of the analogue prototype at 1 rad/s, highest power first.
fn prototype(ty: SvfFilterType, q: f64, gain: f64) -> ([f64; 3], [f64; 3]) {
    let a = 10f64.powf(gain / 40.0);
    let d = [1.0, 1.0 / q, 1.0];
    let r = a.sqrt();
    match ty {
        SvfFilterType::Low => ([0.0, 0.0, 1.0], d),
        SvfFilterType::High => ([1.0, 0.0, 0.0], d),
        SvfFilterType::Band => ([0.0, 1.0, 0.0], d),
        SvfFilterType::Notch => ([1.0, 0.0, 1.0], d),
        SvfFilterType::Peak => ([1.0, 0.0, -1.0], d),
        SvfFilterType::All => ([1.0, -1.0 / q, 1.0], d),
        SvfFilterType::Bell => ([1.0, a / q, 1.0], [1.0, 1.0 / (a * q), 1.0]),
        SvfFilterType::LowShelf => ([a, a * r / q, a * a], [a, r / q, 1.0]),
        SvfFilterType::HighShelf => ([a * a, a * r / q, a], [1.0, r / q, a]),
    }
}
/// The digital filter which has the response of the prototype at s = (1 - z^-1) / (w (1 + z^-1)).
#[derive(Default)]
struct Biquad {
    b: [f64; 3],
    a: [f64; 3],
    x: [f64; 2],
    y: [f64; 2],
}
impl Biquad {
    fn new(p: ([f64; 3], [f64; 3]), w: f64) -> Biquad {
        let t = |c: [f64; 3]| {
            let (s2, s1, s0) = (c[0] / (w * w), c[1] / w, c[2]);
            [s2 + s1 + s0, 2.0 * s0 - 2.0 * s2, s2 - s1 + s0]
        };
        Biquad { b: t(p.0), a: t(p.1), x: [0.0; 2], y: [0.0; 2] }
    }
    fn next(&mut self, x: f64) -> f64 {
        let y = (self.b[0] * x + self.b[1] * self.x[0] + self.b[2] * self.x[1] - self.a[1] * self.y[0] - self.a[2] * self.y[1]) / self.a[0];
        self.x = [x, self.x[0]];
        self.y = [y, self.y[0]];
        y
    }
}
/// Two trapezoidal integrators in a loop; what they have stored is kept when the parameters change.
#[derive(Default)]
struct Loop {
    s: [f64; 2],
}
impl Loop {
    fn next(&mut self, ty: SvfFilterType, w: f64, q: f64, gain: f64, x: f64) -> f64 {
        let (n, d) = prototype(ty, q, gain);
        // the prototype with s scaled so that its denominator is s^2 + k s + 1
        let r = (d[2] / d[0]).sqrt();
        let (g, k) = (w * r, d[1] / d[0] / r);
        let m = [n[0] / d[0], n[1] / d[0] / r, n[2] / d[0] / (r * r)];
        let high = (x - (k + g) * self.s[0] - self.s[1]) / (1.0 + g * (k + g));
        let band = self.s[0] + g * high;
        let low = self.s[1] + g * band;
        self.s = [band + g * high, low + g * band];
        m[0] * high + m[1] * band + m[2] * low
    }
}
fn param<U: UGen>(name: &str) -> usize {
    U::param_descriptions().iter().position(|d| *d == name).expect("a parameter with that name")
}
fn signal(n: usize, i: usize) -> f64 {
    match n {
        0 => (i == 0) as u8 as f64,
        1 => 1.0,
        2 => nd::range_f64(-1.0, 1.0),
        3 => if i % 7 < 3 { 1.0 } else { -1.0 },
        _ => (i as f64 * 0.3).sin(),
    }
}
fn freq(sr: f64) -> f64 {
    sr * match nd::below(4) { 0 => 0.25, 1 => nd::range_f64(0.0005, 0.01), _ => nd::range_f64(0.002, 0.48) }
}
fn quality() -> f64 {
    match nd::below(4) { 0 => 1.0, 1 => std::f64::consts::FRAC_1_SQRT_2, _ => nd::range_f64(0.1, 30.0) }
}
fn decibel() -> f64 {
    match nd::below(4) { 0 => 0.0, _ => nd::range_f64(-36.0, 36.0) }
}
const RATES: [u32; 4] = [44100, 48000, 96000, 8000];
fn close(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-6 * (1.0 + b.abs())
}
fn one<U: UGen<Sample = f64>>(u: &mut U, c: &mut AudioCtx, x: f64) -> f64
where
    U: UGen<Inputs = typenum::U1, Outputs = typenum::U1>,
{
    u.process(c, &mut UGenFlags::new(), [x].into())[0]
}

crate::harnesses! {
    native("each filter type; 150 samples of impulses, steps, noise, squares and sines; 8 to 96 kHz, 0.05 % to 48 % of the sample rate, Q 0.1 to 30, -36 to 36 dB")
    fn c22_svf_response() {
        let ty = TYPES[nd::below(9)];
        let sr = RATES[nd::below(4)];
        let (f, q, gain) = (freq(sr as f64), quality(), decibel());
        let mut u = SvfFilter::<f64>::new(ty, f, q, gain);
        u.init(sr, 64);
        let w = (std::f64::consts::PI * f / sr as f64).tan();
        let mut want = Biquad::new(prototype(ty, q, gain), w);
        let mut c = ctx(sr, 64);
        let kind = nd::below(5);
        let scale = 10f64.powf(gain.abs() / 20.0) * q.max(1.0);
        for i in 0..150 {
            let x = signal(kind, i);
            let (got, y) = (one(&mut u, &mut c, x), want.next(x));
            assert!((got - y).abs() <= 1e-5 * scale, "{got} and not {y} at frame {i} of {ty:?} at {f} Hz of {sr}, Q {q}, {gain} dB");
        }
    }
    native("up to 12 changes of type, frequency, Q and gain within 150 samples")
    fn c22_svf_changes() {
        type U = SvfFilter<f64>;
        let mut ty = TYPES[nd::below(9)];
        let sr = RATES[nd::below(4)];
        let s = sr as f64;
        let (mut f, mut q, mut gain) = (freq(s), quality(), decibel());
        let mut u = U::new(ty, f, q, gain);
        u.init(sr, 64);
        let mut c = ctx(sr, 64);
        let mut want = Loop::default();
        let kind = nd::below(5);
        for i in 0..150 {
            if nd::below(12) == 0 {
                let (name, v) = match nd::below(5) {
                    0 => { f = freq(s); ("cutoff_freq", ParameterValue::Float(f)) }
                    1 => { q = quality(); ("q", ParameterValue::Float(q)) }
                    2 => { gain = decibel(); ("gain", ParameterValue::Float(gain)) }
                    3 => {
                        let n = nd::below(9);
                        ty = TYPES[n];
                        ("filter", ParameterValue::Integer(PInteger(n)))
                    }
                    _ => ("t_calculate_coefficients", ParameterValue::Trigger),
                };
                u.param(&mut c, param::<U>(name), v).unwrap();
            }
            let x = signal(kind, i);
            let y = want.next(ty, (std::f64::consts::PI * f / s).tan(), q, gain, x);
            let got = one(&mut u, &mut c, x);
            assert!((got - y).abs() <= 1e-6 * (1.0 + y.abs() + want.s[0].abs() + want.s[1].abs()), "{got} and not {y} at frame {i} of {ty:?} at {f} Hz of {sr}, Q {q}, {gain} dB");
        }
    }
    native("2000 samples of noise within -1 to 1 with a change every few samples, then 20000 samples of silence, f32 and f64")
    fn c22_svf_stable() {
        fn run<F: Float>() {
            let sr = RATES[nd::below(4)];
            let q = |_| nd::range_f64(0.2, 4.0);
            let mut u = SvfFilter::<F>::new(TYPES[nd::below(9)], F::new(freq(sr as f64).max(sr as f64 * 0.01)), F::new(q(0)), F::new(decibel()));
            u.init(sr, 64);
            let mut c = ctx(sr, 64);
            let every = 1 + nd::below(50);
            let mut seed = nd::any::<u32>();
            let mut next = |c: &mut AudioCtx, u: &mut SvfFilter<F>, x: f64| Float::to_f64(u.process(c, &mut UGenFlags::new(), [F::new(x)].into())[0]);
            for i in 0..2000 {
                if i % every == 0 && i < 1000 {
                    match nd::below(3) {
                        0 => u.param(&mut c, "cutoff_freq", ParameterValue::Float(freq(sr as f64).max(sr as f64 * 0.01))).unwrap(),
                        1 => u.param(&mut c, "q", ParameterValue::Float(q(0))).unwrap(),
                        _ => u.param(&mut c, "filter", ParameterValue::Integer(PInteger(nd::below(9)))).unwrap(),
                    }
                }
                seed = seed.wrapping_mul(1664525).wrapping_add(1013904223);
                let y = next(&mut c, &mut u, seed as f64 / u32::MAX as f64 * 2.0 - 1.0);
                assert!(y.is_finite() && y.abs() < 1e5, "{y}");
            }
            let mut last = 0.0;
            for _ in 0..20000 {
                last = next(&mut c, &mut u, 0.0);
            }
            assert!(last.abs() < 1e-3, "{last} after a long silence");
        }
        if nd::any() { run::<f32>() } else { run::<f64>() }
    }
    native("up to 120 samples, resets and changes of frequency")
    fn c22_onepole() {
        type L = OnePoleLpf<f64>;
        type H = OnePoleHpf<f64>;
        let sr = RATES[nd::below(4)];
        let coef = |f: f64| (-2.0 * std::f64::consts::PI * f / sr as f64).exp();
        let mut c = ctx(sr, 64);
        let f = freq(sr as f64);
        let (mut l, mut h) = (L::new(f), H::new());
        l.init(sr, 64);
        h.init(sr, 64);
        h.param(&mut c, param::<H>("cutoff_freq"), ParameterValue::Float(f)).unwrap();
        let mut p = OnePole::<f64>::new();
        let mut set = nd::any();
        if set {
            p.set_freq_lowpass(f, sr as f64);
        }
        // before a frequency is set the lowpass lets everything through
        let (mut bl, mut bh, mut bp) = (coef(f), coef(f), if set { coef(f) } else { 0.0 });
        let (mut yl, mut yh, mut yp) = (0.0, 0.0, 0.0);
        let kind = nd::below(5);
        for i in 0..120 {
            match nd::below(16) {
                0 => { let f = freq(sr as f64); bl = coef(f); l.param(&mut c, "cutoff_freq", ParameterValue::Float(f)).unwrap(); }
                1 => { let f = freq(sr as f64); bh = coef(f); h.param(&mut c, "cutoff_freq", ParameterValue::Float(f)).unwrap(); }
                2 => { let f = freq(sr as f64); bp = coef(f); set = true; p.set_freq_lowpass(f, sr as f64); }
                3 => { let f = freq(sr as f64); bp = coef(f); set = true; p.set_freq_highpass(f, sr as f64); }
                4 => { yp = 0.0; p.reset(); }
                5 => { yl = 0.0; l.op.reset(); }
                _ => {}
            }
            let x = signal(kind, i);
            yl = (1.0 - bl) * x + bl * yl;
            yh = (1.0 - bh) * x + bh * yh;
            let (a, b) = (one(&mut l, &mut c, x), one(&mut h, &mut c, x));
            assert!(close(a, yl), "lowpass {a} and not {yl}");
            assert!(close(b, x - yh), "highpass {b} and not {}", x - yh);
            yp = (1.0 - bp) * x + bp * yp;
            let (v, want) = if nd::any() { (p.process_lp(x), yp) } else { (p.process_hp(x), x - yp) };
            assert!(close(v, want), "OnePole {v} and not {want}");
            if set {
                assert!(close(p.cheap_tuning_compensation_lpf(), -2.0 * (1.0 - bp).ln()));
            }
        }
    }
}
