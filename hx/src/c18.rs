//! C18: random numbers and noise: ranges, distribution, seeds.
use crate::nd;
use crate::probe::ctx;
use knaster_core_dsp::dsp::xorrng::XOrShift32Rng;
use knaster_core_dsp::noise::*;
use knaster_graph::typenum::*;
use knaster_graph::*;

fn frames<U: UGen<Inputs = U0, Outputs = U1>>(u: &mut U, cx: &mut AudioCtx, n: usize) -> Vec<f64>
where
    U::Sample: Float,
{
    let mut fl = UGenFlags::new();
    let v = (0..n).map(|_| Float::to_f64(u.process(cx, &mut fl, Default::default())[0])).collect();
    assert!(fl.done().is_none());
    v
}
fn mean(v: &[f64]) -> f64 {
    v.iter().sum::<f64>() / v.len() as f64
}
/// Half of the mean square of the change over `lag` frames.
fn vario(v: &[f64], lag: usize) -> f64 {
    (lag..v.len()).map(|i| (v[i] - v[i - lag]).powi(2)).sum::<f64>() / (v.len() - lag) as f64 / 2.0
}
/// Exactly one seed is used for each generator, and consecutive generators are different.
fn seeds<U>(mk: impl Fn() -> U) -> (U, U) {
    let s = next_randomness_seed();
    let a = mk();
    let b = mk();
    assert!(next_randomness_seed() == s + 3, "a generator does not take exactly one seed");
    (a, b)
}

crate::harnesses! {
    complete("all states")
    fn c18_xorshift_step() {
        let s: u32 = nd::any();
        let mut r = XOrShift32Rng::new(s);
        let mut q = XOrShift32Rng::new(if s == 0 { 17 } else { s });
        let (a, b) = (r.gen_u32(), q.gen_u32());
        assert!(a == b && a != 0, "the sequence is the one of the seed and never 0");
        let t: u32 = nd::any();
        nd::assume(t != s && t != 0 && s != 0);
        let mut o = XOrShift32Rng::new(t);
        assert!(o.gen_u32() != a, "two states lead to the same one");
    }
    complete("all states")
    fn c18_xorshift_unit() {
        let s: u32 = nd::any();
        let mut r = XOrShift32Rng::new(s);
        let mut q = r;
        let x = r.gen_f32();
        let n = q.gen_u32();
        assert!(x >= 0.0 && x <= 1.0 && x == n as f32 / u32::MAX as f32);
        let y = XOrShift32Rng::new(s).gen_f64();
        assert!(y > 0.0 && y <= 1.0 && y == n as f64 / u32::MAX as f64);
        assert!(r.gen_u32() == q.gen_u32());
    }
    native("sequences of any seed")
    fn c18_xorshift_sequence() {
        let s: u32 = nd::any();
        let mut r = XOrShift32Rng::new(s);
        let mut q = XOrShift32Rng::new(s);
        let v: Vec<u32> = (0..4000).map(|_| r.gen_u32()).collect();
        let mut d = v.clone();
        d.sort();
        d.dedup();
        assert!(d.len() == v.len(), "a number comes twice");
        for x in v.iter() {
            assert!(q.gen_u32() == *x);
        }
        let m = v.iter().skip(50).map(|x| *x as f64 / u32::MAX as f64).sum::<f64>() / 3950.0;
        assert!((m - 0.5).abs() < 0.05, "mean {m}");
        let mut def = XOrShift32Rng::default();
        assert!(def.gen_u32() == XOrShift32Rng::new(17).gen_u32());
    }
    native("4096 frames of each generator")
    fn c18_white() {
        let (mut u, mut w) = seeds(WhiteNoise::<f32>::new);
        let mut cx = ctx(48000, 16);
        u.init(48000, 16);
        w.init(48000, 16);
        let mut c = u.clone();
        let v = frames(&mut u, &mut cx, 4096);
        assert!(v == frames(&mut c, &mut cx, 4096), "a copy does not continue in the same way");
        assert!(v != frames(&mut w, &mut cx, 4096), "two generators are the same");
        assert!(v.iter().all(|x| *x >= -1.0 && *x < 1.0));
        // uniform: mean and quarters
        assert!(mean(&v).abs() < 0.075, "mean {}", mean(&v));
        for q in 0..4 {
            let n = v.iter().filter(|x| ((**x + 1.0) * 2.0) as usize == q).count() as f64 / 4096.0;
            assert!((n - 0.25).abs() < 0.055, "{n} of the samples in the quarter {q}");
        }
        // independent from one frame to the next
        assert!((vario(&v, 1) - 1.0 / 3.0).abs() < 0.06, "variation {}", vario(&v, 1));
        assert!((vario(&v, 2) - 1.0 / 3.0).abs() < 0.06);
    }
    native("65536 frames of pink noise")
    fn c18_pink() {
        let (mut u, mut w) = seeds(PinkNoise::<f64>::new);
        let mut cx = ctx(48000, 16);
        u.init(48000, 16);
        w.init(48000, 16);
        let n = 1 << 16;
        let v = frames(&mut u, &mut cx, n);
        assert!(v[..600] != frames(&mut w, &mut cx, 600)[..], "two generators are the same");
        let worst = v.iter().fold(0.0, |m: f64, x| m.max(x.abs()));
        assert!(worst <= 1.0 + 1e-9, "{worst}");
        // Voss-McCartney: one sequence changes every frame, the others every 2, 4, 8, .. 256 and 256 frames
        for k in [0, 1, 2, 3, 5, 8] {
            let lag = 1usize << k;
            let changed: f64 = 1.0 + (0..9).map(|i| (lag as f64 / (2usize << (i as usize).min(7)) as f64).min(1.0)).sum::<f64>();
            let want = changed / 300.0;
            let got = vario(&v[1024..], lag);
            let tol = 0.05 + 0.05 * (lag as f64).sqrt();
            assert!((got / want - 1.0).abs() < tol, "variation over {lag} frames is {got} and not {want}");
        }
        // hence it is louder in low frequencies than white noise
        assert!(mean(&v).abs() < 0.1);
    }
    native("4096 frames of brown noise")
    fn c18_brown() {
        let (mut u, mut w) = seeds(BrownNoise::<f64>::new);
        let mut cx = ctx(48000, 16);
        u.init(48000, 16);
        w.init(48000, 16);
        let v = frames(&mut u, &mut cx, 4096);
        assert!(v != frames(&mut w, &mut cx, 4096), "two generators are the same");
        let mut last = 0.0;
        let mut d = vec![];
        for x in &v {
            assert!(x.abs() <= 1.0, "{x}");
            assert!((x - last).abs() <= 0.1 + 1e-9, "from {last} to {x}");
            if x.abs() < 0.9 && last.abs() < 0.9 {
                d.push(x - last);
            }
            last = *x;
        }
        let n = d.len() as f64;
        if n > 1000.0 {
            let var = d.iter().map(|x| x * x).sum::<f64>() / n;
            assert!((var * 300.0 - 1.0).abs() < 0.25 && mean(&d).abs() < 0.0129 * 32.0 / n.sqrt(), "steps have a variance of {var}, mean {}", mean(&d));
        }
    }
    native("up to 200 frames and changes of frequency, exact in binary")
    fn c18_random_lin() {
        let sr = 1024;
        let fr = |k: usize| [0.0, 1.0, 16.0, 48.0, 100.0, 256.0, 333.0, 512.0, 1000.0, 1024.0, 3000.0][k];
        let mut f: f64 = fr(nd::below(11));
        let (mut u, _) = seeds(|| RandomLin::<f64>::new(f));
        let mut cx = ctx(sr, 16);
        if nd::below(4) == 0 {
            f = fr(nd::below(11));
            UGen::param_apply(&mut u, &mut cx, 0, ParameterValue::Float(f));
        }
        u.init(sr, 16);
        let (mut phase, mut fresh) = (0.0, true);
        // (phase, output) since the last new number
        let mut line: Vec<(f64, f64)> = vec![];
        let mut firsts = vec![];
        for _ in 0..nd::below(200) {
            if nd::below(16) == 0 {
                f = fr(nd::below(11));
                UGen::param_apply(&mut u, &mut cx, 0, ParameterValue::Float(f));
            }
            let x = frames(&mut u, &mut cx, 1)[0];
            assert!((-1e-12..=1.0 + 1e-12).contains(&x), "{x} is not in 0 to 1");
            if fresh {
                if let Some((_, a)) = line.first() {
                    for (p, y) in &line {
                        let want = a + p * (x - a);
                        assert!((want - y).abs() < 1e-9, "{y} is not on the line from {a} to {x} at {p}");
                    }
                }
                line.clear();
                firsts.push(x);
            }
            line.push((phase, x));
            fresh = phase + f / sr as f64 >= 1.0;
            phase += f / sr as f64;
            if fresh {
                phase = 0.0;
            }
        }
        let n = firsts.len();
        firsts.sort_by(|a, b| a.partial_cmp(b).unwrap());
        firsts.dedup();
        assert!(firsts.len() + 1 >= n.min(50), "the numbers repeat");
        if n > 150 {
            let m = mean(&firsts);
            assert!((m - 0.5).abs() < 0.2, "mean {m}");
        }
    }
}
