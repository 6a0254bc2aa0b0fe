//! C16: envelopes go in their shape from where they are to where they are set to go, and say when they are done.
use crate::nd;
use crate::probe::ctx;
use knaster_core_dsp::envelopes::*;
use knaster_graph::*;

fn param<U: UGen>(name: &str) -> usize {
    U::param_descriptions().iter().position(|d| *d == name).expect("a parameter with that name")
}
struct Rig<U: UGen<Sample = f64>> {
    u: U,
    cx: AudioCtx,
    bs: usize,
}
impl<U: UGen<Sample = f64>> Rig<U> {
    fn new(mut u: U, sr: u32, bs: usize) -> Self {
        u.init(sr, bs);
        Rig { u, cx: ctx(sr, bs), bs }
    }
    fn set(&mut self, name: &str, v: ParameterValue) {
        self.u.param_apply(&mut self.cx, param::<U>(name), v)
    }
    /// Runs frames one by one, or one block; returns (output, done).
    fn run(&mut self) -> (Vec<f64>, Vec<bool>, Option<Option<u32>>) {
        if nd::any() {
            let mut fl = UGenFlags::new();
            let o = self.u.process(&mut self.cx, &mut fl, Default::default());
            (vec![o[0]], vec![fl.done().is_some()], None)
        } else {
            let mut fl = UGenFlags::new();
            let bin = VecBlock::<f64>::new(1, self.bs);
            let mut bout = VecBlock::<f64>::new(1, self.bs);
            self.u.process_block(&mut self.cx, &mut fl, &bin, &mut bout);
            ((0..self.bs).map(|i| Block::read(&bout, 0, i)).collect(), vec![], Some(fl.done()))
        }
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Stop,
    Attack,
    Sustain,
    Release,
}
/// The specification of an attack-(sustain-)release envelope: `k` frames of a straight line up from `from`,
/// or of a cubic curve down from `from`.
#[derive(Clone, Copy)]
struct Spec {
    st: St,
    v: f64,
    u: f64,
    s: f64,
    a: f64,
    r: f64,
    sustains: bool,
}
impl Spec {
    fn now(&self) -> f64 {
        match self.st {
            St::Stop => 0.0,
            St::Attack => self.v,
            St::Sustain => 1.0,
            St::Release => self.u * self.u * self.u * self.s,
        }
    }
    fn step(&mut self) -> (f64, bool) {
        let o = self.now();
        let mut done = false;
        match self.st {
            St::Attack => {
                self.v += self.a;
                if self.v >= 1.0 {
                    self.st = if self.sustains { St::Sustain } else { St::Release };
                    (self.u, self.s) = (1.0, 1.0);
                }
            }
            St::Release => {
                self.u -= self.r;
                if self.u <= 0.0 {
                    self.st = St::Stop;
                    done = true;
                }
            }
            _ => (),
        }
        (o, done)
    }
    fn restart(&mut self) {
        self.v = self.now();
        self.st = St::Attack;
    }
    fn release(&mut self) {
        if matches!(self.st, St::Attack | St::Sustain) {
            (self.u, self.s) = (1.0, self.now());
            self.st = St::Release;
        }
    }
}
fn rate(frames: f64) -> f64 {
    if frames == 0.0 { 1.0 } else { 1.0 / frames }
}
fn asr<U: UGen<Sample = f64>>(mk: impl Fn(f64, f64) -> U, sustains: bool, exact: bool) {
    // with these times every value is exact
    let time = || -> f64 {
        if exact { [0.0, 1.0, 2.0, 4.0, 8.0, 16.0, 64.0][nd::below(7)] } else { [0.0, 3.0, 7.0, 100.0, nd::range_f64(0.0, 50.0), 0.3][nd::below(6)] }
    };
    let sr = if exact { 1024 } else { [44100, 1000, 1024][nd::below(3)] };
    let (a, r) = (time(), time());
    let mut e = Rig::new(mk(a / sr as f64, r / sr as f64), sr, 1 + nd::below(8));
    let mut m = Spec { st: St::Stop, v: 0.0, u: 0.0, s: 0.0, a: rate(a), r: rate(r), sustains };
    for _ in 0..nd::below(60) {
        match nd::below(8) {
            0 => {
                e.set("t_restart", ParameterValue::Trigger);
                m.restart();
            }
            1 if sustains => {
                e.set("t_release", ParameterValue::Trigger);
                m.release();
            }
            2 => {
                let t = time();
                e.set("attack_time", ParameterValue::Float(t / sr as f64));
                m.a = rate(t);
            }
            3 => {
                let t = time();
                e.set("release_time", ParameterValue::Float(t / sr as f64));
                m.r = rate(t);
            }
            _ => {
                let (o, d, bd) = e.run();
                let mut end = None;
                for (i, x) in o.iter().enumerate() {
                    let was = m;
                    let (want, done) = m.step();
                    assert!((0.0..=1.0).contains(x), "{x} is not in 0 to 1");
                    if exact {
                        assert!((x - want).abs() < 1e-12, "frame {i} is {x} and not {want} ({:?})", was.st);
                        if done {
                            assert!(end.is_none());
                            end = Some(i);
                        }
                        if !d.is_empty() {
                            assert!(d[i] == done, "done is {} and not {done}", d[i]);
                        }
                    } else {
                        // rounding may make a difference of one frame at the corners
                        assert!((x - want).abs() <= 1e-9 + was.a.min(1.0) * (was.st == St::Attack || was.st == St::Sustain || !sustains) as u8 as f64 + 3.0 * was.r.min(1.0), "frame {i} is {x} and not near {want}");
                    }
                }
                if let (true, Some(bd)) = (exact, bd) {
                    assert!(bd == end.map(|i| i as u32), "done in frame {bd:?} and not {end:?}");
                }
            }
        }
    }
}

crate::harnesses! {
    native("up to 60 triggers, time changes, frames and blocks; times which are exact in binary")
    fn c16_asr() { asr(EnvAsr::<f64>::new, true, true) }
    native("up to 60 triggers, time changes, frames and blocks; times which are exact in binary")
    fn c16_ar() { asr(EnvAr::<f64>::new, false, true) }
    native("one attack and release, any times")
    fn c16_any_time() {
        // k frames after the start of the attack, and after the start of the release
        let sr = [44100, 48000, 1000][nd::below(3)];
        let (a, r) = (nd::range_f64(0.0, 40.0), nd::range_f64(0.0, 40.0));
        let ar: bool = nd::any();
        let mut e1 = EnvAsr::<f64>::new(a / sr as f64, r / sr as f64);
        let mut e2 = EnvAr::<f64>::new(a / sr as f64, r / sr as f64);
        let mut cx = ctx(sr, 8);
        UGen::init(&mut e1, sr, 8);
        UGen::init(&mut e2, sr, 8);
        let late = !ar && nd::any();
        if late {
            UGen::param_apply(&mut e1, &mut cx, param::<EnvAsr<f64>>("t_restart"), ParameterValue::Trigger);
        } else {
            UGen::param_apply(&mut e1, &mut cx, param::<EnvAsr<f64>>("t_restart"), ParameterValue::Trigger);
            UGen::param_apply(&mut e2, &mut cx, param::<EnvAr<f64>>("t_restart"), ParameterValue::Trigger);
        }
        let (ra, rr) = (rate(a).min(1.0), rate(r).min(1.0));
        let hold = nd::below(60);
        let mut peak = 1.0;
        let (mut k, mut rel, mut done) = (0usize, None, 0);
        for _ in 0..150 {
            let mut fl = UGenFlags::new();
            if !ar && k == hold {
                peak = (k as f64 * ra).min(1.0);
                UGen::param_apply(&mut e1, &mut cx, param::<EnvAsr<f64>>("t_release"), ParameterValue::Trigger);
                rel = Some(k);
            }
            let x = if ar { UGen::process(&mut e2, &mut cx, &mut fl, Default::default())[0] } else { UGen::process(&mut e1, &mut cx, &mut fl, Default::default())[0] };
            if ar && rel.is_none() && k as f64 * ra > 1.0 - 1e-9 {
                rel = Some(k);
            }
            let down = |r0: usize| { let u = (1.0 - (k - r0) as f64 * rr).max(0.0); u * u * u * peak };
            let want = match rel { None => (k as f64 * ra).min(1.0), Some(r0) => down(r0) };
            // one frame of rounding at the corner between attack and release
            let alt = match rel { Some(r0) if ar && k > r0 => { let u = (1.0 - (k - r0 - 1) as f64 * rr).max(0.0); u * u * u } _ => want };
            assert!((x - want).abs() < 1e-9 || (x - alt).abs() < 1e-9, "frame {k} is {x} and not {want} (attack {a} release {r} frames, released {rel:?})");
            if fl.done().is_some() {
                done += 1;
                let n = k - rel.unwrap() + 1;
                assert!(n as f64 * rr > 1.0 - 1e-9 && (n as f64 - 2.0) * rr < 1.0 + 1e-9, "done after {n} frames of release and not {r}");
            }
            k += 1;
        }
        assert!(done == 1, "done {done} times");
    }
    native("up to 4 segments, up to 60 changes, frames and blocks; times and values which are exact in binary")
    fn c16_envelope() {
        let sr = 1024;
        let start = nd::below(17) as f64 / 8.0 - 1.0;
        let n = 1 + nd::below(4);
        let seg: Vec<(f64, f64)> = (0..n).map(|_| ([0.0, 1.0, 2.0, 4.0, 8.0, 16.0][nd::below(6)], nd::below(17) as f64 / 8.0 - 1.0)).collect();
        let mut scale = [1.0, 0.5, 2.0, 4.0][nd::below(4)];
        let looping: bool = nd::any();
        let mk = seg.iter().map(|(d, v)| EnvelopeSegment::new(*d / sr as f64, *v)).collect();
        let mut e = Rig::new(Envelope::<f64>::new(start, mk).looping(looping).time_scale(scale), sr, 1 + nd::below(8));
        // (segment, frames into it)
        let mut at: Option<(usize, f64)> = None;
        let mut from = start;
        let value = |at: Option<(usize, f64)>, from: f64| match at {
            None => from,
            Some((i, t)) if t < seg[i].0 => from + (seg[i].1 - from) * (t / seg[i].0),
            Some((i, _)) => seg[i].1,
        };
        for _ in 0..nd::below(60) {
            match nd::below(10) {
                0 => {
                    e.set("t_restart", ParameterValue::Trigger);
                    at = Some((0, 0.0));
                    from = start;
                }
                1 => {
                    e.set("t_stop", ParameterValue::Trigger);
                    from = value(at, from);
                    at = None;
                }
                2 => {
                    scale = [1.0, 0.5, 2.0, 0.0, 4.0][nd::below(5)];
                    e.set("time_scale", ParameterValue::Float(scale));
                }
                3 if at.is_none() => {
                    let i = nd::below(6);
                    e.set("jump_to_segment", ParameterValue::Integer(PInteger(i)));
                    at = Some((i.min(n - 1), 0.0));
                }
                _ => {
                    let (o, d, bd) = e.run();
                    let mut any = false;
                    for (i, x) in o.iter().enumerate() {
                        let want = value(at, from);
                        let mut done = false;
                        at = match at {
                            None => None,
                            Some((s, t)) if t < seg[s].0 => Some((s, t + scale)),
                            Some((s, t)) => {
                                from = seg[s].1;
                                if s + 1 < n {
                                    Some((s + 1, t - seg[s].0 + scale))
                                } else if looping {
                                    Some((0, 0.0))
                                } else {
                                    done = true;
                                    None
                                }
                            }
                        };
                        assert!((x - want).abs() < 1e-12, "frame {i} is {x} and not {want}");
                        any |= done;
                        if !d.is_empty() {
                            assert!(d[i] == done, "done is {} and not {done}", d[i]);
                        }
                    }
                    if let Some(bd) = bd {
                        assert!(bd.is_some() == any, "done {bd:?}, and it ended: {any}");
                    }
                }
            }
        }
    }
    native("up to 4 segments of any length and value; the envelope stays between its values, arrives at each of them, and takes as long as it says")
    fn c16_envelope_any() {
        let sr = [44100, 1000, 7][nd::below(3)];
        let start = nd::range_f64(-2.0, 2.0);
        let n = 1 + nd::below(4);
        let seg: Vec<(f64, f64)> = (0..n).map(|_| (if nd::below(8) == 0 { 0.0 } else { nd::range_f64(1e-3, 12.0) }, nd::range_f64(-2.0, 2.0))).collect();
        let mk = seg.iter().map(|(d, v)| EnvelopeSegment::new(*d / sr as f64, *v)).collect();
        let mut e = Envelope::<f64>::new(start, mk);
        let mut cx = ctx(sr, 8);
        e.init(sr, 8);
        e.param_apply(&mut cx, param::<Envelope<f64>>("t_restart"), ParameterValue::Trigger);
        let total: f64 = seg.iter().map(|s| s.0).sum();
        let (lo, hi) = seg.iter().fold((start, start), |(l, h), s| (l.min(s.1), h.max(s.1)));
        let mut k = 0;
        let mut next = 0;
        loop {
            let mut fl = UGenFlags::new();
            let x = e.process(&mut cx, &mut fl, Default::default())[0];
            assert!(x >= lo - 1e-9 && x <= hi + 1e-9, "{x} is not in {lo} to {hi}");
            if k == 0 && seg[0].0 > 0.0 {
                assert!(x == start, "starts at {x} and not {start}");
            }
            if next < n && x == seg[next].1 {
                next += 1;
            }
            k += 1;
            if fl.done().is_some() {
                break;
            }
            assert!(k <= 60, "not done after {k} frames of {total}");
        }
        assert!(next == n, "arrived at {next} of {n} values");
        // each segment which is shorter than a frame takes a whole one
        assert!((k as f64) >= total && (k as f64) <= total + 2.0 + seg.iter().filter(|s| s.0 < 1.0).count() as f64, "{k} frames and not {total}");
        for _ in 0..3 {
            let mut fl = UGenFlags::new();
            let x = e.process(&mut cx, &mut fl, Default::default())[0];
            assert!(x == seg[n - 1].1 && fl.done().is_none());
        }
    }
}
