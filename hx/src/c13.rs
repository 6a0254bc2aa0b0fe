//! C13: parameter smoothing follows the ramp exactly: from the current value to the new one in the set time.
use crate::nd;
use crate::probe::{ctx, same_value, value};
use knaster_core_dsp::wrappers_core::*;
use knaster_graph::numeric_array::NumericArray;
use knaster_graph::typenum::*;
use knaster_graph::*;

/// Logs the value of both parameters at every frame it processes, and every change which is not a float.
#[derive(Default)]
struct Log {
    cur: [f64; 2],
    at: Vec<[f64; 2]>,
    other: Vec<(usize, ParameterValue)>,
    calls: usize,
    ins: Vec<f32>,
}
struct Follow(*mut Log);
impl UGen for Follow {
    type Sample = f32;
    type Inputs = U1;
    type Outputs = U1;
    type Parameters = U2;
    fn process(&mut self, _: &mut AudioCtx, _: &mut UGenFlags, i: Frame<f32, U1>) -> Frame<f32, U1> {
        let l = unsafe { &mut *self.0 };
        l.at.push(l.cur);
        l.ins.push(i[0]);
        [l.cur[0] as f32].into()
    }
    fn param_hints() -> NumericArray<ParameterHint, U2> {
        Default::default()
    }
    fn param_descriptions() -> NumericArray<&'static str, U2> {
        ["a", "b"].into()
    }
    fn param_apply(&mut self, _: &mut AudioCtx, i: usize, v: ParameterValue) {
        let l = unsafe { &mut *self.0 };
        l.calls += 1;
        match v {
            ParameterValue::Float(f) => l.cur[i] = f,
            v => l.other.push((i, v)),
        }
    }
}
/// The specification of one smoothed parameter.
#[derive(Clone, Copy)]
struct Ramp {
    from: f64,
    to: f64,
    /// frames since the change, and to the end
    k: usize,
    d: usize,
    rate: Rate,
    /// smoothing is on
    on: bool,
    /// at the end value; nothing more to do
    rest: bool,
    /// what the wrapped UGen was last told
    told: f64,
}
impl Ramp {
    fn now(&self) -> f64 {
        if self.rest || self.k >= self.d { self.to } else { self.from + (self.to - self.from) * (self.k as f64 / self.d as f64) }
    }
    fn set(&mut self, v: f64) {
        self.from = self.now();
        self.to = v;
        self.k = 0;
        self.rest = !self.on;
        if !self.on {
            self.told = v;
        }
    }
    fn smooth(&mut self, d: Option<usize>, rate: Rate) {
        match d {
            None => {
                // without smoothing the value stays where it is
                let n = self.now();
                (self.from, self.to, self.rest, self.on) = (n, n, true, false);
            }
            Some(d) => {
                (self.from, self.k, self.d, self.rate, self.on) = (self.now(), 0, d, rate, true);
            }
        }
    }
    /// The values in a block of `n` frames.
    fn block(&mut self, n: usize) -> Vec<f64> {
        let mut v = vec![];
        for i in 0..n {
            if !self.rest {
                match self.rate {
                    Rate::AudioRate => {
                        self.told = self.now();
                        self.rest = self.k >= self.d;
                        self.k += 1;
                    }
                    Rate::BlockRate if i == 0 => {
                        self.told = self.now();
                        self.rest = self.k >= self.d;
                        self.k += n;
                    }
                    _ => (),
                }
            }
            v.push(self.told);
        }
        v
    }
}
fn run(frames_only: bool) {
    let mut log = Log::default();
    let lp = &mut log as *mut Log;
    let l = unsafe { &mut *lp };
    let mut w = Follow(lp).smooth_params();
    let bs = 1 + nd::below(8);
    let sr = if nd::any() { 1024 } else { [44100, 48000, 512, 96000][nd::below(4)] };
    let mut ctx = ctx(sr, bs);
    w.init(sr, bs);
    let mut fl = UGenFlags::new();
    let mut p = [Ramp { from: 0.0, to: 0.0, k: 0, d: 0, rate: Rate::BlockRate, on: false, rest: true, told: 0.0 }; 2];
    let (mut done, mut others) = (0, 0);
    for _ in 0..4 + nd::below(40) {
        let i = nd::below(2);
        match nd::below(8) {
            0 => {
                let secs = match nd::below(3) {
                    0 => 0.0,
                    1 => nd::below(60) as f32 / sr as f32,
                    _ => (nd::below(200) as f32 + 0.37) / sr as f32,
                };
                let rate = if nd::any() { Rate::AudioRate } else { Rate::BlockRate };
                w.param_apply(&mut ctx, i, ParameterValue::Smoothing(ParameterSmoothing::Linear(secs), rate));
                p[i].smooth(Some((secs as f64 * sr as f64) as usize), rate);
            }
            1 if nd::below(6) == 0 => {
                w.param_apply(&mut ctx, i, ParameterValue::Smoothing(ParameterSmoothing::None, Rate::BlockRate));
                p[i].smooth(None, Rate::BlockRate);
            }
            2 => {
                let v = value();
                if !matches!(v, ParameterValue::Smoothing(..) | ParameterValue::Float(_)) {
                    w.param_apply(&mut ctx, i, v);
                    others += 1;
                    assert!(l.other.len() == others && l.other[others - 1].0 == i && same_value(l.other[others - 1].1, v), "a value of another type goes through at once");
                }
            }
            1 | 3 => {
                let v = [0.0, 1.0, -1.0, 0.5, 440.0, 1e-3, -20000.0][nd::below(7)];
                w.param_apply(&mut ctx, i, ParameterValue::Float(v));
                p[i].set(v);
            }
            _ => {
                let n = if frames_only { 1 } else { 1 + nd::below(bs) };
                let (a, b) = (p[0].block(n), p[1].block(n));
                let ins: Vec<f32> = (0..n).map(|_| nd::below(200) as f32).collect();
                if frames_only {
                    let o = w.process(&mut ctx, &mut fl, [ins[0]].into());
                    assert!(o[0] == l.cur[0] as f32);
                } else {
                    let mut bin = VecBlock::<f32>::new(1, bs);
                    let mut bout = VecBlock::<f32>::new(1, bs);
                    let start = nd::below(bs - n + 1);
                    for f in 0..n {
                        Block::write(&mut bin, ins[f], 0, start + f);
                    }
                    let org = ctx.block;
                    ctx.block = org.make_partial(start, n);
                    w.process_block(&mut ctx, &mut fl, &PartialBlock::from_block(&bin, start, n), &mut bout.partial_mut(start, n));
                    assert!(ctx.frames_to_process() == n && ctx.block_start_offset() == start, "the context is restored");
                    ctx.block = org;
                    for f in 0..bs {
                        let want = if f >= start && f < start + n { l.at[done + f - start][0] as f32 } else { 0.0 };
                        assert!(Block::read(&bout, 0, f) == want, "output frame {f}");
                    }
                }
                assert!(l.at.len() == done + n, "every frame is processed once");
                for f in 0..n {
                    assert!(l.ins[done + f] == ins[f], "input frame {f}");
                    for (j, want) in [(0, a[f]), (1, b[f])] {
                        let got = l.at[done + f][j];
                        assert!((got - want).abs() <= 1e-9 * (1.0 + want.abs()), "parameter {j} is {got} and not {want} in frame {f} of {n}");
                    }
                }
                // exactly at the end value in the end
                for j in 0..2 {
                    if p[j].rest && p[j].on {
                        assert!(l.cur[j] == p[j].to || l.cur[j] == p[j].told, "ends exactly");
                    }
                }
                done += n;
            }
        }
    }
}

crate::harnesses! {
    native("two parameters, up to 43 random changes and blocks of up to 8 frames")
    fn c13_blocks() { run(false) }
    native("two parameters, up to 43 random changes and single frames")
    fn c13_frames() { run(true) }
}
