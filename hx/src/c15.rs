//! C15: delays reproduce their input exactly as many frames later as they say.
use crate::nd;
use crate::probe::ctx;
use knaster_core_dsp::delay::*;
use knaster_graph::*;

fn sample() -> f64 {
    if nd::below(5) == 0 { 0.0 } else { nd::range_f64(-4.0, 4.0) }
}
const SR: [u32; 4] = [1, 10, 1000, 48000];
/// Any delay, most of them close to the length of the buffer or to 0.
fn frames(max: usize) -> f64 {
    match nd::below(12) {
        0 => 0.0,
        1 => nd::range_f64(0.0, 3.0),
        2 => max as f64 + nd::range_f64(-2.0, 2.0),
        3 => nd::range_f64(-5.0, max as f64 * 3.0 + 5.0),
        4 => [f64::NEG_INFINITY, f64::INFINITY, f64::NAN, -1.0, 1e30][nd::below(5)],
        5 | 6 => nd::below(max + 3) as f64,
        7 => nd::below(max + 3) as f64 + [0.5, 0.499, 0.501, 0.01, 0.99][nd::below(5)],
        _ => nd::range_f64(0.0, max as f64),
    }
}
struct Model {
    /// inputs, newest first
    past: Vec<f64>,
    n: usize,
    w: usize,
    c: f64,
    x1: f64,
    y1: f64,
}
impl Model {
    fn new(n: usize) -> Self {
        Model { past: vec![0.0; n + 1], n, w: n, c: 1.0, x1: 0.0, y1: 0.0 }
    }
    fn set(&mut self, d: f64) {
        let d = if d > self.n as f64 || d.is_nan() { self.n as f64 } else if d < 1.0 { 1.0 } else { d };
        let (mut w, mut f) = (d as usize, d - (d as usize) as f64);
        if w > 1 && f < 0.5 {
            w -= 1;
            f += 1.0;
        }
        self.w = w;
        self.c = (1.0 - f) / (1.0 + f);
    }
    fn read(&mut self) -> f64 {
        let x = self.past[self.w - 1];
        let y = self.c * (x - self.y1) + self.x1;
        (self.x1, self.y1) = (x, y);
        y
    }
    fn write(&mut self, x: f64) {
        self.past.insert(0, x);
        self.past.truncate(self.n + 1);
    }
}
fn close(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-7 * (1.0 + a.abs().max(b.abs()))
}

crate::harnesses! {
    native("up to 200 frames through delays of at most 24 frames, changed at random")
    fn c15_sample_delay() {
        let sr = SR[nd::below(4)];
        let max = nd::below(25);
        let mut d = SampleDelay::<f64>::new(Seconds::from_secs_f64((max as f64 + 0.5) / sr as f64));
        let mut cx = ctx(sr, 16);
        let mut fl = UGenFlags::new();
        d.init(sr, 16);
        let mut past = vec![0.0; max + 1];
        let mut now = 0usize;
        for _ in 0..nd::below(200) {
            if nd::below(8) == 0 {
                now = nd::below(max + 5);
                let mut s = (now as f64 + 0.5) / sr as f64;
                if nd::below(10) == 0 {
                    (now, s) = [(0, -1.0), (max, 1e30), (0, -0.0), (max, f64::INFINITY), (max, (max as f64 + 1.0) / sr as f64)][nd::below(5)];
                }
                UGen::param_apply(&mut d, &mut cx, 0, ParameterValue::Float(s));
            }
            let x = sample();
            past.insert(0, x);
            past.truncate(max + 1);
            let o = UGen::process(&mut d, &mut cx, &mut fl, [x].into())[0];
            let want = past[now.min(max)];
            assert!(o.to_bits() == want.to_bits(), "delay of {now} (at most {max}) frames is {o} and not {want}");
        }
    }
    native("up to 200 frames through allpass delays of at most 24 frames, changed at random")
    fn c15_allpass_delay() {
        let sr = SR[nd::below(4)];
        let max = 1 + nd::below(24);
        let fbk: bool = nd::any();
        let secs = Seconds::from_secs_f64((max as f64 + 0.5) / sr as f64);
        let mut a = AllpassDelay::<f64>::new(secs);
        let mut b = AllpassFeedbackDelay::<f64>::new(secs);
        let mut cx = ctx(sr, 16);
        let mut fl = UGenFlags::new();
        UGen::init(&mut a, sr, 16);
        UGen::init(&mut b, sr, 16);
        let mut m = Model::new(max);
        let mut fb = 0.0;
        let mut whole = None;
        let (mut since, mut clearing) = (0, 0usize);
        let mut ins: Vec<f64> = vec![];
        for k in 0..nd::below(200) {
            if k == 0 || (clearing == 0 && nd::below(16) == 0) {
                let f = frames(max);
                let s = f / sr as f64;
                let f = s * sr as f64;
                m.set(f);
                UGen::param_apply(&mut a, &mut cx, 0, ParameterValue::Float(s));
                UGen::param_apply(&mut b, &mut cx, 0, ParameterValue::Float(s));
                whole = if f >= 2.0 && f <= max as f64 && f.fract() == 0.0 { Some(f as usize) } else { None };
                since = 0;
            }
            if nd::below(20) == 0 {
                a.clear();
                b.clear();
                (m.x1, m.y1) = (0.0, 0.0);
                clearing = m.w;
                whole = None;
            }
            if fbk && nd::below(16) == 0 {
                fb = [0.0, 0.5, -0.5, 0.9, 1.0][nd::below(5)];
                UGen::param_apply(&mut b, &mut cx, 1, ParameterValue::Float(fb));
            }
            let x = sample();
            // what was in a cleared delay is not heard again
            let d = if clearing > 0 { 0.0 } else { m.read() };
            if fbk {
                let w = d * fb + x;
                m.write(w);
                let o = UGen::process(&mut b, &mut cx, &mut fl, [x].into())[0];
                assert!(close(o, d - fb * w), "{o} is not {}", d - fb * w);
            } else {
                m.write(x);
                let o = UGen::process(&mut a, &mut cx, &mut fl, [x].into())[0];
                assert!(close(o, d), "{o} is not {d}");
                // a delay of a whole number of frames is exact
                if let (Some(n), true) = (whole, since >= 1) {
                    let want = if k >= n { ins[k - n] } else { 0.0 };
                    assert!(close(o, want), "{o} is not the input {want} of {n} frames ago");
                }
            }
            ins.push(x);
            since += 1;
            clearing = clearing.saturating_sub(1);
        }
    }
    native("up to 100 blocks and frames through static delays of at most 24 frames")
    fn c15_static_delay() {
        let max = 1 + nd::below(24);
        let mut d = StaticSampleDelay::<f64>::new(max);
        let mut len = max;
        let mut q: std::collections::VecDeque<f64> = std::iter::repeat_n(0.0, max).collect();
        for _ in 0..nd::below(100) {
            match nd::below(8) {
                0 => {
                    len = match nd::below(3) {
                        0 => {
                            let l = nd::below(max + 4);
                            d.set_delay_length(l);
                            l
                        }
                        1 => {
                            d.set_delay_length_fraction(0.5);
                            max / 2
                        }
                        _ => {
                            d.set_delay_length_fraction(1.0);
                            max
                        }
                    }
                    .clamp(1, max);
                    // flush: from here on every sample has been written with this length
                    q.clear();
                    for _ in 0..len {
                        let x = sample();
                        d.write_and_advance(x);
                        q.push_back(x);
                    }
                }
                1 | 2 => {
                    let r = d.read();
                    assert!(r == q[0] && d.read() == r, "read {r} and not {}", q[0]);
                    let x = sample();
                    d.write_and_advance(x);
                    q.pop_front();
                    q.push_back(x);
                }
                3 | 4 => {
                    let n = nd::below(len + 1);
                    let mut out = vec![9e9; n];
                    d.read_block(&mut out);
                    for k in 0..n {
                        assert!(out[k] == q[k], "frame {k} of a block of {n} (delay {len}) is {} and not {}", out[k], q[k]);
                    }
                    let ins: Vec<f64> = (0..n).map(|_| sample()).collect();
                    d.write_block_and_advance(&ins);
                    for x in ins {
                        q.pop_front();
                        q.push_back(x);
                    }
                }
                _ => {
                    let n = nd::below(30);
                    let ins: Vec<f64> = (0..n).map(|_| sample()).collect();
                    let mut out = vec![9e9; n];
                    d.process(&ins, &mut out, n);
                    for k in 0..n {
                        let want = q.pop_front().unwrap();
                        assert!(out[k] == want, "frame {k} of {n} (delay {len}) is {} and not {want}", out[k]);
                        q.push_back(ins[k]);
                    }
                }
            }
        }
    }
    native("one read between the frames of a static delay of at most 24 frames")
    fn c15_static_lin() {
        let max = 1 + nd::below(24);
        let mut d = StaticSampleDelay::<f64>::new(max);
        let v: Vec<f64> = (0..max).map(|_| sample()).collect();
        for x in &v {
            d.write_and_advance(*x);
        }
        let i = nd::below(max);
        assert!(d.read_at(i) == v[i]);
        let (w, f) = (nd::below(max * 3), nd::range_f64(0.0, 1.0));
        let f = if f >= 1.0 || nd::below(4) == 0 { 0.0 } else { f };
        let (a, b) = (v[w % max], v[(w + 1) % max]);
        let got = d.read_at_lin(w as f64 + f);
        let f = (w as f64 + f) - w as f64;
        if f < 1.0 {
            let want = a + (b - a) * f;
            assert!(close(got, want), "{got} is not {want}, {f} of the way from {a} to {b}");
        }
    }
}
