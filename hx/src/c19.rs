//! C19: buffers and their playback.
use crate::nd;
use crate::probe::ctx;
use knaster_core_dsp::buffer::BufferReader;
use knaster_core_dsp::dsp::buffer::Buffer;
use knaster_graph::typenum::*;
use knaster_graph::*;

fn data(n: usize) -> Vec<f64> {
    (0..n).map(|_| match nd::below(4) { 0 => nd::below(9) as f64, _ => nd::range_f64(-1.0, 1.0) }).collect()
}
/// The value between two frames; silence outside of the buffer. After the last frame comes the first one.
fn at(d: &[f64], ch: usize, index: f64, c: usize) -> f64 {
    let n = d.len() / ch;
    let i = index.floor() as usize;
    if c >= ch || i >= n {
        return 0.0;
    }
    let m = index - index.floor();
    d[i * ch + c] * (1.0 - m) + d[(i + 1) % n * ch + c] * m
}
fn param<U: UGen>(name: &str) -> usize {
    U::param_descriptions().iter().position(|d| *d == name).expect("a parameter with that name")
}
fn close(a: f64, b: f64) -> bool {
    a == b || (a - b).abs() <= 1e-9 * (1.0 + b.abs())
}

crate::harnesses! {
    native("buffers of up to 20 frames and 4 channels, reads at any index")
    fn c19_buffer() {
        let ch = 1 + nd::below(4);
        let n = nd::below(21);
        let sr = [44100.0, 48000.0, 1000.0][nd::below(3)];
        let d = data(n * ch);
        let b = if ch == 1 && nd::any() { Buffer::from_vec(d.clone(), sr) } else { Buffer::from_vec_interleaved(d.clone(), ch, sr) };
        assert!(b.num_frames() == n as f64 && b.num_channels() == ch && b.sample_rate() == sr);
        assert!(b.length_seconds() == n as f64 / sr);
        let server = 1 + nd::below(200) as u32 * 500;
        assert!(close(b.buf_rate_scale(server) * server as f64, sr));
        for i in 0..n {
            assert!(b.get_interleaved(i) == &d[i * ch..(i + 1) * ch]);
        }
        for _ in 0..20 {
            let i = match nd::below(6) { 0 => nd::range_f64(0.0, 1e12), 1 => n as f64, 2 => (n as f64 - 0.25).max(0.0), 3 => nd::below(n + 2) as f64, _ => nd::range_f64(0.0, n as f64 + 1.0) };
            let c = nd::below(ch + 2);
            let want = at(&d, ch, i, c);
            let (x, y) = (b.get_linear_interp_f64(i, c), b.get_linear_interp(i, c));
            assert!(close(x, want) && close(y, want), "{x} and {y} at {i} of channel {c} and not {want} ({n} frames of {ch} channels)");
        }
        let z = Buffer::<f64>::new(n, ch, sr);
        assert!(z.num_frames() == n as f64 && z.num_channels() == ch && z.sample_rate() == sr);
        for i in 0..n {
            assert!(z.get_interleaved(i) == &vec![0.0; ch]);
        }
        // the DC filter of each channel
        let mut f = b.clone();
        f.remove_dc();
        for c in 0..ch {
            let (mut y, mut x1) = (0.0, 0.0);
            for i in 0..n {
                let x = d[i * ch + c];
                y = 0.999 * y + x - x1;
                x1 = x;
                let got = f.get_interleaved(i)[c];
                assert!((got - y).abs() < 1e-9, "{got} without DC and not {y}");
            }
        }
        assert!(f.num_frames() == n as f64 && f.num_channels() == ch);
    }
    native("up to 60 changes, frames and blocks of readers of buffers of up to 24 frames; times which are exact in binary")
    fn c19_reader() {
        type R = BufferReader<f64, U2>;
        let ch = 1 + nd::below(3);
        let n = nd::below(25);
        let bsr = 512.0;
        let sr = [512, 256, 1024][nd::below(3)];
        let d = data(n * ch);
        let rates = [1.0, 0.5, 2.0, 0.0, 0.75, 5.0];
        let mut rate = rates[nd::below(6)];
        let mut looping: bool = nd::any();
        let mut r = R::new(Buffer::from_vec_interleaved(d.clone(), ch, bsr), rate, looping);
        let (mut start, mut dur) = (0.0, n as f64);
        if nd::any() {
            start = nd::below(20) as f64;
            r = r.start_at(Seconds::from_secs_f64(start / bsr));
        }
        let bs = 1 + nd::below(8);
        let mut cx = ctx(sr, bs);
        r.init(sr, bs);
        let mut end = start + dur;
        let (mut p, mut on) = (start, true);
        for _ in 0..nd::below(60) {
            let set = |r: &mut R, cx: &mut AudioCtx, name: &str, v: ParameterValue| UGen::param_apply(r, cx, param::<R>(name), v);
            let t = nd::below(40) as f64 / 2.0;
            match nd::below(24) {
                0 => {
                    rate = rates[nd::below(6)];
                    set(&mut r, &mut cx, "rate", ParameterValue::Float(rate));
                }
                1 => {
                    looping = nd::any();
                    set(&mut r, &mut cx, "looping", ParameterValue::Bool(looping));
                }
                2 => {
                    set(&mut r, &mut cx, "start_s", ParameterValue::Float(t / bsr));
                    start = t;
                    end = start + dur;
                }
                3 => {
                    let all: bool = nd::any();
                    set(&mut r, &mut cx, "duration_s", ParameterValue::Float(if all { -1.0 } else { t / bsr }));
                    dur = if all { n as f64 } else { t };
                    end = start + dur;
                }
                4 => {
                    set(&mut r, &mut cx, "end_s", ParameterValue::Float(t / bsr));
                    end = t;
                }
                5 | 6 => {
                    set(&mut r, &mut cx, "t_restart", ParameterValue::Trigger);
                    (p, on) = (start, true);
                }
                k => {
                    let whole = k % 2 == 0;
                    let m = if whole { bs } else { 1 };
                    let mut fl = UGenFlags::new();
                    let mut out = VecBlock::<f64>::new(2, bs);
                    if whole {
                        let bin = VecBlock::<f64>::new(1, bs);
                        for c in 0..2 {
                            out.channel_as_slice_mut(c).fill(77.0);
                        }
                        UGen::process_block(&mut r, &mut cx, &mut fl, &bin, &mut out);
                    } else {
                        let o = UGen::process(&mut r, &mut cx, &mut fl, Default::default());
                        Block::write(&mut out, o[0], 0, 0);
                        Block::write(&mut out, o[1], 1, 0);
                    }
                    let mut done = false;
                    for i in 0..m {
                        for c in 0..2 {
                            let want = if on { at(&d, ch, p, c) } else { 0.0 };
                            let got = Block::read(&out, c, i);
                            assert!(close(got, want), "frame {i} of channel {c} is {got} and not {want}, at {p} of {start} to {end}");
                        }
                        if on {
                            p += rate * bsr / sr as f64;
                            if p >= end {
                                if looping { p = start } else { on = false; done = true }
                            }
                        }
                    }
                    assert!(fl.done().is_some() == done, "done {:?}, and it ended: {done}", fl.done());
                }
            }
        }
    }
}
