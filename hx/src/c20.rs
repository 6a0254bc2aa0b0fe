//! C20: messages which are logged on the audio thread arrive whole, once and in order.
use crate::nd;
use crate::probe::ctx;
use knaster_core::log::*;
use knaster_core::rt_log;
use knaster_core_dsp::util::LogProbe;
use knaster_graph::*;
use std::collections::VecDeque;

fn same(a: &ArLogMessage, b: &ArLogMessage) -> bool {
    use ArLogMessage::*;
    match (a, b) {
        (Str(a), Str(b)) => a == b,
        (Float(a), Float(b)) => a.to_bits() == b.to_bits(),
        (Unsigned(a), Unsigned(b)) => a == b,
        (Signed(a), Signed(b)) => a == b,
        (Timestamp(a), Timestamp(b)) => a == b,
        (End, End) => true,
        _ => false,
    }
}
fn msg() -> ArLogMessage {
    match nd::below(8) {
        0 => "a".into(),
        1 => nd::any::<f64>().into(),
        2 => nd::any::<u64>().into(),
        3 => nd::any::<i64>().into(),
        4 => Seconds::new(nd::any(), nd::below(100) as u32).into(),
        5 => "another".into(),
        _ => ArLogMessage::End,
    }
}

crate::harnesses! {
    complete("all values")
    fn c20_messages() {
        use ArLogMessage as M;
        let (a, b, c, d): (u64, u32, u16, u8) = (nd::any(), nd::any(), nd::any(), nd::any());
        assert!(same(&M::from(a), &M::Unsigned(a)) && same(&M::from(b), &M::Unsigned(b as u64)) && same(&M::from(c), &M::Unsigned(c as u64)) && same(&M::from(d), &M::Unsigned(d as u64)));
        assert!(same(&M::from(a as usize), &M::Unsigned(a as usize as u64)));
        let (a, b, c, d): (i64, i32, i16, i8) = (nd::any(), nd::any(), nd::any(), nd::any());
        assert!(same(&M::from(a), &M::Signed(a)) && same(&M::from(b), &M::Signed(b as i64)) && same(&M::from(c), &M::Signed(c as i64)) && same(&M::from(d), &M::Signed(d as i64)));
        let (x, y): (f64, f32) = (nd::any(), nd::any());
        assert!(same(&M::from(x), &M::Float(x)));
        assert!(y.is_nan() || same(&M::from(y), &M::Float(y as f64)));
        let s = Seconds::new(nd::any(), nd::any());
        assert!(same(&M::from(s), &M::Timestamp(s)));
        assert!(M::End.is_end() && !M::from(x).is_end() && !M::from(a).is_end() && !M::from(s).is_end() && !M::from("x").is_end());
    }
    native("up to 3 channels of up to 9 messages, up to 60 messages and receptions")
    fn c20_channels() {
        let caps = [1 + nd::below(9), 1 + nd::below(9), 1 + nd::below(9)];
        let r = ArLogReceiver::new();
        assert!(r.channels() == 0);
        let (s0, r) = r.sender(caps[0]);
        let (s1, r) = r.sender(caps[1]);
        let (s2, mut r) = r.sender(caps[2]);
        assert!(r.channels() == 3);
        let mut s = [s0, s1, s2];
        let mut q: [VecDeque<ArLogMessage>; 3] = Default::default();
        for _ in 0..nd::below(60) {
            if nd::below(6) > 0 {
                let c = nd::below(3);
                let send = |s: &mut [ArLogSender; 3], q: &mut [VecDeque<ArLogMessage>; 3], m: ArLogMessage| {
                    s[c].send(m);
                    // a channel which is full drops the new message
                    if q[c].len() < caps[c] {
                        q[c].push_back(m);
                    }
                };
                if nd::any() {
                    let m = msg();
                    send(&mut s, &mut q, m);
                } else {
                    let (a, b): (f64, i32) = (nd::any(), nd::any());
                    let l = &mut s[c];
                    rt_log!(l; "x", a, b);
                    for m in [ArLogMessage::Str("x"), ArLogMessage::Float(a), ArLogMessage::Signed(b as i64), ArLogMessage::End] {
                        if q[c].len() < caps[c] {
                            q[c].push_back(m);
                        }
                    }
                }
            } else {
                let mut got: Vec<ArLogMessage> = vec![];
                r.recv(|m| {
                    for (i, x) in m.iter().enumerate() {
                        assert!(!x.is_end() || i + 1 == m.len(), "two chains in one call");
                        got.push(*x);
                    }
                });
                let mut want = vec![];
                for c in 0..3 {
                    // whole chains, or what can never become a whole chain
                    let n = match q[c].iter().rposition(|m| m.is_end()) {
                        Some(p) => p + 1,
                        None if q[c].len() == caps[c] => caps[c],
                        None => 0,
                    };
                    want.extend(q[c].drain(..n));
                }
                assert!(got.len() == want.len() && got.iter().zip(&want).all(|(a, b)| same(a, b)), "{got:?} received and not {want:?}");
            }
        }
    }
    native("up to 60 frames of a probe, sample rates up to 12")
    fn c20_probe() {
        let sr = 1 + nd::below(12) as u32;
        let bs = 1 + nd::below(8);
        let (tx, mut rx) = ArLogReceiver::new().sender(4000);
        let mut cx = AudioCtx::new(sr, bs, tx);
        let mut p = LogProbe::<f64>::new("name");
        UGen::init(&mut p, sr, bs);
        let mut want: Vec<f64> = vec![];
        let mut k = 0;
        for _ in 0..nd::below(60) {
            let mut bin = VecBlock::<f64>::new(1, bs);
            for i in 0..bs {
                Block::write(&mut bin, nd::any::<u8>() as f64, 0, i);
            }
            let mut fl = UGenFlags::new();
            let m = if nd::any() { bs } else { 1 };
            if m == bs {
                let mut out = VecBlock::<f64>::new(1, bs);
                UGen::process_block(&mut p, &mut cx, &mut fl, &bin, &mut out);
            } else {
                UGen::process(&mut p, &mut cx, &mut fl, [Block::read(&bin, 0, 0)].into());
            }
            for i in 0..m {
                if k % sr as usize == 0 {
                    want.push(Block::read(&bin, 0, i));
                }
                k += 1;
            }
        }
        let mut got = vec![];
        rx.recv(|m| got.extend_from_slice(m));
        assert!(got.len() == want.len() * 4, "{} messages in {k} frames, and not {}", got.len() / 4, want.len());
        for (g, w) in got.chunks(4).zip(&want) {
            assert!(matches!(g[0], ArLogMessage::Str("Probe")) && matches!(g[1], ArLogMessage::Str("name")) && matches!(g[2], ArLogMessage::Float(x) if x == *w) && g[3].is_end(), "{g:?} and not {w}");
        }
        let _ = ctx(sr, bs);
    }
}
