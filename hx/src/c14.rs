//! C14: an audio rate parameter follows its buffer frame by frame; nothing else changes.
use crate::probe::*;
use crate::sym::{self, Sym, eq};
use crate::{nd, reach};
use knaster_core_dsp::wrappers_core::*;
use knaster_graph::typenum::*;
use knaster_graph::*;

const BS: usize = 4;
/// Two blocks in up to two parts each; parameters with and without a buffer; direct changes in between.
fn follow<W: UGen<Sample = Sym, Inputs = U1, Outputs = U2>>(mk: impl Fn(Probe<Sym>) -> W, frames: bool, f: impl Fn(Sym) -> Sym) {
    let mut rec = Rec::new(sym::any);
    let rp = &mut rec as *mut Rec<Sym>;
    let r = unsafe { &mut *rp };
    let mut w = mk(Probe(rp));
    let mut ctx = ctx(48000, BS);
    let mut fl = UGenFlags::new();
    let b0 = [sym::any(), sym::any(), sym::any(), sym::any()];
    let b1 = [sym::any(), sym::any(), sym::any(), sym::any()];
    let (c0, c1): (bool, bool) = (nd::any(), nd::any());
    let (d0, d1): (u32, u32) = (nd::any(), nd::any());
    let want = |i: usize, k: usize| -> f64 {
        match i {
            0 => if c0 { Float::to_f64(b0[k]) } else { d0 as f64 },
            _ => if c1 { Float::to_f64(b1[k]) } else { d1 as f64 },
        }
    };
    unsafe {
        if c0 {
            w.set_ar_param_buffer(&mut ctx, 0, b0.as_ptr());
        }
        if c1 {
            w.set_ar_param_buffer(&mut ctx, 1, b1.as_ptr());
        }
    }
    let n = r.params;
    w.param_apply(&mut ctx, 0, ParameterValue::Float(d0 as f64));
    w.param_apply(&mut ctx, 1, ParameterValue::Float(d1 as f64));
    assert!(r.params == n + !c0 as usize + !c1 as usize);
    let mut bin = StaticBlock::<Sym, U1, U4>::new();
    let mut bout = StaticBlock::<Sym, U2, U4>::new();
    for i in 0..BS {
        bin.write(sym::any(), 0, i);
    }
    if frames {
        for i in 0..BS {
            let o = w.process(&mut ctx, &mut fl, [bin.read_(i)].into());
            bout.write(o[0], 0, i);
            bout.write(o[1], 1, i);
        }
    } else {
        let cut = nd::below(BS + 1);
        let org = ctx.block;
        for (s, l) in [(0, cut), (cut, BS - cut)] {
            if l > 0 {
                ctx.block = org.make_partial(s, l);
                let pin = PartialBlock::from_block(&bin, s, l);
                w.process_block(&mut ctx, &mut fl, &pin, &mut bout.partial_mut(s, l));
            }
        }
        reach!(cut == 1, "split block");
    }
    assert!(r.frames == BS);
    let k = nd::below(BS);
    assert!(eq(r.inputs[k], bin.read_(k)));
    for i in 0..2 {
        assert!(r.at[k][i] == want(i, k));
        assert!(eq(bout.read_c(i, k), f(r.out[k][i])));
    }
    reach!(c0 && !c1, "one of two parameters has a buffer");
}
trait Rd {
    fn read_(&self, i: usize) -> Sym {
        self.read_c(0, i)
    }
    fn read_c(&self, c: usize, i: usize) -> Sym;
}
impl<B: Block<Sample = Sym>> Rd for B {
    fn read_c(&self, c: usize, i: usize) -> Sym {
        Block::read(self, c, i)
    }
}
fn meta<W: UGen<Sample = f32, Inputs = U1, Outputs = U2, Parameters = U2>>(mk: impl Fn(Probe<f32>) -> W) {
    let mut rec = Rec::new(anyf);
    let rp = &mut rec as *mut Rec<f32>;
    let r = unsafe { &mut *rp };
    let mut w = mk(Probe(rp));
    let mut ctx = ctx(48000, 3);
    let (sr, bs): (u32, usize) = (nd::any(), nd::any());
    w.init(sr, bs);
    assert!(r.init == Some((sr, bs)));
    let (d, h) = (W::param_descriptions(), W::param_hints());
    assert!(d[0].len() == 5 && d[1].len() == 4 && d[0].as_bytes()[0] == b'a' && d[1].as_bytes()[0] == b'b');
    assert!(h[0].float_hint() == Probe::<f32>::param_hints()[0].float_hint());
    assert!(matches!(h[1], ParameterHint::Trigger));
    let (i, v, dl) = (nd::below(2), value(), nd::any::<u16>());
    if nd::any() {
        w.param_apply(&mut ctx, i, v);
        let (j, u) = r.param.unwrap();
        assert!(r.params == 1 && j == i && same_value(u, v));
    } else {
        w.set_delay_within_block_for_param(&mut ctx, i, dl);
        assert!(r.delays == 1 && r.delay == Some((i, dl)));
    }
}

crate::harnesses! {
    bounded("one block of 4 frames processed in any two parts; all samples, inputs and direct changes")
    #[kani::unwind(10)]
    fn c14_ar_block() { follow(|p| p.ar_params(), false, |x| x) }
    bounded("4 frames, processed frame by frame")
    #[kani::unwind(10)]
    fn c14_ar_frames() { follow(|p| p.ar_params(), true, |x| x) }
    native("one block of 4 frames through other wrappers, in any two parts")
    fn c14_ar_wrapped() { let v = sym::any(); follow(|p| p.ar_params().wr_add(v).precise_timing::<1>(), false, |x| x + v) }
    native("one block of 4 frames through other wrappers, in any two parts")
    fn c14_ar_wrapped_mul() { let v = sym::any(); follow(|p| p.ar_params().wr_mul(v).wr_v_sub_gen(v).smooth_params(), false, |x| v - x * v) }
    complete("parameters without a buffer: all values, delays, sample rates and block sizes")
    #[kani::unwind(8)]
    fn c14_ar_transparent() { meta(|p| p.ar_params()) }
}
