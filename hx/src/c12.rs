//! C12: a wrapper computes its operation on every sample of every channel and passes everything else through.
use crate::probe::*;
use crate::sym::{self, Sym, eq};
use crate::{nd, reach};
use knaster_core_dsp::wrappers_core::*;
use knaster_graph::typenum::*;
use knaster_graph::*;

/// Frame by frame and block processing: f(sample) for every sample, inputs and flags passed through.
fn audio<F: Float, W: UGen<Sample = F, Inputs = U1, Outputs = U2>>(any: fn() -> F, mk: impl Fn(Probe<F>) -> W, f: impl Fn(F) -> F, check: impl Fn(F, F) -> bool, frame: bool) {
    let seven = F::new(7.0);
    let mut rec = Rec::new(any);
    if nd::any() {
        rec.done_at = Some(nd::any());
    }
    let rp = &mut rec as *mut Rec<_>;
    let r = unsafe { &mut *rp };
    let mut w = mk(Probe(rp));
    let mut ctx = ctx(48000, 3);
    let mut fl = UGenFlags::new();
    let sup: bool = nd::any();
    if sup {
        fl.mark_remove_self_supported();
    }
    if frame {
        let x = any();
        let o = w.process(&mut ctx, &mut fl, [x].into());
        assert!(r.frames == 1 && r.calls == 1 && check(r.inputs[0], x));
        for c in 0..2 {
            assert!(check(o[c], f(r.out[0][c])));
        }
    } else {
        let start = nd::below(3);
        let len = nd::below(3 - start + 1);
        let mut bin = StaticBlock::<F, U1, U3>::new();
        let mut bout = StaticBlock::<F, U2, U3>::new();
        for i in 0..3 {
            bin.write(any(), 0, i);
            bout.write(seven, 0, i);
            bout.write(seven, 1, i);
        }
        let t: u32 = nd::any();
        ctx.block.set_frame_clock(t as u64);
        ctx.block = ctx.block.make_partial(start, len);
        {
            let pin = PartialBlock::from_block(&bin, start, len);
            let mut pout = bout.partial_mut(start, len);
            w.process_block(&mut ctx, &mut fl, &pin, &mut pout);
        }
        assert!(r.frames == len);
        assert!(len == 0 || r.calls == 1);
        assert!(len == 0 || (r.clock == t as u64 + start as u64 && r.offset == start));
        assert!(ctx.frames_to_process() == len && ctx.block_start_offset() == start && ctx.frame_clock() == t as u64 + start as u64);
        for i in 0..3 {
            for c in 0..2 {
                let o = Block::read(&bout, c, i);
                if i >= start && i < start + len {
                    assert!(check(r.inputs[i - start], Block::read(&bin, 0, i)));
                    assert!(check(o, f(r.out[i - start][c])));
                } else {
                    assert!(o == seven);
                }
            }
        }
        if len == 0 {
            return;
        }
        reach!(start == 1 && len == 2, "partial block");
    }
    assert!(fl.done() == r.done_at);
    assert!(!fl.remove_self() && fl.remove_graph().is_none());
    fl.mark_remove_self(&mut ctx);
    assert!(fl.remove_self() == sup);
}
/// Parameters (values, audio rate buffers, delays), initialisation and metadata pass through unchanged.
/// `own`: the wrapper adds a parameter of its own after those of the wrapped UGen.
fn params<W: UGen<Sample = f32, Inputs = U1, Outputs = U2>>(mk: impl Fn(Probe<f32>) -> W, own: Option<&'static str>) {
    let mut rec = Rec::new(anyf);
    let rp = &mut rec as *mut Rec<_>;
    let r = unsafe { &mut *rp };
    let mut w = mk(Probe(rp));
    let mut ctx = ctx(48000, 3);
    let (sr, bs): (u32, usize) = (nd::any(), nd::any());
    w.init(sr, bs);
    assert!(r.init == Some((sr, bs)));
    assert!(W::Parameters::USIZE == 2 + own.is_some() as usize);
    let d = W::param_descriptions();
    let h = W::param_hints();
    assert!(d[0].len() == 5 && d[1].len() == 4 && d[0].as_bytes()[0] == b'a' && d[1].as_bytes()[0] == b'b');
    assert!(h[0].float_hint() == Probe::<f32>::param_hints()[0].float_hint());
    assert!(matches!(h[1], ParameterHint::Trigger));
    if let Some(n) = own {
        assert!(d[2].len() == n.len() && d[2].as_bytes()[0] == n.as_bytes()[0]);
    }
    let i = nd::below(W::Parameters::USIZE);
    let v = value();
    let buf: *const f32 = [0.0f32; 3].as_ptr();
    let dl: u16 = nd::any();
    match nd::below(3) {
        0 => {
            if i == 2 {
                nd::assume(matches!((own, v), (Some("wr_mul"), ParameterValue::Float(_))) || matches!((own, v), (Some("done_action"), ParameterValue::Integer(_))));
            }
            w.param_apply(&mut ctx, i, v);
            assert!(r.params == (i < 2) as usize && r.bufs == 0 && r.delays == 0);
            if i < 2 {
                let (j, u) = r.param.unwrap();
                assert!(j == i && same_value(u, v));
            }
            reach!(i < 2 && matches!(v, ParameterValue::Bool(_)), "bool forwarded");
        }
        1 => {
            unsafe { w.set_ar_param_buffer(&mut ctx, i, buf) };
            assert!(r.params == 0 && r.bufs == (i < 2) as usize && r.delays == 0);
            assert!(i >= 2 || r.buf == Some((i, buf)));
        }
        _ => {
            w.set_delay_within_block_for_param(&mut ctx, i, dl);
            assert!(r.params == 0 && r.bufs == 0 && r.delays == (i < 2) as usize);
            assert!(i >= 2 || r.delay == Some((i, dl)));
        }
    }
    assert!(r.calls == 0);
}

crate::harnesses! {
    complete("all samples, values and flags; the free sample type stands for f32 and f64")
    #[kani::unwind(8)]
    fn c12_frame_add() { let v = sym::any(); audio(sym::any, |p| p.wr_add(v), |x| x + v, eq, true) }
    bounded("blocks of 3 frames and 2 channels, all partial blocks, all samples; the free sample type stands for f32 and f64")
    #[kani::unwind(8)]
    fn c12_block_add() { let v = sym::any(); audio(sym::any, |p| p.wr_add(v), |x| x + v, eq, false) }
    complete("all samples, values and flags; the free sample type stands for f32 and f64")
    #[kani::unwind(8)]
    fn c12_frame_sub() { let v = sym::any(); audio(sym::any, |p| p.wr_sub(v), |x| x - v, eq, true) }
    bounded("blocks of 3 frames and 2 channels, all partial blocks, all samples; the free sample type stands for f32 and f64")
    #[kani::unwind(8)]
    fn c12_block_sub() { let v = sym::any(); audio(sym::any, |p| p.wr_sub(v), |x| x - v, eq, false) }
    complete("all samples, values and flags; the free sample type stands for f32 and f64")
    #[kani::unwind(8)]
    fn c12_frame_v_sub() { let v = sym::any(); audio(sym::any, |p| p.wr_v_sub_gen(v), |x| v - x, eq, true) }
    bounded("blocks of 3 frames and 2 channels, all partial blocks, all samples; the free sample type stands for f32 and f64")
    #[kani::unwind(8)]
    fn c12_block_v_sub() { let v = sym::any(); audio(sym::any, |p| p.wr_v_sub_gen(v), |x| v - x, eq, false) }
    complete("all samples, values and flags; the free sample type stands for f32 and f64")
    #[kani::unwind(8)]
    fn c12_frame_mul() { let v = sym::any(); audio(sym::any, |p| p.wr_mul(v), |x| x * v, eq, true) }
    bounded("blocks of 3 frames and 2 channels, all partial blocks, all samples; the free sample type stands for f32 and f64")
    #[kani::unwind(8)]
    fn c12_block_mul() { let v = sym::any(); audio(sym::any, |p| p.wr_mul(v), |x| x * v, eq, false) }
    complete("all samples, values and flags; the free sample type stands for f32 and f64")
    #[kani::unwind(8)]
    fn c12_frame_div() { let v = sym::any(); audio(sym::any, |p| p.wr_div(v), |x| x / v, eq, true) }
    bounded("blocks of 3 frames and 2 channels, all partial blocks, all samples; the free sample type stands for f32 and f64")
    #[kani::unwind(8)]
    fn c12_block_div() { let v = sym::any(); audio(sym::any, |p| p.wr_div(v), |x| x / v, eq, false) }
    complete("all samples, values and flags; the free sample type stands for f32 and f64")
    #[kani::unwind(8)]
    fn c12_frame_v_div() { let v = sym::any(); audio(sym::any, |p| p.wr_v_div_gen(v), |x| v / x, eq, true) }
    bounded("blocks of 3 frames and 2 channels, all partial blocks, all samples; the free sample type stands for f32 and f64")
    #[kani::unwind(8)]
    fn c12_block_v_div() { let v = sym::any(); audio(sym::any, |p| p.wr_v_div_gen(v), |x| v / x, eq, false) }
    complete("all samples, values and flags; the free sample type stands for f32 and f64")
    #[kani::unwind(8)]
    fn c12_frame_powf() { let v = sym::any(); audio(sym::any, |p| p.wr_powf(v), |x| num_traits::Float::powf(x, v), eq, true) }
    bounded("blocks of 3 frames and 2 channels, all partial blocks, all samples; the free sample type stands for f32 and f64")
    #[kani::unwind(8)]
    fn c12_block_powf() { let v = sym::any(); audio(sym::any, |p| p.wr_powf(v), |x| num_traits::Float::powf(x, v), eq, false) }
    complete("all samples, values and flags; the free sample type stands for f32 and f64")
    #[kani::unwind(8)]
    fn c12_frame_powi() { let n: i32 = nd::any(); audio(sym::any, |p| p.wr_powi(n), |x| num_traits::Float::powi(x, n), eq, true) }
    bounded("blocks of 3 frames and 2 channels, all partial blocks, all samples; the free sample type stands for f32 and f64")
    #[kani::unwind(8)]
    fn c12_block_powi() { let n: i32 = nd::any(); audio(sym::any, |p| p.wr_powi(n), |x| num_traits::Float::powi(x, n), eq, false) }
    complete("all samples and flags, a closure with its own state")
    #[kani::unwind(8)]
    fn c12_frame_closure() { let v = sym::any(); audio(sym::any, |p| { let mut n = 0; p.wr(move |x| { n += 1; if n > 2 { v } else { x + v } }) }, |x| x + v, eq, true) }
    bounded("blocks of 3 frames and 2 channels, all partial blocks, all samples")
    #[kani::unwind(8)]
    fn c12_block_closure() { let v = sym::any(); audio(sym::any, |p| p.wr(move |x| if x > v { x } else { v }), |x| if x > v { x } else { v }, eq, false) }
    complete("all values of the wrapper's parameter and all samples")
    #[kani::unwind(8)]
    fn c12_mul_param() {
        let mut rec = Rec::new(sym::any);
        let rp = &mut rec as *mut Rec<_>;
        let mut w = Probe(rp).wr_mul(sym::any());
        let mut ctx = ctx(48000, 3);
        let mut fl = UGenFlags::new();
        let v: f64 = nd::any();
        w.param_apply(&mut ctx, 2, ParameterValue::Float(v));
        let o = w.process(&mut ctx, &mut fl, [sym::any()].into());
        unsafe { let m: Sym = Float::new(v); assert!(eq(o[0], (*rp).out[0][0] * m) && eq(o[1], (*rp).out[0][1] * m)); }
    }
    complete("all parameter indices and values, buffers, delays, sample rates and block sizes")
    #[kani::unwind(8)]
    fn c12_params_arith() {
        match nd::below(7) {
            0 => params(|p| p.wr_add(1.0), None),
            1 => params(|p| p.wr_sub(1.0), None),
            2 => params(|p| p.wr_v_sub_gen(1.0), None),
            3 => params(|p| p.wr_div(1.0), None),
            4 => params(|p| p.wr_v_div_gen(1.0), None),
            5 => params(|p| p.wr_powf(1.0), None),
            _ => params(|p| p.wr_powi(1), None),
        }
    }
    complete("all parameter indices and values, buffers, delays, sample rates and block sizes")
    #[kani::unwind(8)]
    fn c12_params_mul() { params(|p| p.wr_mul(1.0), Some("wr_mul")) }
    complete("all parameter indices and values, buffers, delays, sample rates and block sizes")
    #[kani::unwind(8)]
    fn c12_params_closure() { params(|p| p.wr(|x| x), None) }
    complete("a stack of wrappers: all parameter indices and values, buffers and delays")
    #[kani::unwind(8)]
    fn c12_params_stack() { params(|p| p.wr_add(1.0).wr_sub(1.0).wr_mul(1.0).wr_div(2.0).wr_v_sub_gen(1.0).wr(|x| x).wr_powi(2).wr_v_div_gen(1.0).wr_powf(1.0), Some("wr_mul")) }
    bounded("a stack of wrappers, blocks of 3 frames and 2 channels; operations apply innermost first")
    #[kani::unwind(8)]
    fn c12_block_stack() { let (a, b, c) = (sym::any(), sym::any(), sym::any()); audio(sym::any, |p| p.wr_add(a).wr_mul(b).wr_v_sub_gen(c), |x| c - (x + a) * b, eq, false) }
}
