//! A wrapped UGen about which nothing is known: it outputs arbitrary samples and records every call it gets.
//! Proving a wrapper against it is proving it against the contract of the `UGen` trait.
use crate::nd;
use knaster_graph::numeric_array::NumericArray;
use knaster_graph::typenum::*;
use knaster_graph::*;

pub const MAXF: usize = 4;
pub struct Rec<F> {
    /// what the UGen outputs for each frame it processes
    pub out: [[F; 2]; MAXF],
    pub done_at: Option<u32>,
    pub frames: usize,
    pub calls: usize,
    pub inputs: [F; MAXF],
    pub clock: u64,
    pub offset: usize,
    pub support_seen: bool,
    pub init: Option<(u32, usize)>,
    pub param: Option<(usize, ParameterValue)>,
    pub params: usize,
    /// the float value each parameter has, and had when each frame was processed
    pub cur: [f64; 2],
    pub at: [[f64; 2]; MAXF],
    pub buf: Option<(usize, *const F)>,
    pub bufs: usize,
    pub delay: Option<(usize, u16)>,
    pub delays: usize,
}
impl<F: Float> Rec<F> {
    pub fn new(any: impl Fn() -> F) -> Self {
        let mut out = [[F::ZERO; 2]; MAXF];
        for f in 0..MAXF {
            out[f] = [any(), any()];
        }
        Rec { out, done_at: None, frames: 0, calls: 0, inputs: [F::ZERO; MAXF], clock: 0, offset: 0, support_seen: false, init: None, param: None, params: 0, cur: [0.0; 2], at: [[0.0; 2]; MAXF], buf: None, bufs: 0, delay: None, delays: 0 }
    }
}
pub struct Probe<F>(pub *mut Rec<F>);
impl<F> Probe<F> {
    #[allow(clippy::mut_from_ref)]
    fn r(&self) -> &mut Rec<F> {
        unsafe { &mut *self.0 }
    }
}
impl<F: Float> UGen for Probe<F> {
    type Sample = F;
    type Inputs = U1;
    type Outputs = U2;
    type Parameters = U2;
    fn init(&mut self, sample_rate: u32, block_size: usize) {
        self.r().init = Some((sample_rate, block_size));
    }
    fn process(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, input: Frame<F, U1>) -> Frame<F, U2> {
        let r = self.r();
        r.calls += 1;
        r.clock = ctx.frame_clock();
        r.offset = ctx.block_start_offset();
        let f = r.frames;
        r.inputs[f] = input[0];
        r.at[f] = r.cur;
        r.frames += 1;
        if let Some(d) = r.done_at {
            flags.mark_done(d);
        }
        r.out[f].into()
    }
    fn process_block<I, O>(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, input: &I, output: &mut O)
    where
        I: BlockRead<Sample = F> + ?Sized,
        O: Block<Sample = F> + ?Sized,
    {
        let r = self.r();
        r.calls += 1;
        r.clock = ctx.frame_clock();
        r.offset = ctx.block_start_offset();
        if let Some(d) = r.done_at {
            flags.mark_done(d);
        }
        for i in 0..ctx.frames_to_process() {
            let f = r.frames;
            r.inputs[f] = input.read(0, i);
            r.at[f] = r.cur;
            r.frames += 1;
            output.write(r.out[f][0], 0, i);
            output.write(r.out[f][1], 1, i);
        }
    }
    fn param_hints() -> NumericArray<ParameterHint, U2> {
        [ParameterHint::new_float(|h| h.minmax(-3.0, 5.0)), ParameterHint::Trigger].into()
    }
    fn param_descriptions() -> NumericArray<&'static str, U2> {
        ["alpha", "beta"].into()
    }
    fn param_apply(&mut self, _ctx: &mut AudioCtx, index: usize, value: ParameterValue) {
        if let ParameterValue::Float(f) = value {
            self.r().cur[index] = f;
        }
        self.r().param = Some((index, value));
        self.r().params += 1;
    }
    unsafe fn set_ar_param_buffer(&mut self, _ctx: &mut AudioCtx, index: usize, buffer: *const F) {
        self.r().buf = Some((index, buffer));
        self.r().bufs += 1;
    }
    fn set_delay_within_block_for_param(&mut self, _ctx: &mut AudioCtx, index: usize, delay: u16) {
        self.r().delay = Some((index, delay));
        self.r().delays += 1;
    }
}
/// An arbitrary parameter value of any kind.
pub fn value() -> ParameterValue {
    let rate = if nd::any() { Rate::BlockRate } else { Rate::AudioRate };
    match nd::below(6) {
        0 => ParameterValue::Float(nd::any()),
        1 => ParameterValue::Trigger,
        2 => ParameterValue::Integer(PInteger(nd::any())),
        3 => ParameterValue::Bool(nd::any()),
        4 => ParameterValue::Smoothing(ParameterSmoothing::None, rate),
        _ => ParameterValue::Smoothing(ParameterSmoothing::Linear(nd::any()), rate),
    }
}
pub fn same_value(a: ParameterValue, b: ParameterValue) -> bool {
    use ParameterValue::*;
    match (a, b) {
        (Float(x), Float(y)) => x.to_bits() == y.to_bits(),
        (Trigger, Trigger) => true,
        (Integer(x), Integer(y)) => x.0 == y.0,
        (Bool(x), Bool(y)) => x == y,
        (Smoothing(s, r), Smoothing(t, q)) => {
            matches!((r, q), (Rate::BlockRate, Rate::BlockRate) | (Rate::AudioRate, Rate::AudioRate))
                && match (s, t) {
                    (ParameterSmoothing::None, ParameterSmoothing::None) => true,
                    (ParameterSmoothing::Linear(x), ParameterSmoothing::Linear(y)) => x.to_bits() == y.to_bits(),
                    _ => false,
                }
        }
        _ => false,
    }
}
pub fn same(a: f32, b: f32) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}
pub fn same64(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}
pub fn ctx(sr: u32, bs: usize) -> AudioCtx {
    AudioCtx::new(sr, bs, knaster_core::log::ArLogSender::non_rt())
}

pub fn anyf() -> f32 {
    nd::any()
}
