use vstd::prelude::*;
verus! {
// PFloat is kept abstract: a value that can be copied and compared; its arithmetic is `lerp_part`, uninterpreted.
type PFloat = f64;
#[derive(Copy, Clone)]
enum Rate { AudioRate, BlockRate }
#[derive(Copy, Clone)]
enum ParameterSmoothing { None, Linear(f32) }
enum ParameterValue { Float(PFloat), Trigger, Integer(usize), Bool(bool), Smoothing(ParameterSmoothing, Rate) }
uninterp spec fn mid(a: PFloat, b: PFloat, e: usize, d: usize) -> PFloat;
uninterp spec fn in_frames(s: f32, sr: f64) -> usize;
#[verifier::external_body]
fn lerp_part(a: PFloat, b: PFloat, e: usize, d: usize) -> (r: PFloat) ensures r == mid(a, b, e, d) { unimplemented!() }
#[verifier::external_body]
fn duration_in_frames(s: f32, sr: f64) -> (r: usize) ensures r == in_frames(s, sr) { unimplemented!() }
/// the value `e` frames into a ramp of `d` frames
spec fn at(a: PFloat, b: PFloat, e: usize, d: usize) -> PFloat { if e >= d { b } else { mid(a, b, e, d) } }
/*@include env.inc @*/

/*@extract knaster_core_dsp/src/wrappers_core/smooth_params.rs | - | interpolate | ret=r
    ensures r == at(start_value, end_value, frames_elapsed, duration_frames),
@sub /let current_mix = frames_elapsed as PFloat \/ duration_frames as PFloat;\s*\(end_value - start_value\) \* current_mix \+ start_value/ => lerp_part(start_value, end_value, frames_elapsed, duration_frames)
@*/

#[derive(Copy, Clone)]
/*@enum knaster_core_dsp/src/wrappers_core/smooth_params.rs | ParameterSmoothingState @*/

impl ParameterSmoothingState {
    spec fn wf(self) -> bool {
        match self { Self::None { .. } => true, Self::Linear { frames_elapsed, duration_frames, .. } => frames_elapsed <= duration_frames }
    }
    /// the value the parameter has, or is on its way to
    spec fn target(self) -> PFloat {
        match self { Self::None { current_value } => current_value, Self::Linear { end_value, .. } => end_value }
    }
    /// the value the parameter has now
    spec fn now(self) -> PFloat {
        match self {
            Self::None { current_value } => current_value,
            Self::Linear { start_value, end_value, frames_elapsed, duration_frames, done, .. } => if done { end_value } else { at(start_value, end_value, frames_elapsed, duration_frames) },
        }
    }
    spec fn at_target(self) -> bool { match self { Self::None { .. } => true, Self::Linear { done, .. } => done } }
    spec fn left(self) -> nat { match self { Self::None { .. } => 0, Self::Linear { done, duration_frames, frames_elapsed, .. } => if done { 0 } else { (duration_frames - frames_elapsed + 1) as nat } } }

    /*@extract knaster_core_dsp/src/wrappers_core/smooth_params.rs | impl ParameterSmoothingState | next_value | ret=r
    requires old(self).wf(), block_size as int + (match *old(self) { Self::Linear { duration_frames, .. } => duration_frames as int, _ => 0 }) <= usize::MAX,
    ensures
        final(self).wf(), final(self).target() == old(self).target(),
        match (*old(self), *final(self)) {
            (Self::None { .. }, n) => n == *old(self) && r is None,
            (Self::Linear { start_value, end_value, duration_frames, frames_elapsed, rate, done }, Self::Linear { start_value: s2, end_value: e2, duration_frames: d2, frames_elapsed: f2, rate: r2, done: n2 }) => {
                &&& s2 == start_value && e2 == end_value && d2 == duration_frames && r2 == rate
                &&& (done || (rate is BlockRate && frame_in_block != 0) ==> r is None && f2 == frames_elapsed && n2 == done)
                &&& (!done && (rate is AudioRate || frame_in_block == 0) ==> r == Some(at(start_value, end_value, frames_elapsed, duration_frames)))
                // the last value is the exact end of the ramp, and then it stops
                &&& (n2 && !done ==> r == Some(end_value) && frames_elapsed == duration_frames)
                &&& (!done && (rate is AudioRate || frame_in_block == 0) ==> (n2 <==> frames_elapsed == duration_frames))
                &&& (!done && !n2 && rate is AudioRate ==> f2 == frames_elapsed + 1)
                &&& (!done && !n2 && rate is BlockRate && frame_in_block == 0 ==> f2 == (if frames_elapsed + block_size < duration_frames { frames_elapsed + block_size } else { duration_frames as int }))
            },
            _ => false,
        },
        // every call at audio rate comes closer to the end of the ramp, so it ends after duration + 1 calls
        match *old(self) { Self::Linear { rate, .. } => rate is AudioRate && old(self).left() > 0 ==> final(self).left() < old(self).left(), _ => true },
    @sub? /\(\*frames_elapsed \+ block_size\)\.min\(\*duration_frames\)/ => min_usize(*frames_elapsed + block_size, *duration_frames)
    @*/
    /*@extract knaster_core_dsp/src/wrappers_core/smooth_params.rs | impl ParameterSmoothingState | has_new_ar_value | ret=r
    ensures r == (match *self { Self::None { .. } => false, Self::Linear { rate, .. } => rate is AudioRate && !self.at_target() }),
    @*/
}

/// One parameter of WrSmoothParams (the arrays indexed by the parameter are rewritten to the element of that parameter).
struct Wrapped { log: Ghost<Seq<ParameterValue>> }
impl Wrapped {
    #[verifier::external_body]
    fn param_apply(&mut self, value: ParameterValue) ensures final(self).log@ == old(self).log@.push(value) { unimplemented!() }
}
struct One { ugen: Wrapped, parameters: Rate, smoothing: ParameterSmoothing, smoothing_state: ParameterSmoothingState }
impl One {
    /*@extract knaster_core_dsp/src/wrappers_core/smooth_params.rs | impl<T: UGen> WrSmoothParams<T> | set_smoothing
    requires old(self).smoothing_state.wf(),
    ensures
        final(self).smoothing_state.wf(), final(self).smoothing == smoothing, final(self).ugen == old(self).ugen, final(self).parameters == old(self).parameters,
        match (smoothing, final(self).smoothing_state) {
            // without smoothing, the parameter stays where it is
            (ParameterSmoothing::None, ParameterSmoothingState::None { current_value }) => match old(self).smoothing_state {
                ParameterSmoothingState::None { current_value: c } => current_value == c,
                ParameterSmoothingState::Linear { start_value, end_value, duration_frames, frames_elapsed, .. } => current_value == at(start_value, end_value, frames_elapsed, duration_frames),
            },
            // a new duration: from the value it has now, to the same end
            (ParameterSmoothing::Linear(d), ParameterSmoothingState::Linear { start_value, end_value, duration_frames, frames_elapsed, rate, done }) => {
                &&& start_value == old(self).smoothing_state.now() && end_value == old(self).smoothing_state.target()
                &&& duration_frames == in_frames(d, sample_rate) && frames_elapsed == 0 && rate == new_rate && done == old(self).smoothing_state.at_target()
            },
            _ => false,
        },
    @sub /self\.smoothing\[index\]/ => self.smoothing
    @sub /self\.smoothing_state\[index\]/ => self.smoothing_state
    @sub /\(new_duration as f64 \* sample_rate\) as usize/ => duration_in_frames(new_duration, sample_rate)
    @*/
    /*@extract knaster_core_dsp/src/wrappers_core/smooth_params.rs | impl<T: UGen> UGen for WrSmoothParams<T> | param_apply
    requires old(self).smoothing_state.wf(), old(self).parameters is BlockRate, index < count,
    ensures
        final(self).smoothing_state.wf(), final(self).parameters == old(self).parameters,
        // values of other types are forwarded at once and change no ramp
        value is Integer || value is Bool || value is Trigger ==> final(self).ugen.log@ == old(self).ugen.log@.push(value) && final(self).smoothing_state == old(self).smoothing_state && final(self).smoothing == old(self).smoothing,
        value is Smoothing ==> final(self).ugen.log@ == old(self).ugen.log@,
        match (value, final(self).smoothing_state) {
            (ParameterValue::Float(v), s) => {
                &&& s.target() == v && final(self).smoothing == old(self).smoothing
                &&& (old(self).smoothing_state is None ==> s is None && final(self).ugen.log@ == old(self).ugen.log@.push(value))
                &&& match (old(self).smoothing_state, s) {
                    (ParameterSmoothingState::Linear { duration_frames: d, rate: r, .. }, ParameterSmoothingState::Linear { start_value, frames_elapsed, duration_frames, rate, done, .. }) =>
                        start_value == old(self).smoothing_state.now() && frames_elapsed == 0 && !done && duration_frames == d && rate == r && final(self).ugen.log@ == old(self).ugen.log@,
                    (ParameterSmoothingState::None { .. }, ParameterSmoothingState::None { .. }) => true,
                    _ => false,
                }
            },
            _ => true,
        },
    @sig /ctx: &mut AudioCtx, index: usize/ => sample_rate: f64, index: usize, count: usize
    @sub? /T::Parameters::USIZE/ => count
    @sub /self\.ugen\.param_apply\(ctx, index, value\)/ => self.ugen.param_apply(value)
    @sub /self\.smoothing_state\[index\]/ => self.smoothing_state
    @sub /self\.parameters\[index\]/ => self.parameters
    @sub /self\.set_smoothing\(index, smoothing, rate, ctx\.sample_rate\(\) as f64\)/ => self.set_smoothing(index, smoothing, rate, sample_rate)
    @*/
}

// ---------------------------------------------------------------- whole blocks
#[verifier::external_body]
struct States { x: u8 }
/// some parameter still moves every frame
uninterp spec fn moving(s: States) -> bool;
struct Inner { pos: Ghost<int> }
impl Inner {
    #[verifier::external_body]
    fn process_block(&mut self, ctx: &AudioCtx, flags: &UGenFlags, input: &PartialBlock, output: &PartialBlock)
        requires
            // frames are processed in order, once, and context, input and output are views of the same frames
            input.v@.start == old(self).pos@, output.v@.start == old(self).pos@, ctx.block.start == old(self).pos@,
            input.v@.len == ctx.block.len, output.v@.len == ctx.block.len,
        ensures final(self).pos@ == old(self).pos@ + ctx.block.len,
    { unimplemented!() }
}
/// `steps`: the frames before which the smoothed parameters were moved one step
struct WrSmoothParams { ugen: Inner, smoothing_state: States, steps: Ghost<Seq<int>> }
impl WrSmoothParams {
    #[verifier::external_body]
    fn any_new_ar_value(&self) -> (r: bool) ensures r == moving(self.smoothing_state) { unimplemented!() }
    #[verifier::external_body]
    fn apply_next_values(&mut self, ctx: &AudioCtx, block_size: usize, frame_in_block: usize)
        requires block_size == ctx.block.len, frame_in_block + ctx.block.start == old(self).ugen.pos@,
        ensures final(self).ugen == old(self).ugen, final(self).steps@ == old(self).steps@.push(old(self).ugen.pos@),
    { unimplemented!() }
    /*@extract knaster_core_dsp/src/wrappers_core/smooth_params.rs | impl<T: UGen> UGen for WrSmoothParams<T> | process_block
    requires
        old(ctx).block.start + old(ctx).block.len <= usize::MAX, old(ctx).block.len > 0,
        input.v@.start == old(ctx).block.start, old(output).v@.start == old(ctx).block.start,
        input.v@.len == old(ctx).block.len, old(output).v@.len == old(ctx).block.len,
        old(self).ugen.pos@ == old(ctx).block.start, old(self).steps@.len() == 0,
    ensures
        *final(ctx) == *old(ctx),
        // every frame is processed exactly once
        final(self).ugen.pos@ == old(ctx).block.start + old(ctx).block.len,
        // the parameters move at the start of the block, and then before every frame for as long as any has to
        1 <= final(self).steps@.len() <= old(ctx).block.len,
        forall|k: int| 0 <= k < final(self).steps@.len() ==> final(self).steps@[k] == old(ctx).block.start + k,
        final(self).steps@.len() < old(ctx).block.len ==> !moving(final(self).smoothing_state) || !moving(old(self).smoothing_state),
    @sig /<InBlock, OutBlock>/ =>
    @sig /where.*$/ =>
    @sig /&InBlock/ => &PartialBlock
    @sig /&mut OutBlock/ => &mut PartialBlock
    @sub /self\.smoothing_state\s*\.iter\(\)\s*\.any\(\|(\w+)\| \1\.has_new_ar_value\(\)\)/ => self.any_new_ar_value()
    @start
        let ghost st = ctx.block.start as int;
        let ghost moved = moving(self.smoothing_state);
    @loop 0
        invariant
            ctx.block == org_block, frames == org_block.len, st == org_block.start, st + frames <= usize::MAX,
            input.v@.start == st, input.v@.len == frames, output.v@.start == st, output.v@.len == frames,
            self.ugen.pos@ == st + i, i <= frames,
            self.steps@.len() == i, forall|k: int| 0 <= k < i ==> self.steps@[k] == st + k,
            i == 0 ==> moving(self.smoothing_state) == moved,
        decreases frames - i,
    @*/
}
}
fn main() {}
