use vstd::prelude::*;
verus! {
/*@include fl.inc @*/
/// Float::to_f64
uninterp spec fn f64_of(x: F) -> f64;
impl F {
    #[verifier::external_body]
    fn to_f64(self) -> (r: f64) ensures r == f64_of(self) { unimplemented!() }
}
type PFloat = f64;
pub struct PInteger(pub usize);
pub enum Rate { BlockRate, AudioRate }
/*@enum knaster_core/src/parameters/types.rs | ParameterSmoothing @*/
/*@enum knaster_core/src/parameters/types.rs | ParameterValue @*/
/// `*const Sample`: a place with `n` samples from it on, and what they are while the UGen runs (it must not change them: nothing here writes through it)
#[verifier::external_body]
pub struct Ptr { p: usize }
impl Copy for Ptr {}
impl Clone for Ptr { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
uninterp spec fn len_at(p: Ptr) -> int;
uninterp spec fn at(p: Ptr, i: int) -> F;
impl Ptr {
    /// `*ptr.add(i)`
    #[verifier::external_body]
    fn load(&self, i: usize) -> (r: F) requires i < len_at(*self) ensures r == at(*self, i as int) { unimplemented!() }
}
#[verifier::external_body]
pub struct Rest { x: u8 }
pub struct AudioCtx { block_size: usize, rest: Rest }
impl AudioCtx { fn block_size(&self) -> (r: usize) ensures r == self.block_size { self.block_size } }
#[verifier::external_body]
pub struct FlagState { x: u8 }
pub struct UGenFlags { s: Ghost<FlagState> }
/// The state of the wrapped UGen, about which nothing is known
#[verifier::external_body]
pub struct St { x: u8 }
uninterp spec fn init_next(s: St, sr: u32, bs: usize) -> St;
uninterp spec fn next(s: (St, FlagState), c: AudioCtx, i: Seq<F>) -> (St, FlagState);
uninterp spec fn outp(s: (St, FlagState), c: AudioCtx, i: Seq<F>) -> Seq<F>;
uninterp spec fn ctx_next(s: (St, FlagState), c: AudioCtx) -> AudioCtx;
uninterp spec fn applied(s: St, c: AudioCtx, i: usize, v: ParameterValue) -> St;
uninterp spec fn ctx_applied(s: St, c: AudioCtx, i: usize, v: ParameterValue) -> AudioCtx;
uninterp spec fn delayed(s: St, c: AudioCtx, i: usize, d: u16) -> St;
uninterp spec fn names<const P: usize>() -> Seq<Name>;
uninterp spec fn hints<const P: usize>() -> Seq<Hint>;
#[verifier::external_body]
pub struct Name { x: u8 }
#[verifier::external_body]
pub struct Hint { x: u8 }
pub struct U<const I: usize, const O: usize, const P: usize> { s: Ghost<St> }
impl<const I: usize, const O: usize, const P: usize> U<I, O, P> {
    #[verifier::external_body]
    fn init(&mut self, sr: u32, bs: usize) ensures final(self).s@ == init_next(old(self).s@, sr, bs) { unimplemented!() }
    #[verifier::external_body]
    fn process(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, input: [F; I]) -> (r: [F; O])
        ensures (final(self).s@, final(flags).s@) == next((old(self).s@, old(flags).s@), *old(ctx), input@), r@ == outp((old(self).s@, old(flags).s@), *old(ctx), input@), *final(ctx) == ctx_next((old(self).s@, old(flags).s@), *old(ctx)),
            final(ctx).block_size == old(ctx).block_size,
    { unimplemented!() }
    #[verifier::external_body]
    fn param_apply(&mut self, ctx: &mut AudioCtx, index: usize, value: ParameterValue) requires index < P
        ensures final(self).s@ == applied(old(self).s@, *old(ctx), index, value), *final(ctx) == ctx_applied(old(self).s@, *old(ctx), index, value), final(ctx).block_size == old(ctx).block_size { unimplemented!() }
    #[verifier::external_body]
    fn set_delay_within_block_for_param(&mut self, ctx: &mut AudioCtx, index: usize, delay: u16) requires index < P
        ensures final(self).s@ == delayed(old(self).s@, *old(ctx), index, delay) { unimplemented!() }
    #[verifier::external_body]
    fn param_descriptions() -> (r: Vec<Name>) ensures r@ == names::<P>() { unimplemented!() }
    #[verifier::external_body]
    fn param_hints() -> (r: Vec<Hint>) ensures r@ == hints::<P>() { unimplemented!() }
}
/// The wrapped UGen (and the context) after each of the first n parameters with a buffer is set to sample i of its buffer, in their order
spec fn fed(s: St, c: AudioCtx, b: Seq<Option<Ptr>>, i: int, n: int) -> (St, AudioCtx) decreases n {
    if n <= 0 { (s, c) } else {
        let before = fed(s, c, b, i, n - 1);
        match b[n - 1] {
            None => before,
            Some(p) => {
                let v = ParameterValue::Float(f64_of(at(p, i)));
                (applied(before.0, before.1, (n - 1) as usize, v), ctx_applied(before.0, before.1, (n - 1) as usize, v))
            }
        }
    }
}
/// NumericArray::default() of options
#[verifier::external_body]
fn no_buffers<const P: usize>() -> (r: [Option<Ptr>; P]) ensures forall|k: int| 0 <= k < P ==> (#[trigger] r@[k]) is None { unimplemented!() }
struct WrArParams<const I: usize, const O: usize, const P: usize> { ugen: U<I, O, P>, buffers: [Option<Ptr>; P], block_index: usize }
impl<const I: usize, const O: usize, const P: usize> WrArParams<I, O, P> {
    /// What holds between calls, for blocks of n frames: every buffer has a sample for every frame of a block, and the next frame is one of a block
    spec fn wf(self, n: usize) -> bool {
        &&& 0 < n
        &&& self.block_index < n
        &&& forall|k: int| 0 <= k < P && (#[trigger] self.buffers@[k]) is Some ==> len_at(self.buffers@[k]->0) >= n
    }
    /*@extract knaster_core_dsp/src/wrappers_core/audio_rate.rs | impl<T: UGen> WrArParams<T> | new | ret=r
    ensures r.ugen == ugen, r.block_index == 0, forall|k: int| 0 <= k < P ==> (#[trigger] r.buffers@[k]) is None, forall|n: usize| 0 < n ==> r.wf(n),
    @sub /NumericArray::default\(\)/ => no_buffers::<P>()
    @sig? /ugen: T/ => ugen: U<I, O, P>
    @*/
    /*@extract knaster_core_dsp/src/wrappers_core/audio_rate.rs | impl<T: UGen> UGen for WrArParams<T> | init
    ensures final(self).ugen.s@ == init_next(old(self).ugen.s@, sample_rate, block_size), final(self).buffers == old(self).buffers, final(self).block_index == old(self).block_index,
    @*/
    /*@extract knaster_core_dsp/src/wrappers_core/audio_rate.rs | impl<T: UGen> UGen for WrArParams<T> | process | ret=r
    requires old(self).wf(old(ctx).block_size),
    ensures
        ({
            let f = fed(old(self).ugen.s@, *old(ctx), old(self).buffers@, old(self).block_index as int, P as int);
            &&& (final(self).ugen.s@, final(flags).s@) == next((f.0, old(flags).s@), f.1, input@)
            &&& r@ == outp((f.0, old(flags).s@), f.1, input@)
            &&& *final(ctx) == ctx_next((f.0, old(flags).s@), f.1)
        }),
        final(self).block_index == (if old(self).block_index + 1 == old(ctx).block_size { 0 } else { old(self).block_index + 1 }),
        final(self).buffers == old(self).buffers,
        final(ctx).block_size == old(ctx).block_size,
        final(self).wf(final(ctx).block_size),
    @sub? /for \(param, buffer\) in self\.buffers\.iter\(\)\.enumerate\(\) \{/ => for param in 0..P { let buffer = &self.buffers[param];
    @sub? /unsafe \{ \*(\w+)\.add\(([^{}]*)\) \}/ => \1.load(\2)
    @sub? / as PFloat/ =>
    @loop 0
        invariant
            old(self).wf(old(ctx).block_size), self.buffers == old(self).buffers, self.block_index == old(self).block_index, *flags == *old(flags), ctx.block_size == old(ctx).block_size,
            (self.ugen.s@, *ctx) == fed(old(self).ugen.s@, *old(ctx), old(self).buffers@, old(self).block_index as int, param as int),
    @afterloop 0
        proof {
            let i = old(self).block_index as int; let n = old(ctx).block_size as int;
            if i + 1 < n { assert((i + 1) % n == i + 1) by (nonlinear_arith) requires 0 <= i, i + 1 < n; } else { assert(n % n == 0) by (nonlinear_arith) requires n > 0; }
        }
    @sig? /Frame<Self::Sample, Self::Inputs>/ => [F; I]
    @sig? /Frame<Self::Sample, Self::Outputs>/ => [F; O]
    @*/
    /*@extract knaster_core_dsp/src/wrappers_core/audio_rate.rs | impl<T: UGen> UGen for WrArParams<T> | param_apply
    requires index < P,
    ensures
        final(self).buffers == old(self).buffers, final(self).block_index == old(self).block_index, final(ctx).block_size == old(ctx).block_size,
        old(self).buffers@[index as int] is None ==> final(self).ugen.s@ == applied(old(self).ugen.s@, *old(ctx), index, value) && *final(ctx) == ctx_applied(old(self).ugen.s@, *old(ctx), index, value),
        old(self).buffers@[index as int] is Some ==> *final(self) == *old(self) && *final(ctx) == *old(ctx),
    @*/
    /*@extract knaster_core_dsp/src/wrappers_core/audio_rate.rs | impl<T: UGen> UGen for WrArParams<T> | set_ar_param_buffer
    requires index < P,
    ensures
        final(self).ugen == old(self).ugen, final(self).block_index == old(self).block_index, *final(_ctx) == *old(_ctx),
        final(self).buffers@ =~= old(self).buffers@.update(index as int, Some(buffer)),
        forall|n: usize| old(self).wf(n) && len_at(buffer) >= n ==> final(self).wf(n),
    @sub? /debug_assert!\(/ => check(
    @sub? /T::Parameters::USIZE/ => P
    @sig? /unsafe fn/ => fn
    @sig? /\*const T::Sample/ => Ptr
    @*/
    /*@extract knaster_core_dsp/src/wrappers_core/audio_rate.rs | impl<T: UGen> UGen for WrArParams<T> | set_delay_within_block_for_param
    requires index < P,
    ensures final(self).ugen.s@ == delayed(old(self).ugen.s@, *old(ctx), index, delay), final(self).buffers == old(self).buffers, final(self).block_index == old(self).block_index,
    @*/
    /*@extract knaster_core_dsp/src/wrappers_core/audio_rate.rs | impl<T: UGen> UGen for WrArParams<T> | param_descriptions | ret=r
    ensures r@ == names::<P>(),
    @sub? /T::param_descriptions/ => U::<I, O, P>::param_descriptions
    @sig? /NumericArray<&'static str, Self::Parameters>/ => Vec<Name>
    @*/
    /*@extract knaster_core_dsp/src/wrappers_core/audio_rate.rs | impl<T: UGen> UGen for WrArParams<T> | param_hints | ret=r
    ensures r@ == hints::<P>(),
    @sub? /T::param_hints/ => U::<I, O, P>::param_hints
    @sig? /NumericArray<ParameterHint, Self::Parameters>/ => Vec<Hint>
    @*/
}
/// debug_assert! with the condition to be proved
fn check(b: bool) requires b {}
/// what `fed` means: a parameter with a buffer is set exactly once, to sample i of its buffer, those without are left alone
proof fn fed_step(s: St, c: AudioCtx, b: Seq<Option<Ptr>>, i: int, n: int)
    requires 0 < n
    ensures b[n - 1] is None ==> fed(s, c, b, i, n) == fed(s, c, b, i, n - 1),
        b[n - 1] is Some ==> fed(s, c, b, i, n).0 == applied(fed(s, c, b, i, n - 1).0, fed(s, c, b, i, n - 1).1, (n - 1) as usize, ParameterValue::Float(f64_of(at(b[n - 1]->0, i)))),
{}
/// Frames of consecutive calls: starting at the first frame of a block, call number m reads sample m modulo the block size
spec fn index_after(n: int, m: nat) -> int decreases m { if m == 0 { 0 } else { let i = index_after(n, (m - 1) as nat); if i + 1 == n { 0 } else { i + 1 } } }
proof fn in_step(n: int, m: nat) requires n > 0 ensures index_after(n, m) == m as int % n decreases m {
    if m == 0 { assert(0int % n == 0) by (nonlinear_arith) requires n > 0; } else {
        in_step(n, (m - 1) as nat);
        let i = (m as int - 1) % n;
        vstd::arithmetic::div_mod::lemma_add_mod_noop(m as int - 1, 1, n);
        assert(0 <= i < n) by (nonlinear_arith) requires i == (m as int - 1) % n, n > 0;
        if n == 1 { assert(m as int % 1 == 0); } else {
            vstd::arithmetic::div_mod::lemma_small_mod(1, n as nat);
            if i + 1 == n { vstd::arithmetic::div_mod::lemma_mod_self_0(n); } else { vstd::arithmetic::div_mod::lemma_small_mod((i + 1) as nat, n as nat); }
        }
    }
}
}
fn main() {}
