use vstd::prelude::*;
verus! {
/*@include fl.inc @*/
uninterp spec fn fpowf(a: F, b: F) -> F;
uninterp spec fn fpowi(a: F, b: i32) -> F;
/// T::Sample::new
uninterp spec fn fnew(x: f64) -> F;
/// Float::to_f64
uninterp spec fn f64_of(x: F) -> f64;
impl F {
    #[verifier::external_body]
    fn powf(self, b: F) -> (r: F) ensures r == fpowf(self, b) { unimplemented!() }
    #[verifier::external_body]
    fn powi(self, b: i32) -> (r: F) ensures r == fpowi(self, b) { unimplemented!() }
    #[verifier::external_body]
    fn new(x: f64) -> (r: F) ensures r == fnew(x) { unimplemented!() }
    #[verifier::external_body]
    fn to_f64(self) -> (r: f64) ensures r == f64_of(self) { unimplemented!() }
}
type PFloat = f64;
pub struct PInteger(pub usize);
impl Copy for PInteger {}
impl Clone for PInteger { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub enum Rate { BlockRate, AudioRate }
impl Copy for Rate {}
impl Clone for Rate { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
/*@enum knaster_core/src/parameters/types.rs | ParameterSmoothing @*/
impl Copy for ParameterSmoothing {}
impl Clone for ParameterSmoothing { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
/*@enum knaster_core/src/parameters/types.rs | ParameterValue @*/
impl Copy for ParameterValue {}
impl Clone for ParameterValue { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl ParameterValue {
    /*@extract knaster_core/src/parameters/types.rs | impl ParameterValue | float | ret=r
    ensures r == (if let ParameterValue::Float(x) = self { Some(x) } else { None }),
    @*/
}
/// names and hints: values about which nothing is known
#[verifier::external_body]
pub struct Name { x: u8 }
impl Copy for Name {}
impl Clone for Name { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
uninterp spec fn lit_spec(s: &str) -> Name;
#[verifier::external_body]
fn lit(s: &'static str) -> (r: Name) ensures r == lit_spec(s) { unimplemented!() }
#[verifier::external_body]
pub struct Hint { x: u8 }
impl Copy for Hint {}
impl Clone for Hint { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
uninterp spec fn float_hint() -> Hint;
/// the hint of the added parameter: some float hint
#[verifier::external_body]
fn new_float_hint() -> (r: Hint) ensures r == float_hint() { unimplemented!() }
/// NumericArray::default() of n elements
#[verifier::external_body]
fn fresh<T>(n: usize) -> (r: Vec<T>) ensures r@.len() == n { unimplemented!() }
/// `*const Sample`
#[derive(Copy, Clone)]
pub struct Ptr { p: usize }
pub struct AudioCtx { block_size: usize, x: u8 }
impl AudioCtx { fn block_size(&self) -> (r: usize) ensures r == self.block_size { self.block_size } }
/// Blocks: the samples of each channel of the view.
pub struct Block { s: Ghost<Seq<Seq<F>>>, n: Ghost<int> }
impl Block {
    spec fn wf(self) -> bool { forall|c: int| 0 <= c < self.s@.len() ==> (#[trigger] self.s@[c]).len() == self.n@ }
    #[verifier::external_body]
    fn read(&self, c: usize, f: usize) -> (r: F) requires c < self.s@.len(), f < self.s@[c as int].len() ensures r == self.s@[c as int][f as int] { unimplemented!() }
    #[verifier::external_body]
    fn write(&mut self, v: F, c: usize, f: usize)
        requires c < old(self).s@.len(), f < old(self).s@[c as int].len()
        ensures final(self).n == old(self).n, final(self).s@ == old(self).s@.update(c as int, old(self).s@[c as int].update(f as int, v)) { unimplemented!() }
    #[verifier::external_body]
    fn channels(&self) -> (r: usize) ensures r == self.s@.len() { unimplemented!() }
    #[verifier::external_body]
    fn block_size(&self) -> (r: usize) ensures r == self.n@ { unimplemented!() }
}
#[verifier::external_body]
pub struct FlagState { x: u8 }
pub struct UGenFlags { s: Ghost<FlagState> }
/// The state of the wrapped UGen, with flags, about which nothing is known. Everything it does is a function of its state and what it is given.
#[verifier::external_body]
pub struct St { x: u8 }
uninterp spec fn init_next(s: St, sr: u32, bs: usize) -> St;
uninterp spec fn next(s: (St, FlagState), c: AudioCtx, i: Seq<F>) -> (St, FlagState);
uninterp spec fn outp(s: (St, FlagState), c: AudioCtx, i: Seq<F>) -> Seq<F>;
uninterp spec fn block_next(s: (St, FlagState), c: AudioCtx, i: Seq<Seq<F>>, o: Seq<Seq<F>>) -> (St, FlagState);
uninterp spec fn block_out(s: (St, FlagState), c: AudioCtx, i: Seq<Seq<F>>, o: Seq<Seq<F>>) -> Seq<Seq<F>>;
uninterp spec fn ctx_next(s: (St, FlagState), c: AudioCtx) -> AudioCtx;
uninterp spec fn applied(s: St, c: AudioCtx, i: usize, v: ParameterValue) -> St;
uninterp spec fn buffered(s: St, c: AudioCtx, i: usize, b: Ptr) -> St;
uninterp spec fn delayed(s: St, c: AudioCtx, i: usize, d: u16) -> St;
uninterp spec fn names<const P: usize>() -> Seq<Name>;
uninterp spec fn hints<const P: usize>() -> Seq<Hint>;
pub struct U<const I: usize, const O: usize, const P: usize> { s: Ghost<St> }
impl<const I: usize, const O: usize, const P: usize> U<I, O, P> {
    #[verifier::external_body]
    fn init(&mut self, sr: u32, bs: usize) ensures final(self).s@ == init_next(old(self).s@, sr, bs) { unimplemented!() }
    #[verifier::external_body]
    fn process(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, input: [F; I]) -> (r: [F; O])
        ensures (final(self).s@, final(flags).s@) == next((old(self).s@, old(flags).s@), *old(ctx), input@), r@ == outp((old(self).s@, old(flags).s@), *old(ctx), input@), *final(ctx) == ctx_next((old(self).s@, old(flags).s@), *old(ctx))
    { unimplemented!() }
    #[verifier::external_body]
    fn process_block(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, input: &Block, output: &mut Block)
        ensures (final(self).s@, final(flags).s@) == block_next((old(self).s@, old(flags).s@), *old(ctx), input.s@, old(output).s@), final(output).s@ == block_out((old(self).s@, old(flags).s@), *old(ctx), input.s@, old(output).s@), *final(ctx) == ctx_next((old(self).s@, old(flags).s@), *old(ctx)),
            final(output).n == old(output).n, final(output).s@.len() == old(output).s@.len(), old(output).wf() ==> final(output).wf()
    { unimplemented!() }
    #[verifier::external_body]
    fn param_apply(&mut self, ctx: &mut AudioCtx, index: usize, value: ParameterValue) requires index < P ensures final(self).s@ == applied(old(self).s@, *old(ctx), index, value), final(ctx).block_size == old(ctx).block_size { unimplemented!() }
    #[verifier::external_body]
    fn set_ar_param_buffer(&mut self, ctx: &mut AudioCtx, index: usize, buffer: Ptr) requires index < P ensures final(self).s@ == buffered(old(self).s@, *old(ctx), index, buffer) { unimplemented!() }
    #[verifier::external_body]
    fn set_delay_within_block_for_param(&mut self, ctx: &mut AudioCtx, index: usize, delay: u16) requires index < P ensures final(self).s@ == delayed(old(self).s@, *old(ctx), index, delay) { unimplemented!() }
    #[verifier::external_body]
    fn param_descriptions() -> (r: Vec<Name>) ensures r@ == names::<P>(), r@.len() == P { unimplemented!() }
    #[verifier::external_body]
    fn param_hints() -> (r: Vec<Hint>) ensures r@ == hints::<P>(), r@.len() == P { unimplemented!() }
}
struct WrMul<const I: usize, const O: usize, const P: usize> { ugen: U<I, O, P>, value: F }
impl<const I: usize, const O: usize, const P: usize> WrMul<I, O, P> {
    /*@extract knaster_core_dsp/src/wrappers_core/math.rs | impl<T: UGen> UGen for WrMul<T> | init
    ensures final(self).ugen.s@ == init_next(old(self).ugen.s@, sample_rate, block_size), final(self).value == old(self).value,
    @sub? /T::Parameters::USIZE/ => P
    @sub? /T::param_apply\(&mut self\.ugen, / => self.ugen.param_apply(
    @sub? /T::(param_descriptions|param_hints)\(\)/ => U::<I, O, P>::\1()
    @sub? /T::Sample::new/ => F::new
    @sub? /unsafe \{/ => {
    @*/
    /*@extract knaster_core_dsp/src/wrappers_core/math.rs | impl<T: UGen> UGen for WrMul<T> | process | ret=r
    ensures
        (final(self).ugen.s@, final(flags).s@) == next((old(self).ugen.s@, old(flags).s@), *old(ctx), input@), final(self).value == old(self).value, *final(ctx) == ctx_next((old(self).ugen.s@, old(flags).s@), *old(ctx)),
        forall|c: int| 0 <= c < O ==> #[trigger] r@[c] == fmul(outp((old(self).ugen.s@, old(flags).s@), *old(ctx), input@)[c], old(self).value),
    @sub? /T::Parameters::USIZE/ => P
    @sub? /T::param_apply\(&mut self\.ugen, / => self.ugen.param_apply(
    @sub? /T::(param_descriptions|param_hints)\(\)/ => U::<I, O, P>::\1()
    @sub? /T::Sample::new/ => F::new
    @sub? /unsafe \{/ => {
    @sig? /knaster_core::Frame<Self::Sample, Self::Inputs>/ => [F; I]
    @sig? /knaster_core::Frame<Self::Sample, Self::Outputs>/ => [F; O]
    @sig /^/ => #[verifier::loop_isolation(false)]\n

    @sub? /\*sample ([-+*\/])= (.*?);/ => *sample = *sample \1 \2;
    @sub? /\*sample = (.*?);/ => out[i] = \1;
    @sub? /\*sample\b/ => sample
    @sub? /for sample in (?:&mut out|out\.iter_mut\(\)) \{/ => for i in it: 0..O { let sample = out[i];
    @loop 0
        invariant it.iter.end == O, it.snapshot.end == O, forall|c: int| 0 <= c < O ==> #[trigger] out@[c] == (if c < i { fmul(outp((old(self).ugen.s@, old(flags).s@), *old(ctx), input@)[c], old(self).value) } else { outp((old(self).ugen.s@, old(flags).s@), *old(ctx), input@)[c] }),
    @*/
    /*@extract knaster_core_dsp/src/wrappers_core/math.rs | impl<T: UGen> UGen for WrMul<T> | process_block
    requires old(output).wf(),
    ensures
        (final(self).ugen.s@, final(flags).s@) == block_next((old(self).ugen.s@, old(flags).s@), *old(ctx), input.s@, old(output).s@), final(self).value == old(self).value, *final(ctx) == ctx_next((old(self).ugen.s@, old(flags).s@), *old(ctx)),
        final(output).wf(), final(output).n == old(output).n, final(output).s@.len() == old(output).s@.len(),
        forall|c: int, f: int| 0 <= c < old(output).s@.len() && 0 <= f < old(output).n@ ==> #[trigger] final(output).s@[c][f] == fmul(block_out((old(self).ugen.s@, old(flags).s@), *old(ctx), input.s@, old(output).s@)[c][f], old(self).value),
    @sub? /T::Parameters::USIZE/ => P
    @sub? /T::param_apply\(&mut self\.ugen, / => self.ugen.param_apply(
    @sub? /T::(param_descriptions|param_hints)\(\)/ => U::<I, O, P>::\1()
    @sub? /T::Sample::new/ => F::new
    @sub? /unsafe \{/ => {
    @sig /<InBlock, OutBlock>/ =>
    @sig /where.*$/ =>

    @sig? /&InBlock/ => &Block
    @sig /&mut OutBlock/ => &mut Block
    @sig /^/ => #[verifier::loop_isolation(false)]\n

    @sub? /\*sample ([-+*\/])= (.*?);/ => *sample = *sample \1 \2;
    @sub? /\*sample = (.*?);/ => output.write(\1, c, f);
    @sub? /\*sample\b/ => sample
    @sub? /for channel in output\.iter_mut\(\) \{/ => let ghost b0 = output.s@; let (nc, nf) = (output.channels(), output.block_size()); for c in it: 0..nc {
    @sub? /for sample in channel(?:\.iter_mut\(\))? \{/ => for f in it2: 0..nf { let sample = output.read(c, f);
    @loop 0
        invariant
            it.iter.end == nc, it.snapshot.end == nc, output.wf(), output.n == old(output).n, output.s@.len() == nc,
            forall|k: int, f: int| 0 <= k < nc && 0 <= f < nf ==> #[trigger] output.s@[k][f] == (if k < c { fmul(b0[k][f], old(self).value) } else { b0[k][f] }),
    @loop 1
        invariant
            it2.iter.end == nf, it2.snapshot.end == nf, c < nc, output.wf(), output.n == old(output).n, output.s@.len() == nc,
            forall|k: int, g: int| 0 <= k < nc && 0 <= g < nf ==> #[trigger] output.s@[k][g] == (if k < c || (k == c && g < f) { fmul(b0[k][g], old(self).value) } else { b0[k][g] }),
    @*/
    /*@extract knaster_core_dsp/src/wrappers_core/math.rs | impl<T: UGen> UGen for WrMul<T> | param_descriptions | ret=r
    requires P < usize::MAX,
    ensures r@ =~= names::<P>().push(lit_spec("wr_mul")),
    @sub? /T::Parameters::USIZE/ => P
    @sub? /T::param_apply\(&mut self\.ugen, / => self.ugen.param_apply(
    @sub? /T::(param_descriptions|param_hints)\(\)/ => U::<I, O, P>::\1()
    @sub? /T::Sample::new/ => F::new
    @sub? /unsafe \{/ => {
    @sig? /knaster_core::numeric_array::NumericArray<&'static str, Self::Parameters>/ => Vec<Name>
    @sub /NumericArray::default\(\)/ => fresh(P + 1)
    @sub /("\w+")/ => lit(\1)
    @loop 0
        invariant d@.len() == P + 1, gd@ == names::<P>(), gd@.len() == P, forall|k: int| 0 <= k < i ==> d@[k] == gd@[k],
    @*/
    /*@extract knaster_core_dsp/src/wrappers_core/math.rs | impl<T: UGen> UGen for WrMul<T> | param_hints | ret=r
    requires P < usize::MAX,
    ensures r@ =~= hints::<P>().push(float_hint()),
    @sub? /T::Parameters::USIZE/ => P
    @sub? /T::param_apply\(&mut self\.ugen, / => self.ugen.param_apply(
    @sub? /T::(param_descriptions|param_hints)\(\)/ => U::<I, O, P>::\1()
    @sub? /T::Sample::new/ => F::new
    @sub? /unsafe \{/ => {
    @sig? /knaster_core::numeric_array::NumericArray<ParameterHint, Self::Parameters>/ => Vec<Hint>
    @sub /NumericArray::default\(\)/ => fresh(P + 1)
    @sub /ParameterHint::new_float\(.*?\);/ => new_float_hint();
    @loop 0
        invariant d@.len() == P + 1, gd@ == hints::<P>(), gd@.len() == P, forall|k: int| 0 <= k < i ==> d@[k] == gd@[k],
    @*/
    /*@extract knaster_core_dsp/src/wrappers_core/math.rs | impl<T: UGen> UGen for WrMul<T> | param_apply
    requires index <= P, index == P ==> value is Float,
    ensures
        index < P ==> final(self).ugen.s@ == applied(old(self).ugen.s@, *old(ctx), index, value) && final(self).value == old(self).value,
        index == P ==> final(self).ugen.s@ == old(self).ugen.s@ && final(self).value == fnew(value->Float_0),
    @sub? /T::Parameters::USIZE/ => P
    @sub? /T::param_apply\(&mut self\.ugen, / => self.ugen.param_apply(
    @sub? /T::(param_descriptions|param_hints)\(\)/ => U::<I, O, P>::\1()
    @sub? /T::Sample::new/ => F::new
    @sub? /unsafe \{/ => {
    @*/
    /*@extract knaster_core_dsp/src/wrappers_core/math.rs | impl<T: UGen> UGen for WrMul<T> | set_ar_param_buffer
    requires index <= P,
    ensures
        final(self).value == old(self).value,
        final(self).ugen.s@ == (if index < P { buffered(old(self).ugen.s@, *old(ctx), index, buffer) } else { old(self).ugen.s@ }),
    @sub? /T::Parameters::USIZE/ => P
    @sub? /T::param_apply\(&mut self\.ugen, / => self.ugen.param_apply(
    @sub? /T::(param_descriptions|param_hints)\(\)/ => U::<I, O, P>::\1()
    @sub? /T::Sample::new/ => F::new
    @sub? /unsafe \{/ => {
    @sig /unsafe fn/ => fn
    @sig /\*const T::Sample/ => Ptr
    @*/
    /*@extract knaster_core_dsp/src/wrappers_core/math.rs | impl<T: UGen> UGen for WrMul<T> | set_delay_within_block_for_param
    requires index <= P,
    ensures
        final(self).value == old(self).value,
        final(self).ugen.s@ == (if index < P { delayed(old(self).ugen.s@, *old(ctx), index, delay) } else { old(self).ugen.s@ }),
    @sub? /T::Parameters::USIZE/ => P
    @sub? /T::param_apply\(&mut self\.ugen, / => self.ugen.param_apply(
    @sub? /T::(param_descriptions|param_hints)\(\)/ => U::<I, O, P>::\1()
    @sub? /T::Sample::new/ => F::new
    @sub? /unsafe \{/ => {
    @*/
}
struct WrAdd<const I: usize, const O: usize, const P: usize> { ugen: U<I, O, P>, value: F }
impl<const I: usize, const O: usize, const P: usize> WrAdd<I, O, P> {
    /*@extract knaster_core_dsp/src/wrappers_core/math.rs | impl<T: UGen> UGen for WrAdd<T> | init
    ensures final(self).ugen.s@ == init_next(old(self).ugen.s@, sample_rate, block_size), final(self).value == old(self).value,
    @sub? /T::Parameters::USIZE/ => P
    @sub? /T::param_apply\(&mut self\.ugen, / => self.ugen.param_apply(
    @sub? /T::(param_descriptions|param_hints)\(\)/ => U::<I, O, P>::\1()
    @sub? /T::Sample::new/ => F::new
    @sub? /unsafe \{/ => {
    @*/
    /*@extract knaster_core_dsp/src/wrappers_core/math.rs | impl<T: UGen> UGen for WrAdd<T> | process | ret=r
    ensures
        (final(self).ugen.s@, final(flags).s@) == next((old(self).ugen.s@, old(flags).s@), *old(ctx), input@), final(self).value == old(self).value, *final(ctx) == ctx_next((old(self).ugen.s@, old(flags).s@), *old(ctx)),
        forall|c: int| 0 <= c < O ==> #[trigger] r@[c] == fadd(outp((old(self).ugen.s@, old(flags).s@), *old(ctx), input@)[c], old(self).value),
    @sub? /T::Parameters::USIZE/ => P
    @sub? /T::param_apply\(&mut self\.ugen, / => self.ugen.param_apply(
    @sub? /T::(param_descriptions|param_hints)\(\)/ => U::<I, O, P>::\1()
    @sub? /T::Sample::new/ => F::new
    @sub? /unsafe \{/ => {
    @sig? /knaster_core::Frame<Self::Sample, Self::Inputs>/ => [F; I]
    @sig? /knaster_core::Frame<Self::Sample, Self::Outputs>/ => [F; O]
    @sig /^/ => #[verifier::loop_isolation(false)]\n

    @sub? /\*sample ([-+*\/])= (.*?);/ => *sample = *sample \1 \2;
    @sub? /\*sample = (.*?);/ => out[i] = \1;
    @sub? /\*sample\b/ => sample
    @sub? /for sample in (?:&mut out|out\.iter_mut\(\)) \{/ => for i in it: 0..O { let sample = out[i];
    @loop 0
        invariant it.iter.end == O, it.snapshot.end == O, forall|c: int| 0 <= c < O ==> #[trigger] out@[c] == (if c < i { fadd(outp((old(self).ugen.s@, old(flags).s@), *old(ctx), input@)[c], old(self).value) } else { outp((old(self).ugen.s@, old(flags).s@), *old(ctx), input@)[c] }),
    @*/
    /*@extract knaster_core_dsp/src/wrappers_core/math.rs | impl<T: UGen> UGen for WrAdd<T> | process_block
    requires old(output).wf(),
    ensures
        (final(self).ugen.s@, final(flags).s@) == block_next((old(self).ugen.s@, old(flags).s@), *old(ctx), input.s@, old(output).s@), final(self).value == old(self).value, *final(ctx) == ctx_next((old(self).ugen.s@, old(flags).s@), *old(ctx)),
        final(output).wf(), final(output).n == old(output).n, final(output).s@.len() == old(output).s@.len(),
        forall|c: int, f: int| 0 <= c < old(output).s@.len() && 0 <= f < old(output).n@ ==> #[trigger] final(output).s@[c][f] == fadd(block_out((old(self).ugen.s@, old(flags).s@), *old(ctx), input.s@, old(output).s@)[c][f], old(self).value),
    @sub? /T::Parameters::USIZE/ => P
    @sub? /T::param_apply\(&mut self\.ugen, / => self.ugen.param_apply(
    @sub? /T::(param_descriptions|param_hints)\(\)/ => U::<I, O, P>::\1()
    @sub? /T::Sample::new/ => F::new
    @sub? /unsafe \{/ => {
    @sig /<InBlock, OutBlock>/ =>
    @sig /where.*$/ =>

    @sig? /&InBlock/ => &Block
    @sig /&mut OutBlock/ => &mut Block
    @sig /^/ => #[verifier::loop_isolation(false)]\n

    @sub? /\*sample ([-+*\/])= (.*?);/ => *sample = *sample \1 \2;
    @sub? /\*sample = (.*?);/ => output.write(\1, c, f);
    @sub? /\*sample\b/ => sample
    @sub? /for channel in output\.iter_mut\(\) \{/ => let ghost b0 = output.s@; let (nc, nf) = (output.channels(), output.block_size()); for c in it: 0..nc {
    @sub? /for sample in channel(?:\.iter_mut\(\))? \{/ => for f in it2: 0..nf { let sample = output.read(c, f);
    @loop 0
        invariant
            it.iter.end == nc, it.snapshot.end == nc, output.wf(), output.n == old(output).n, output.s@.len() == nc,
            forall|k: int, f: int| 0 <= k < nc && 0 <= f < nf ==> #[trigger] output.s@[k][f] == (if k < c { fadd(b0[k][f], old(self).value) } else { b0[k][f] }),
    @loop 1
        invariant
            it2.iter.end == nf, it2.snapshot.end == nf, c < nc, output.wf(), output.n == old(output).n, output.s@.len() == nc,
            forall|k: int, g: int| 0 <= k < nc && 0 <= g < nf ==> #[trigger] output.s@[k][g] == (if k < c || (k == c && g < f) { fadd(b0[k][g], old(self).value) } else { b0[k][g] }),
    @*/
    /*@extract knaster_core_dsp/src/wrappers_core/math.rs | impl<T: UGen> UGen for WrAdd<T> | param_descriptions | ret=r
    ensures r@ == names::<P>(),
    @sub? /T::Parameters::USIZE/ => P
    @sub? /T::param_apply\(&mut self\.ugen, / => self.ugen.param_apply(
    @sub? /T::(param_descriptions|param_hints)\(\)/ => U::<I, O, P>::\1()
    @sub? /T::Sample::new/ => F::new
    @sub? /unsafe \{/ => {
    @sig? /(?:knaster_core::numeric_array::)?NumericArray<&'static str, Self::Parameters>/ => Vec<Name>
    @*/
    /*@extract knaster_core_dsp/src/wrappers_core/math.rs | impl<T: UGen> UGen for WrAdd<T> | param_hints | ret=r
    ensures r@ == hints::<P>(),
    @sub? /T::Parameters::USIZE/ => P
    @sub? /T::param_apply\(&mut self\.ugen, / => self.ugen.param_apply(
    @sub? /T::(param_descriptions|param_hints)\(\)/ => U::<I, O, P>::\1()
    @sub? /T::Sample::new/ => F::new
    @sub? /unsafe \{/ => {
    @sig? /(?:knaster_core::numeric_array::)?NumericArray<ParameterHint, Self::Parameters>/ => Vec<Hint>
    @*/
    /*@extract knaster_core_dsp/src/wrappers_core/math.rs | impl<T: UGen> UGen for WrAdd<T> | param_apply
    requires index < P,
    ensures final(self).ugen.s@ == applied(old(self).ugen.s@, *old(ctx), index, value), final(self).value == old(self).value,
    @sub? /T::Parameters::USIZE/ => P
    @sub? /T::param_apply\(&mut self\.ugen, / => self.ugen.param_apply(
    @sub? /T::(param_descriptions|param_hints)\(\)/ => U::<I, O, P>::\1()
    @sub? /T::Sample::new/ => F::new
    @sub? /unsafe \{/ => {
    @*/
    /*@extract knaster_core_dsp/src/wrappers_core/math.rs | impl<T: UGen> UGen for WrAdd<T> | set_ar_param_buffer
    requires index < P,
    ensures final(self).ugen.s@ == buffered(old(self).ugen.s@, *old(ctx), index, buffer), final(self).value == old(self).value,
    @sub? /T::Parameters::USIZE/ => P
    @sub? /T::param_apply\(&mut self\.ugen, / => self.ugen.param_apply(
    @sub? /T::(param_descriptions|param_hints)\(\)/ => U::<I, O, P>::\1()
    @sub? /T::Sample::new/ => F::new
    @sub? /unsafe \{/ => {
    @sig /unsafe fn/ => fn
    @sig /\*const T::Sample/ => Ptr
    @*/
    /*@extract knaster_core_dsp/src/wrappers_core/math.rs | impl<T: UGen> UGen for WrAdd<T> | set_delay_within_block_for_param
    requires index < P,
    ensures final(self).ugen.s@ == delayed(old(self).ugen.s@, *old(ctx), index, delay), final(self).value == old(self).value,
    @sub? /T::Parameters::USIZE/ => P
    @sub? /T::param_apply\(&mut self\.ugen, / => self.ugen.param_apply(
    @sub? /T::(param_descriptions|param_hints)\(\)/ => U::<I, O, P>::\1()
    @sub? /T::Sample::new/ => F::new
    @sub? /unsafe \{/ => {
    @*/
}
struct WrSub<const I: usize, const O: usize, const P: usize> { ugen: U<I, O, P>, value: F }
impl<const I: usize, const O: usize, const P: usize> WrSub<I, O, P> {
    /*@extract knaster_core_dsp/src/wrappers_core/math.rs | impl<T: UGen> UGen for WrSub<T> | init
    ensures final(self).ugen.s@ == init_next(old(self).ugen.s@, sample_rate, block_size), final(self).value == old(self).value,
    @sub? /T::Parameters::USIZE/ => P
    @sub? /T::param_apply\(&mut self\.ugen, / => self.ugen.param_apply(
    @sub? /T::(param_descriptions|param_hints)\(\)/ => U::<I, O, P>::\1()
    @sub? /T::Sample::new/ => F::new
    @sub? /unsafe \{/ => {
    @*/
    /*@extract knaster_core_dsp/src/wrappers_core/math.rs | impl<T: UGen> UGen for WrSub<T> | process | ret=r
    ensures
        (final(self).ugen.s@, final(flags).s@) == next((old(self).ugen.s@, old(flags).s@), *old(ctx), input@), final(self).value == old(self).value, *final(ctx) == ctx_next((old(self).ugen.s@, old(flags).s@), *old(ctx)),
        forall|c: int| 0 <= c < O ==> #[trigger] r@[c] == fsub(outp((old(self).ugen.s@, old(flags).s@), *old(ctx), input@)[c], old(self).value),
    @sub? /T::Parameters::USIZE/ => P
    @sub? /T::param_apply\(&mut self\.ugen, / => self.ugen.param_apply(
    @sub? /T::(param_descriptions|param_hints)\(\)/ => U::<I, O, P>::\1()
    @sub? /T::Sample::new/ => F::new
    @sub? /unsafe \{/ => {
    @sig? /knaster_core::Frame<Self::Sample, Self::Inputs>/ => [F; I]
    @sig? /knaster_core::Frame<Self::Sample, Self::Outputs>/ => [F; O]
    @sig /^/ => #[verifier::loop_isolation(false)]\n

    @sub? /\*sample ([-+*\/])= (.*?);/ => *sample = *sample \1 \2;
    @sub? /\*sample = (.*?);/ => out[i] = \1;
    @sub? /\*sample\b/ => sample
    @sub? /for sample in (?:&mut out|out\.iter_mut\(\)) \{/ => for i in it: 0..O { let sample = out[i];
    @loop 0
        invariant it.iter.end == O, it.snapshot.end == O, forall|c: int| 0 <= c < O ==> #[trigger] out@[c] == (if c < i { fsub(outp((old(self).ugen.s@, old(flags).s@), *old(ctx), input@)[c], old(self).value) } else { outp((old(self).ugen.s@, old(flags).s@), *old(ctx), input@)[c] }),
    @*/
    /*@extract knaster_core_dsp/src/wrappers_core/math.rs | impl<T: UGen> UGen for WrSub<T> | process_block
    requires old(output).wf(),
    ensures
        (final(self).ugen.s@, final(flags).s@) == block_next((old(self).ugen.s@, old(flags).s@), *old(ctx), input.s@, old(output).s@), final(self).value == old(self).value, *final(ctx) == ctx_next((old(self).ugen.s@, old(flags).s@), *old(ctx)),
        final(output).wf(), final(output).n == old(output).n, final(output).s@.len() == old(output).s@.len(),
        forall|c: int, f: int| 0 <= c < old(output).s@.len() && 0 <= f < old(output).n@ ==> #[trigger] final(output).s@[c][f] == fsub(block_out((old(self).ugen.s@, old(flags).s@), *old(ctx), input.s@, old(output).s@)[c][f], old(self).value),
    @sub? /T::Parameters::USIZE/ => P
    @sub? /T::param_apply\(&mut self\.ugen, / => self.ugen.param_apply(
    @sub? /T::(param_descriptions|param_hints)\(\)/ => U::<I, O, P>::\1()
    @sub? /T::Sample::new/ => F::new
    @sub? /unsafe \{/ => {
    @sig /<InBlock, OutBlock>/ =>
    @sig /where.*$/ =>

    @sig? /&InBlock/ => &Block
    @sig /&mut OutBlock/ => &mut Block
    @sig /^/ => #[verifier::loop_isolation(false)]\n

    @sub? /\*sample ([-+*\/])= (.*?);/ => *sample = *sample \1 \2;
    @sub? /\*sample = (.*?);/ => output.write(\1, c, f);
    @sub? /\*sample\b/ => sample
    @sub? /for channel in output\.iter_mut\(\) \{/ => let ghost b0 = output.s@; let (nc, nf) = (output.channels(), output.block_size()); for c in it: 0..nc {
    @sub? /for sample in channel(?:\.iter_mut\(\))? \{/ => for f in it2: 0..nf { let sample = output.read(c, f);
    @loop 0
        invariant
            it.iter.end == nc, it.snapshot.end == nc, output.wf(), output.n == old(output).n, output.s@.len() == nc,
            forall|k: int, f: int| 0 <= k < nc && 0 <= f < nf ==> #[trigger] output.s@[k][f] == (if k < c { fsub(b0[k][f], old(self).value) } else { b0[k][f] }),
    @loop 1
        invariant
            it2.iter.end == nf, it2.snapshot.end == nf, c < nc, output.wf(), output.n == old(output).n, output.s@.len() == nc,
            forall|k: int, g: int| 0 <= k < nc && 0 <= g < nf ==> #[trigger] output.s@[k][g] == (if k < c || (k == c && g < f) { fsub(b0[k][g], old(self).value) } else { b0[k][g] }),
    @*/
    /*@extract knaster_core_dsp/src/wrappers_core/math.rs | impl<T: UGen> UGen for WrSub<T> | param_descriptions | ret=r
    ensures r@ == names::<P>(),
    @sub? /T::Parameters::USIZE/ => P
    @sub? /T::param_apply\(&mut self\.ugen, / => self.ugen.param_apply(
    @sub? /T::(param_descriptions|param_hints)\(\)/ => U::<I, O, P>::\1()
    @sub? /T::Sample::new/ => F::new
    @sub? /unsafe \{/ => {
    @sig? /(?:knaster_core::numeric_array::)?NumericArray<&'static str, Self::Parameters>/ => Vec<Name>
    @*/
    /*@extract knaster_core_dsp/src/wrappers_core/math.rs | impl<T: UGen> UGen for WrSub<T> | param_hints | ret=r
    ensures r@ == hints::<P>(),
    @sub? /T::Parameters::USIZE/ => P
    @sub? /T::param_apply\(&mut self\.ugen, / => self.ugen.param_apply(
    @sub? /T::(param_descriptions|param_hints)\(\)/ => U::<I, O, P>::\1()
    @sub? /T::Sample::new/ => F::new
    @sub? /unsafe \{/ => {
    @sig? /(?:knaster_core::numeric_array::)?NumericArray<ParameterHint, Self::Parameters>/ => Vec<Hint>
    @*/
    /*@extract knaster_core_dsp/src/wrappers_core/math.rs | impl<T: UGen> UGen for WrSub<T> | param_apply
    requires index < P,
    ensures final(self).ugen.s@ == applied(old(self).ugen.s@, *old(ctx), index, value), final(self).value == old(self).value,
    @sub? /T::Parameters::USIZE/ => P
    @sub? /T::param_apply\(&mut self\.ugen, / => self.ugen.param_apply(
    @sub? /T::(param_descriptions|param_hints)\(\)/ => U::<I, O, P>::\1()
    @sub? /T::Sample::new/ => F::new
    @sub? /unsafe \{/ => {
    @*/
    /*@extract knaster_core_dsp/src/wrappers_core/math.rs | impl<T: UGen> UGen for WrSub<T> | set_ar_param_buffer
    requires index < P,
    ensures final(self).ugen.s@ == buffered(old(self).ugen.s@, *old(ctx), index, buffer), final(self).value == old(self).value,
    @sub? /T::Parameters::USIZE/ => P
    @sub? /T::param_apply\(&mut self\.ugen, / => self.ugen.param_apply(
    @sub? /T::(param_descriptions|param_hints)\(\)/ => U::<I, O, P>::\1()
    @sub? /T::Sample::new/ => F::new
    @sub? /unsafe \{/ => {
    @sig /unsafe fn/ => fn
    @sig /\*const T::Sample/ => Ptr
    @*/
    /*@extract knaster_core_dsp/src/wrappers_core/math.rs | impl<T: UGen> UGen for WrSub<T> | set_delay_within_block_for_param
    requires index < P,
    ensures final(self).ugen.s@ == delayed(old(self).ugen.s@, *old(ctx), index, delay), final(self).value == old(self).value,
    @sub? /T::Parameters::USIZE/ => P
    @sub? /T::param_apply\(&mut self\.ugen, / => self.ugen.param_apply(
    @sub? /T::(param_descriptions|param_hints)\(\)/ => U::<I, O, P>::\1()
    @sub? /T::Sample::new/ => F::new
    @sub? /unsafe \{/ => {
    @*/
}
struct WrVSub<const I: usize, const O: usize, const P: usize> { ugen: U<I, O, P>, value: F }
impl<const I: usize, const O: usize, const P: usize> WrVSub<I, O, P> {
    /*@extract knaster_core_dsp/src/wrappers_core/math.rs | impl<T: UGen> UGen for WrVSub<T> | init
    ensures final(self).ugen.s@ == init_next(old(self).ugen.s@, sample_rate, block_size), final(self).value == old(self).value,
    @sub? /T::Parameters::USIZE/ => P
    @sub? /T::param_apply\(&mut self\.ugen, / => self.ugen.param_apply(
    @sub? /T::(param_descriptions|param_hints)\(\)/ => U::<I, O, P>::\1()
    @sub? /T::Sample::new/ => F::new
    @sub? /unsafe \{/ => {
    @*/
    /*@extract knaster_core_dsp/src/wrappers_core/math.rs | impl<T: UGen> UGen for WrVSub<T> | process | ret=r
    ensures
        (final(self).ugen.s@, final(flags).s@) == next((old(self).ugen.s@, old(flags).s@), *old(ctx), input@), final(self).value == old(self).value, *final(ctx) == ctx_next((old(self).ugen.s@, old(flags).s@), *old(ctx)),
        forall|c: int| 0 <= c < O ==> #[trigger] r@[c] == fsub(old(self).value, outp((old(self).ugen.s@, old(flags).s@), *old(ctx), input@)[c]),
    @sub? /T::Parameters::USIZE/ => P
    @sub? /T::param_apply\(&mut self\.ugen, / => self.ugen.param_apply(
    @sub? /T::(param_descriptions|param_hints)\(\)/ => U::<I, O, P>::\1()
    @sub? /T::Sample::new/ => F::new
    @sub? /unsafe \{/ => {
    @sig? /knaster_core::Frame<Self::Sample, Self::Inputs>/ => [F; I]
    @sig? /knaster_core::Frame<Self::Sample, Self::Outputs>/ => [F; O]
    @sig /^/ => #[verifier::loop_isolation(false)]\n

    @sub? /\*sample ([-+*\/])= (.*?);/ => *sample = *sample \1 \2;
    @sub? /\*sample = (.*?);/ => out[i] = \1;
    @sub? /\*sample\b/ => sample
    @sub? /for sample in (?:&mut out|out\.iter_mut\(\)) \{/ => for i in it: 0..O { let sample = out[i];
    @loop 0
        invariant it.iter.end == O, it.snapshot.end == O, forall|c: int| 0 <= c < O ==> #[trigger] out@[c] == (if c < i { fsub(old(self).value, outp((old(self).ugen.s@, old(flags).s@), *old(ctx), input@)[c]) } else { outp((old(self).ugen.s@, old(flags).s@), *old(ctx), input@)[c] }),
    @*/
    /*@extract knaster_core_dsp/src/wrappers_core/math.rs | impl<T: UGen> UGen for WrVSub<T> | process_block
    requires old(output).wf(),
    ensures
        (final(self).ugen.s@, final(flags).s@) == block_next((old(self).ugen.s@, old(flags).s@), *old(ctx), input.s@, old(output).s@), final(self).value == old(self).value, *final(ctx) == ctx_next((old(self).ugen.s@, old(flags).s@), *old(ctx)),
        final(output).wf(), final(output).n == old(output).n, final(output).s@.len() == old(output).s@.len(),
        forall|c: int, f: int| 0 <= c < old(output).s@.len() && 0 <= f < old(output).n@ ==> #[trigger] final(output).s@[c][f] == fsub(old(self).value, block_out((old(self).ugen.s@, old(flags).s@), *old(ctx), input.s@, old(output).s@)[c][f]),
    @sub? /T::Parameters::USIZE/ => P
    @sub? /T::param_apply\(&mut self\.ugen, / => self.ugen.param_apply(
    @sub? /T::(param_descriptions|param_hints)\(\)/ => U::<I, O, P>::\1()
    @sub? /T::Sample::new/ => F::new
    @sub? /unsafe \{/ => {
    @sig /<InBlock, OutBlock>/ =>
    @sig /where.*$/ =>

    @sig? /&InBlock/ => &Block
    @sig /&mut OutBlock/ => &mut Block
    @sig /^/ => #[verifier::loop_isolation(false)]\n

    @sub? /\*sample ([-+*\/])= (.*?);/ => *sample = *sample \1 \2;
    @sub? /\*sample = (.*?);/ => output.write(\1, c, f);
    @sub? /\*sample\b/ => sample
    @sub? /for channel in output\.iter_mut\(\) \{/ => let ghost b0 = output.s@; let (nc, nf) = (output.channels(), output.block_size()); for c in it: 0..nc {
    @sub? /for sample in channel(?:\.iter_mut\(\))? \{/ => for f in it2: 0..nf { let sample = output.read(c, f);
    @loop 0
        invariant
            it.iter.end == nc, it.snapshot.end == nc, output.wf(), output.n == old(output).n, output.s@.len() == nc,
            forall|k: int, f: int| 0 <= k < nc && 0 <= f < nf ==> #[trigger] output.s@[k][f] == (if k < c { fsub(old(self).value, b0[k][f]) } else { b0[k][f] }),
    @loop 1
        invariant
            it2.iter.end == nf, it2.snapshot.end == nf, c < nc, output.wf(), output.n == old(output).n, output.s@.len() == nc,
            forall|k: int, g: int| 0 <= k < nc && 0 <= g < nf ==> #[trigger] output.s@[k][g] == (if k < c || (k == c && g < f) { fsub(old(self).value, b0[k][g]) } else { b0[k][g] }),
    @*/
    /*@extract knaster_core_dsp/src/wrappers_core/math.rs | impl<T: UGen> UGen for WrVSub<T> | param_descriptions | ret=r
    ensures r@ == names::<P>(),
    @sub? /T::Parameters::USIZE/ => P
    @sub? /T::param_apply\(&mut self\.ugen, / => self.ugen.param_apply(
    @sub? /T::(param_descriptions|param_hints)\(\)/ => U::<I, O, P>::\1()
    @sub? /T::Sample::new/ => F::new
    @sub? /unsafe \{/ => {
    @sig? /(?:knaster_core::numeric_array::)?NumericArray<&'static str, Self::Parameters>/ => Vec<Name>
    @*/
    /*@extract knaster_core_dsp/src/wrappers_core/math.rs | impl<T: UGen> UGen for WrVSub<T> | param_hints | ret=r
    ensures r@ == hints::<P>(),
    @sub? /T::Parameters::USIZE/ => P
    @sub? /T::param_apply\(&mut self\.ugen, / => self.ugen.param_apply(
    @sub? /T::(param_descriptions|param_hints)\(\)/ => U::<I, O, P>::\1()
    @sub? /T::Sample::new/ => F::new
    @sub? /unsafe \{/ => {
    @sig? /(?:knaster_core::numeric_array::)?NumericArray<ParameterHint, Self::Parameters>/ => Vec<Hint>
    @*/
    /*@extract knaster_core_dsp/src/wrappers_core/math.rs | impl<T: UGen> UGen for WrVSub<T> | param_apply
    requires index < P,
    ensures final(self).ugen.s@ == applied(old(self).ugen.s@, *old(ctx), index, value), final(self).value == old(self).value,
    @sub? /T::Parameters::USIZE/ => P
    @sub? /T::param_apply\(&mut self\.ugen, / => self.ugen.param_apply(
    @sub? /T::(param_descriptions|param_hints)\(\)/ => U::<I, O, P>::\1()
    @sub? /T::Sample::new/ => F::new
    @sub? /unsafe \{/ => {
    @*/
    /*@extract knaster_core_dsp/src/wrappers_core/math.rs | impl<T: UGen> UGen for WrVSub<T> | set_ar_param_buffer
    requires index < P,
    ensures final(self).ugen.s@ == buffered(old(self).ugen.s@, *old(ctx), index, buffer), final(self).value == old(self).value,
    @sub? /T::Parameters::USIZE/ => P
    @sub? /T::param_apply\(&mut self\.ugen, / => self.ugen.param_apply(
    @sub? /T::(param_descriptions|param_hints)\(\)/ => U::<I, O, P>::\1()
    @sub? /T::Sample::new/ => F::new
    @sub? /unsafe \{/ => {
    @sig /unsafe fn/ => fn
    @sig /\*const T::Sample/ => Ptr
    @*/
    /*@extract knaster_core_dsp/src/wrappers_core/math.rs | impl<T: UGen> UGen for WrVSub<T> | set_delay_within_block_for_param
    requires index < P,
    ensures final(self).ugen.s@ == delayed(old(self).ugen.s@, *old(ctx), index, delay), final(self).value == old(self).value,
    @sub? /T::Parameters::USIZE/ => P
    @sub? /T::param_apply\(&mut self\.ugen, / => self.ugen.param_apply(
    @sub? /T::(param_descriptions|param_hints)\(\)/ => U::<I, O, P>::\1()
    @sub? /T::Sample::new/ => F::new
    @sub? /unsafe \{/ => {
    @*/
}
struct WrDiv<const I: usize, const O: usize, const P: usize> { ugen: U<I, O, P>, value: F }
impl<const I: usize, const O: usize, const P: usize> WrDiv<I, O, P> {
    /*@extract knaster_core_dsp/src/wrappers_core/math.rs | impl<T: UGen> UGen for WrDiv<T> | init
    ensures final(self).ugen.s@ == init_next(old(self).ugen.s@, sample_rate, block_size), final(self).value == old(self).value,
    @sub? /T::Parameters::USIZE/ => P
    @sub? /T::param_apply\(&mut self\.ugen, / => self.ugen.param_apply(
    @sub? /T::(param_descriptions|param_hints)\(\)/ => U::<I, O, P>::\1()
    @sub? /T::Sample::new/ => F::new
    @sub? /unsafe \{/ => {
    @*/
    /*@extract knaster_core_dsp/src/wrappers_core/math.rs | impl<T: UGen> UGen for WrDiv<T> | process | ret=r
    ensures
        (final(self).ugen.s@, final(flags).s@) == next((old(self).ugen.s@, old(flags).s@), *old(ctx), input@), final(self).value == old(self).value, *final(ctx) == ctx_next((old(self).ugen.s@, old(flags).s@), *old(ctx)),
        forall|c: int| 0 <= c < O ==> #[trigger] r@[c] == fdiv(outp((old(self).ugen.s@, old(flags).s@), *old(ctx), input@)[c], old(self).value),
    @sub? /T::Parameters::USIZE/ => P
    @sub? /T::param_apply\(&mut self\.ugen, / => self.ugen.param_apply(
    @sub? /T::(param_descriptions|param_hints)\(\)/ => U::<I, O, P>::\1()
    @sub? /T::Sample::new/ => F::new
    @sub? /unsafe \{/ => {
    @sig? /knaster_core::Frame<Self::Sample, Self::Inputs>/ => [F; I]
    @sig? /knaster_core::Frame<Self::Sample, Self::Outputs>/ => [F; O]
    @sig /^/ => #[verifier::loop_isolation(false)]\n

    @sub? /\*sample ([-+*\/])= (.*?);/ => *sample = *sample \1 \2;
    @sub? /\*sample = (.*?);/ => out[i] = \1;
    @sub? /\*sample\b/ => sample
    @sub? /for sample in (?:&mut out|out\.iter_mut\(\)) \{/ => for i in it: 0..O { let sample = out[i];
    @loop 0
        invariant it.iter.end == O, it.snapshot.end == O, forall|c: int| 0 <= c < O ==> #[trigger] out@[c] == (if c < i { fdiv(outp((old(self).ugen.s@, old(flags).s@), *old(ctx), input@)[c], old(self).value) } else { outp((old(self).ugen.s@, old(flags).s@), *old(ctx), input@)[c] }),
    @*/
    /*@extract knaster_core_dsp/src/wrappers_core/math.rs | impl<T: UGen> UGen for WrDiv<T> | process_block
    requires old(output).wf(),
    ensures
        (final(self).ugen.s@, final(flags).s@) == block_next((old(self).ugen.s@, old(flags).s@), *old(ctx), input.s@, old(output).s@), final(self).value == old(self).value, *final(ctx) == ctx_next((old(self).ugen.s@, old(flags).s@), *old(ctx)),
        final(output).wf(), final(output).n == old(output).n, final(output).s@.len() == old(output).s@.len(),
        forall|c: int, f: int| 0 <= c < old(output).s@.len() && 0 <= f < old(output).n@ ==> #[trigger] final(output).s@[c][f] == fdiv(block_out((old(self).ugen.s@, old(flags).s@), *old(ctx), input.s@, old(output).s@)[c][f], old(self).value),
    @sub? /T::Parameters::USIZE/ => P
    @sub? /T::param_apply\(&mut self\.ugen, / => self.ugen.param_apply(
    @sub? /T::(param_descriptions|param_hints)\(\)/ => U::<I, O, P>::\1()
    @sub? /T::Sample::new/ => F::new
    @sub? /unsafe \{/ => {
    @sig /<InBlock, OutBlock>/ =>
    @sig /where.*$/ =>

    @sig? /&InBlock/ => &Block
    @sig /&mut OutBlock/ => &mut Block
    @sig /^/ => #[verifier::loop_isolation(false)]\n

    @sub? /\*sample ([-+*\/])= (.*?);/ => *sample = *sample \1 \2;
    @sub? /\*sample = (.*?);/ => output.write(\1, c, f);
    @sub? /\*sample\b/ => sample
    @sub? /for channel in output\.iter_mut\(\) \{/ => let ghost b0 = output.s@; let (nc, nf) = (output.channels(), output.block_size()); for c in it: 0..nc {
    @sub? /for sample in channel(?:\.iter_mut\(\))? \{/ => for f in it2: 0..nf { let sample = output.read(c, f);
    @loop 0
        invariant
            it.iter.end == nc, it.snapshot.end == nc, output.wf(), output.n == old(output).n, output.s@.len() == nc,
            forall|k: int, f: int| 0 <= k < nc && 0 <= f < nf ==> #[trigger] output.s@[k][f] == (if k < c { fdiv(b0[k][f], old(self).value) } else { b0[k][f] }),
    @loop 1
        invariant
            it2.iter.end == nf, it2.snapshot.end == nf, c < nc, output.wf(), output.n == old(output).n, output.s@.len() == nc,
            forall|k: int, g: int| 0 <= k < nc && 0 <= g < nf ==> #[trigger] output.s@[k][g] == (if k < c || (k == c && g < f) { fdiv(b0[k][g], old(self).value) } else { b0[k][g] }),
    @*/
    /*@extract knaster_core_dsp/src/wrappers_core/math.rs | impl<T: UGen> UGen for WrDiv<T> | param_descriptions | ret=r
    ensures r@ == names::<P>(),
    @sub? /T::Parameters::USIZE/ => P
    @sub? /T::param_apply\(&mut self\.ugen, / => self.ugen.param_apply(
    @sub? /T::(param_descriptions|param_hints)\(\)/ => U::<I, O, P>::\1()
    @sub? /T::Sample::new/ => F::new
    @sub? /unsafe \{/ => {
    @sig? /(?:knaster_core::numeric_array::)?NumericArray<&'static str, Self::Parameters>/ => Vec<Name>
    @*/
    /*@extract knaster_core_dsp/src/wrappers_core/math.rs | impl<T: UGen> UGen for WrDiv<T> | param_hints | ret=r
    ensures r@ == hints::<P>(),
    @sub? /T::Parameters::USIZE/ => P
    @sub? /T::param_apply\(&mut self\.ugen, / => self.ugen.param_apply(
    @sub? /T::(param_descriptions|param_hints)\(\)/ => U::<I, O, P>::\1()
    @sub? /T::Sample::new/ => F::new
    @sub? /unsafe \{/ => {
    @sig? /(?:knaster_core::numeric_array::)?NumericArray<ParameterHint, Self::Parameters>/ => Vec<Hint>
    @*/
    /*@extract knaster_core_dsp/src/wrappers_core/math.rs | impl<T: UGen> UGen for WrDiv<T> | param_apply
    requires index < P,
    ensures final(self).ugen.s@ == applied(old(self).ugen.s@, *old(ctx), index, value), final(self).value == old(self).value,
    @sub? /T::Parameters::USIZE/ => P
    @sub? /T::param_apply\(&mut self\.ugen, / => self.ugen.param_apply(
    @sub? /T::(param_descriptions|param_hints)\(\)/ => U::<I, O, P>::\1()
    @sub? /T::Sample::new/ => F::new
    @sub? /unsafe \{/ => {
    @*/
    /*@extract knaster_core_dsp/src/wrappers_core/math.rs | impl<T: UGen> UGen for WrDiv<T> | set_ar_param_buffer
    requires index < P,
    ensures final(self).ugen.s@ == buffered(old(self).ugen.s@, *old(ctx), index, buffer), final(self).value == old(self).value,
    @sub? /T::Parameters::USIZE/ => P
    @sub? /T::param_apply\(&mut self\.ugen, / => self.ugen.param_apply(
    @sub? /T::(param_descriptions|param_hints)\(\)/ => U::<I, O, P>::\1()
    @sub? /T::Sample::new/ => F::new
    @sub? /unsafe \{/ => {
    @sig /unsafe fn/ => fn
    @sig /\*const T::Sample/ => Ptr
    @*/
    /*@extract knaster_core_dsp/src/wrappers_core/math.rs | impl<T: UGen> UGen for WrDiv<T> | set_delay_within_block_for_param
    requires index < P,
    ensures final(self).ugen.s@ == delayed(old(self).ugen.s@, *old(ctx), index, delay), final(self).value == old(self).value,
    @sub? /T::Parameters::USIZE/ => P
    @sub? /T::param_apply\(&mut self\.ugen, / => self.ugen.param_apply(
    @sub? /T::(param_descriptions|param_hints)\(\)/ => U::<I, O, P>::\1()
    @sub? /T::Sample::new/ => F::new
    @sub? /unsafe \{/ => {
    @*/
}
struct WrVDiv<const I: usize, const O: usize, const P: usize> { ugen: U<I, O, P>, value: F }
impl<const I: usize, const O: usize, const P: usize> WrVDiv<I, O, P> {
    /*@extract knaster_core_dsp/src/wrappers_core/math.rs | impl<T: UGen> UGen for WrVDiv<T> | init
    ensures final(self).ugen.s@ == init_next(old(self).ugen.s@, sample_rate, block_size), final(self).value == old(self).value,
    @sub? /T::Parameters::USIZE/ => P
    @sub? /T::param_apply\(&mut self\.ugen, / => self.ugen.param_apply(
    @sub? /T::(param_descriptions|param_hints)\(\)/ => U::<I, O, P>::\1()
    @sub? /T::Sample::new/ => F::new
    @sub? /unsafe \{/ => {
    @*/
    /*@extract knaster_core_dsp/src/wrappers_core/math.rs | impl<T: UGen> UGen for WrVDiv<T> | process | ret=r
    ensures
        (final(self).ugen.s@, final(flags).s@) == next((old(self).ugen.s@, old(flags).s@), *old(ctx), input@), final(self).value == old(self).value, *final(ctx) == ctx_next((old(self).ugen.s@, old(flags).s@), *old(ctx)),
        forall|c: int| 0 <= c < O ==> #[trigger] r@[c] == fdiv(old(self).value, outp((old(self).ugen.s@, old(flags).s@), *old(ctx), input@)[c]),
    @sub? /T::Parameters::USIZE/ => P
    @sub? /T::param_apply\(&mut self\.ugen, / => self.ugen.param_apply(
    @sub? /T::(param_descriptions|param_hints)\(\)/ => U::<I, O, P>::\1()
    @sub? /T::Sample::new/ => F::new
    @sub? /unsafe \{/ => {
    @sig? /knaster_core::Frame<Self::Sample, Self::Inputs>/ => [F; I]
    @sig? /knaster_core::Frame<Self::Sample, Self::Outputs>/ => [F; O]
    @sig /^/ => #[verifier::loop_isolation(false)]\n

    @sub? /\*sample ([-+*\/])= (.*?);/ => *sample = *sample \1 \2;
    @sub? /\*sample = (.*?);/ => out[i] = \1;
    @sub? /\*sample\b/ => sample
    @sub? /for sample in (?:&mut out|out\.iter_mut\(\)) \{/ => for i in it: 0..O { let sample = out[i];
    @loop 0
        invariant it.iter.end == O, it.snapshot.end == O, forall|c: int| 0 <= c < O ==> #[trigger] out@[c] == (if c < i { fdiv(old(self).value, outp((old(self).ugen.s@, old(flags).s@), *old(ctx), input@)[c]) } else { outp((old(self).ugen.s@, old(flags).s@), *old(ctx), input@)[c] }),
    @*/
    /*@extract knaster_core_dsp/src/wrappers_core/math.rs | impl<T: UGen> UGen for WrVDiv<T> | process_block
    requires old(output).wf(),
    ensures
        (final(self).ugen.s@, final(flags).s@) == block_next((old(self).ugen.s@, old(flags).s@), *old(ctx), input.s@, old(output).s@), final(self).value == old(self).value, *final(ctx) == ctx_next((old(self).ugen.s@, old(flags).s@), *old(ctx)),
        final(output).wf(), final(output).n == old(output).n, final(output).s@.len() == old(output).s@.len(),
        forall|c: int, f: int| 0 <= c < old(output).s@.len() && 0 <= f < old(output).n@ ==> #[trigger] final(output).s@[c][f] == fdiv(old(self).value, block_out((old(self).ugen.s@, old(flags).s@), *old(ctx), input.s@, old(output).s@)[c][f]),
    @sub? /T::Parameters::USIZE/ => P
    @sub? /T::param_apply\(&mut self\.ugen, / => self.ugen.param_apply(
    @sub? /T::(param_descriptions|param_hints)\(\)/ => U::<I, O, P>::\1()
    @sub? /T::Sample::new/ => F::new
    @sub? /unsafe \{/ => {
    @sig /<InBlock, OutBlock>/ =>
    @sig /where.*$/ =>

    @sig? /&InBlock/ => &Block
    @sig /&mut OutBlock/ => &mut Block
    @sig /^/ => #[verifier::loop_isolation(false)]\n

    @sub? /\*sample ([-+*\/])= (.*?);/ => *sample = *sample \1 \2;
    @sub? /\*sample = (.*?);/ => output.write(\1, c, f);
    @sub? /\*sample\b/ => sample
    @sub? /for channel in output\.iter_mut\(\) \{/ => let ghost b0 = output.s@; let (nc, nf) = (output.channels(), output.block_size()); for c in it: 0..nc {
    @sub? /for sample in channel(?:\.iter_mut\(\))? \{/ => for f in it2: 0..nf { let sample = output.read(c, f);
    @loop 0
        invariant
            it.iter.end == nc, it.snapshot.end == nc, output.wf(), output.n == old(output).n, output.s@.len() == nc,
            forall|k: int, f: int| 0 <= k < nc && 0 <= f < nf ==> #[trigger] output.s@[k][f] == (if k < c { fdiv(old(self).value, b0[k][f]) } else { b0[k][f] }),
    @loop 1
        invariant
            it2.iter.end == nf, it2.snapshot.end == nf, c < nc, output.wf(), output.n == old(output).n, output.s@.len() == nc,
            forall|k: int, g: int| 0 <= k < nc && 0 <= g < nf ==> #[trigger] output.s@[k][g] == (if k < c || (k == c && g < f) { fdiv(old(self).value, b0[k][g]) } else { b0[k][g] }),
    @*/
    /*@extract knaster_core_dsp/src/wrappers_core/math.rs | impl<T: UGen> UGen for WrVDiv<T> | param_descriptions | ret=r
    ensures r@ == names::<P>(),
    @sub? /T::Parameters::USIZE/ => P
    @sub? /T::param_apply\(&mut self\.ugen, / => self.ugen.param_apply(
    @sub? /T::(param_descriptions|param_hints)\(\)/ => U::<I, O, P>::\1()
    @sub? /T::Sample::new/ => F::new
    @sub? /unsafe \{/ => {
    @sig? /(?:knaster_core::numeric_array::)?NumericArray<&'static str, Self::Parameters>/ => Vec<Name>
    @*/
    /*@extract knaster_core_dsp/src/wrappers_core/math.rs | impl<T: UGen> UGen for WrVDiv<T> | param_hints | ret=r
    ensures r@ == hints::<P>(),
    @sub? /T::Parameters::USIZE/ => P
    @sub? /T::param_apply\(&mut self\.ugen, / => self.ugen.param_apply(
    @sub? /T::(param_descriptions|param_hints)\(\)/ => U::<I, O, P>::\1()
    @sub? /T::Sample::new/ => F::new
    @sub? /unsafe \{/ => {
    @sig? /(?:knaster_core::numeric_array::)?NumericArray<ParameterHint, Self::Parameters>/ => Vec<Hint>
    @*/
    /*@extract knaster_core_dsp/src/wrappers_core/math.rs | impl<T: UGen> UGen for WrVDiv<T> | param_apply
    requires index < P,
    ensures final(self).ugen.s@ == applied(old(self).ugen.s@, *old(ctx), index, value), final(self).value == old(self).value,
    @sub? /T::Parameters::USIZE/ => P
    @sub? /T::param_apply\(&mut self\.ugen, / => self.ugen.param_apply(
    @sub? /T::(param_descriptions|param_hints)\(\)/ => U::<I, O, P>::\1()
    @sub? /T::Sample::new/ => F::new
    @sub? /unsafe \{/ => {
    @*/
    /*@extract knaster_core_dsp/src/wrappers_core/math.rs | impl<T: UGen> UGen for WrVDiv<T> | set_ar_param_buffer
    requires index < P,
    ensures final(self).ugen.s@ == buffered(old(self).ugen.s@, *old(ctx), index, buffer), final(self).value == old(self).value,
    @sub? /T::Parameters::USIZE/ => P
    @sub? /T::param_apply\(&mut self\.ugen, / => self.ugen.param_apply(
    @sub? /T::(param_descriptions|param_hints)\(\)/ => U::<I, O, P>::\1()
    @sub? /T::Sample::new/ => F::new
    @sub? /unsafe \{/ => {
    @sig /unsafe fn/ => fn
    @sig /\*const T::Sample/ => Ptr
    @*/
    /*@extract knaster_core_dsp/src/wrappers_core/math.rs | impl<T: UGen> UGen for WrVDiv<T> | set_delay_within_block_for_param
    requires index < P,
    ensures final(self).ugen.s@ == delayed(old(self).ugen.s@, *old(ctx), index, delay), final(self).value == old(self).value,
    @sub? /T::Parameters::USIZE/ => P
    @sub? /T::param_apply\(&mut self\.ugen, / => self.ugen.param_apply(
    @sub? /T::(param_descriptions|param_hints)\(\)/ => U::<I, O, P>::\1()
    @sub? /T::Sample::new/ => F::new
    @sub? /unsafe \{/ => {
    @*/
}
struct WrPowf<const I: usize, const O: usize, const P: usize> { ugen: U<I, O, P>, value: F }
impl<const I: usize, const O: usize, const P: usize> WrPowf<I, O, P> {
    /*@extract knaster_core_dsp/src/wrappers_core/math.rs | impl<T: UGen> UGen for WrPowf<T> | init
    ensures final(self).ugen.s@ == init_next(old(self).ugen.s@, sample_rate, block_size), final(self).value == old(self).value,
    @sub? /T::Parameters::USIZE/ => P
    @sub? /T::param_apply\(&mut self\.ugen, / => self.ugen.param_apply(
    @sub? /T::(param_descriptions|param_hints)\(\)/ => U::<I, O, P>::\1()
    @sub? /T::Sample::new/ => F::new
    @sub? /unsafe \{/ => {
    @*/
    /*@extract knaster_core_dsp/src/wrappers_core/math.rs | impl<T: UGen> UGen for WrPowf<T> | process | ret=r
    ensures
        (final(self).ugen.s@, final(flags).s@) == next((old(self).ugen.s@, old(flags).s@), *old(ctx), input@), final(self).value == old(self).value, *final(ctx) == ctx_next((old(self).ugen.s@, old(flags).s@), *old(ctx)),
        forall|c: int| 0 <= c < O ==> #[trigger] r@[c] == fpowf(outp((old(self).ugen.s@, old(flags).s@), *old(ctx), input@)[c], old(self).value),
    @sub? /T::Parameters::USIZE/ => P
    @sub? /T::param_apply\(&mut self\.ugen, / => self.ugen.param_apply(
    @sub? /T::(param_descriptions|param_hints)\(\)/ => U::<I, O, P>::\1()
    @sub? /T::Sample::new/ => F::new
    @sub? /unsafe \{/ => {
    @sig? /knaster_core::Frame<Self::Sample, Self::Inputs>/ => [F; I]
    @sig? /knaster_core::Frame<Self::Sample, Self::Outputs>/ => [F; O]
    @sig /^/ => #[verifier::loop_isolation(false)]\n

    @sub? /\*sample ([-+*\/])= (.*?);/ => *sample = *sample \1 \2;
    @sub? /\*sample = (.*?);/ => out[i] = \1;
    @sub? /\*sample\b/ => sample
    @sub? /for sample in (?:&mut out|out\.iter_mut\(\)) \{/ => for i in it: 0..O { let sample = out[i];
    @loop 0
        invariant it.iter.end == O, it.snapshot.end == O, forall|c: int| 0 <= c < O ==> #[trigger] out@[c] == (if c < i { fpowf(outp((old(self).ugen.s@, old(flags).s@), *old(ctx), input@)[c], old(self).value) } else { outp((old(self).ugen.s@, old(flags).s@), *old(ctx), input@)[c] }),
    @*/
    /*@extract knaster_core_dsp/src/wrappers_core/math.rs | impl<T: UGen> UGen for WrPowf<T> | process_block
    requires old(output).wf(),
    ensures
        (final(self).ugen.s@, final(flags).s@) == block_next((old(self).ugen.s@, old(flags).s@), *old(ctx), input.s@, old(output).s@), final(self).value == old(self).value, *final(ctx) == ctx_next((old(self).ugen.s@, old(flags).s@), *old(ctx)),
        final(output).wf(), final(output).n == old(output).n, final(output).s@.len() == old(output).s@.len(),
        forall|c: int, f: int| 0 <= c < old(output).s@.len() && 0 <= f < old(output).n@ ==> #[trigger] final(output).s@[c][f] == fpowf(block_out((old(self).ugen.s@, old(flags).s@), *old(ctx), input.s@, old(output).s@)[c][f], old(self).value),
    @sub? /T::Parameters::USIZE/ => P
    @sub? /T::param_apply\(&mut self\.ugen, / => self.ugen.param_apply(
    @sub? /T::(param_descriptions|param_hints)\(\)/ => U::<I, O, P>::\1()
    @sub? /T::Sample::new/ => F::new
    @sub? /unsafe \{/ => {
    @sig /<InBlock, OutBlock>/ =>
    @sig /where.*$/ =>

    @sig? /&InBlock/ => &Block
    @sig /&mut OutBlock/ => &mut Block
    @sig /^/ => #[verifier::loop_isolation(false)]\n

    @sub? /\*sample ([-+*\/])= (.*?);/ => *sample = *sample \1 \2;
    @sub? /\*sample = (.*?);/ => output.write(\1, c, f);
    @sub? /\*sample\b/ => sample
    @sub? /for channel in output\.iter_mut\(\) \{/ => let ghost b0 = output.s@; let (nc, nf) = (output.channels(), output.block_size()); for c in it: 0..nc {
    @sub? /for sample in channel(?:\.iter_mut\(\))? \{/ => for f in it2: 0..nf { let sample = output.read(c, f);
    @loop 0
        invariant
            it.iter.end == nc, it.snapshot.end == nc, output.wf(), output.n == old(output).n, output.s@.len() == nc,
            forall|k: int, f: int| 0 <= k < nc && 0 <= f < nf ==> #[trigger] output.s@[k][f] == (if k < c { fpowf(b0[k][f], old(self).value) } else { b0[k][f] }),
    @loop 1
        invariant
            it2.iter.end == nf, it2.snapshot.end == nf, c < nc, output.wf(), output.n == old(output).n, output.s@.len() == nc,
            forall|k: int, g: int| 0 <= k < nc && 0 <= g < nf ==> #[trigger] output.s@[k][g] == (if k < c || (k == c && g < f) { fpowf(b0[k][g], old(self).value) } else { b0[k][g] }),
    @*/
    /*@extract knaster_core_dsp/src/wrappers_core/math.rs | impl<T: UGen> UGen for WrPowf<T> | param_descriptions | ret=r
    ensures r@ == names::<P>(),
    @sub? /T::Parameters::USIZE/ => P
    @sub? /T::param_apply\(&mut self\.ugen, / => self.ugen.param_apply(
    @sub? /T::(param_descriptions|param_hints)\(\)/ => U::<I, O, P>::\1()
    @sub? /T::Sample::new/ => F::new
    @sub? /unsafe \{/ => {
    @sig? /(?:knaster_core::numeric_array::)?NumericArray<&'static str, Self::Parameters>/ => Vec<Name>
    @*/
    /*@extract knaster_core_dsp/src/wrappers_core/math.rs | impl<T: UGen> UGen for WrPowf<T> | param_hints | ret=r
    ensures r@ == hints::<P>(),
    @sub? /T::Parameters::USIZE/ => P
    @sub? /T::param_apply\(&mut self\.ugen, / => self.ugen.param_apply(
    @sub? /T::(param_descriptions|param_hints)\(\)/ => U::<I, O, P>::\1()
    @sub? /T::Sample::new/ => F::new
    @sub? /unsafe \{/ => {
    @sig? /(?:knaster_core::numeric_array::)?NumericArray<ParameterHint, Self::Parameters>/ => Vec<Hint>
    @*/
    /*@extract knaster_core_dsp/src/wrappers_core/math.rs | impl<T: UGen> UGen for WrPowf<T> | param_apply
    requires index < P,
    ensures final(self).ugen.s@ == applied(old(self).ugen.s@, *old(ctx), index, value), final(self).value == old(self).value,
    @sub? /T::Parameters::USIZE/ => P
    @sub? /T::param_apply\(&mut self\.ugen, / => self.ugen.param_apply(
    @sub? /T::(param_descriptions|param_hints)\(\)/ => U::<I, O, P>::\1()
    @sub? /T::Sample::new/ => F::new
    @sub? /unsafe \{/ => {
    @*/
    /*@extract knaster_core_dsp/src/wrappers_core/math.rs | impl<T: UGen> UGen for WrPowf<T> | set_ar_param_buffer
    requires index < P,
    ensures final(self).ugen.s@ == buffered(old(self).ugen.s@, *old(ctx), index, buffer), final(self).value == old(self).value,
    @sub? /T::Parameters::USIZE/ => P
    @sub? /T::param_apply\(&mut self\.ugen, / => self.ugen.param_apply(
    @sub? /T::(param_descriptions|param_hints)\(\)/ => U::<I, O, P>::\1()
    @sub? /T::Sample::new/ => F::new
    @sub? /unsafe \{/ => {
    @sig /unsafe fn/ => fn
    @sig /\*const T::Sample/ => Ptr
    @*/
    /*@extract knaster_core_dsp/src/wrappers_core/math.rs | impl<T: UGen> UGen for WrPowf<T> | set_delay_within_block_for_param
    requires index < P,
    ensures final(self).ugen.s@ == delayed(old(self).ugen.s@, *old(ctx), index, delay), final(self).value == old(self).value,
    @sub? /T::Parameters::USIZE/ => P
    @sub? /T::param_apply\(&mut self\.ugen, / => self.ugen.param_apply(
    @sub? /T::(param_descriptions|param_hints)\(\)/ => U::<I, O, P>::\1()
    @sub? /T::Sample::new/ => F::new
    @sub? /unsafe \{/ => {
    @*/
}
struct WrPowi<const I: usize, const O: usize, const P: usize> { ugen: U<I, O, P>, value: i32 }
impl<const I: usize, const O: usize, const P: usize> WrPowi<I, O, P> {
    /*@extract knaster_core_dsp/src/wrappers_core/math.rs | impl<T: UGen> UGen for WrPowi<T> | init
    ensures final(self).ugen.s@ == init_next(old(self).ugen.s@, sample_rate, block_size), final(self).value == old(self).value,
    @sub? /T::Parameters::USIZE/ => P
    @sub? /T::param_apply\(&mut self\.ugen, / => self.ugen.param_apply(
    @sub? /T::(param_descriptions|param_hints)\(\)/ => U::<I, O, P>::\1()
    @sub? /T::Sample::new/ => F::new
    @sub? /unsafe \{/ => {
    @*/
    /*@extract knaster_core_dsp/src/wrappers_core/math.rs | impl<T: UGen> UGen for WrPowi<T> | process | ret=r
    ensures
        (final(self).ugen.s@, final(flags).s@) == next((old(self).ugen.s@, old(flags).s@), *old(ctx), input@), final(self).value == old(self).value, *final(ctx) == ctx_next((old(self).ugen.s@, old(flags).s@), *old(ctx)),
        forall|c: int| 0 <= c < O ==> #[trigger] r@[c] == fpowi(outp((old(self).ugen.s@, old(flags).s@), *old(ctx), input@)[c], old(self).value),
    @sub? /T::Parameters::USIZE/ => P
    @sub? /T::param_apply\(&mut self\.ugen, / => self.ugen.param_apply(
    @sub? /T::(param_descriptions|param_hints)\(\)/ => U::<I, O, P>::\1()
    @sub? /T::Sample::new/ => F::new
    @sub? /unsafe \{/ => {
    @sig? /knaster_core::Frame<Self::Sample, Self::Inputs>/ => [F; I]
    @sig? /knaster_core::Frame<Self::Sample, Self::Outputs>/ => [F; O]
    @sig /^/ => #[verifier::loop_isolation(false)]\n

    @sub? /\*sample ([-+*\/])= (.*?);/ => *sample = *sample \1 \2;
    @sub? /\*sample = (.*?);/ => out[i] = \1;
    @sub? /\*sample\b/ => sample
    @sub? /for sample in (?:&mut out|out\.iter_mut\(\)) \{/ => for i in it: 0..O { let sample = out[i];
    @loop 0
        invariant it.iter.end == O, it.snapshot.end == O, forall|c: int| 0 <= c < O ==> #[trigger] out@[c] == (if c < i { fpowi(outp((old(self).ugen.s@, old(flags).s@), *old(ctx), input@)[c], old(self).value) } else { outp((old(self).ugen.s@, old(flags).s@), *old(ctx), input@)[c] }),
    @*/
    /*@extract knaster_core_dsp/src/wrappers_core/math.rs | impl<T: UGen> UGen for WrPowi<T> | process_block
    requires old(output).wf(),
    ensures
        (final(self).ugen.s@, final(flags).s@) == block_next((old(self).ugen.s@, old(flags).s@), *old(ctx), input.s@, old(output).s@), final(self).value == old(self).value, *final(ctx) == ctx_next((old(self).ugen.s@, old(flags).s@), *old(ctx)),
        final(output).wf(), final(output).n == old(output).n, final(output).s@.len() == old(output).s@.len(),
        forall|c: int, f: int| 0 <= c < old(output).s@.len() && 0 <= f < old(output).n@ ==> #[trigger] final(output).s@[c][f] == fpowi(block_out((old(self).ugen.s@, old(flags).s@), *old(ctx), input.s@, old(output).s@)[c][f], old(self).value),
    @sub? /T::Parameters::USIZE/ => P
    @sub? /T::param_apply\(&mut self\.ugen, / => self.ugen.param_apply(
    @sub? /T::(param_descriptions|param_hints)\(\)/ => U::<I, O, P>::\1()
    @sub? /T::Sample::new/ => F::new
    @sub? /unsafe \{/ => {
    @sig /<InBlock, OutBlock>/ =>
    @sig /where.*$/ =>

    @sig? /&InBlock/ => &Block
    @sig /&mut OutBlock/ => &mut Block
    @sig /^/ => #[verifier::loop_isolation(false)]\n

    @sub? /\*sample ([-+*\/])= (.*?);/ => *sample = *sample \1 \2;
    @sub? /\*sample = (.*?);/ => output.write(\1, c, f);
    @sub? /\*sample\b/ => sample
    @sub? /for channel in output\.iter_mut\(\) \{/ => let ghost b0 = output.s@; let (nc, nf) = (output.channels(), output.block_size()); for c in it: 0..nc {
    @sub? /for sample in channel(?:\.iter_mut\(\))? \{/ => for f in it2: 0..nf { let sample = output.read(c, f);
    @loop 0
        invariant
            it.iter.end == nc, it.snapshot.end == nc, output.wf(), output.n == old(output).n, output.s@.len() == nc,
            forall|k: int, f: int| 0 <= k < nc && 0 <= f < nf ==> #[trigger] output.s@[k][f] == (if k < c { fpowi(b0[k][f], old(self).value) } else { b0[k][f] }),
    @loop 1
        invariant
            it2.iter.end == nf, it2.snapshot.end == nf, c < nc, output.wf(), output.n == old(output).n, output.s@.len() == nc,
            forall|k: int, g: int| 0 <= k < nc && 0 <= g < nf ==> #[trigger] output.s@[k][g] == (if k < c || (k == c && g < f) { fpowi(b0[k][g], old(self).value) } else { b0[k][g] }),
    @*/
    /*@extract knaster_core_dsp/src/wrappers_core/math.rs | impl<T: UGen> UGen for WrPowi<T> | param_descriptions | ret=r
    ensures r@ == names::<P>(),
    @sub? /T::Parameters::USIZE/ => P
    @sub? /T::param_apply\(&mut self\.ugen, / => self.ugen.param_apply(
    @sub? /T::(param_descriptions|param_hints)\(\)/ => U::<I, O, P>::\1()
    @sub? /T::Sample::new/ => F::new
    @sub? /unsafe \{/ => {
    @sig? /(?:knaster_core::numeric_array::)?NumericArray<&'static str, Self::Parameters>/ => Vec<Name>
    @*/
    /*@extract knaster_core_dsp/src/wrappers_core/math.rs | impl<T: UGen> UGen for WrPowi<T> | param_hints | ret=r
    ensures r@ == hints::<P>(),
    @sub? /T::Parameters::USIZE/ => P
    @sub? /T::param_apply\(&mut self\.ugen, / => self.ugen.param_apply(
    @sub? /T::(param_descriptions|param_hints)\(\)/ => U::<I, O, P>::\1()
    @sub? /T::Sample::new/ => F::new
    @sub? /unsafe \{/ => {
    @sig? /(?:knaster_core::numeric_array::)?NumericArray<ParameterHint, Self::Parameters>/ => Vec<Hint>
    @*/
    /*@extract knaster_core_dsp/src/wrappers_core/math.rs | impl<T: UGen> UGen for WrPowi<T> | param_apply
    requires index < P,
    ensures final(self).ugen.s@ == applied(old(self).ugen.s@, *old(ctx), index, value), final(self).value == old(self).value,
    @sub? /T::Parameters::USIZE/ => P
    @sub? /T::param_apply\(&mut self\.ugen, / => self.ugen.param_apply(
    @sub? /T::(param_descriptions|param_hints)\(\)/ => U::<I, O, P>::\1()
    @sub? /T::Sample::new/ => F::new
    @sub? /unsafe \{/ => {
    @*/
    /*@extract knaster_core_dsp/src/wrappers_core/math.rs | impl<T: UGen> UGen for WrPowi<T> | set_ar_param_buffer
    requires index < P,
    ensures final(self).ugen.s@ == buffered(old(self).ugen.s@, *old(ctx), index, buffer), final(self).value == old(self).value,
    @sub? /T::Parameters::USIZE/ => P
    @sub? /T::param_apply\(&mut self\.ugen, / => self.ugen.param_apply(
    @sub? /T::(param_descriptions|param_hints)\(\)/ => U::<I, O, P>::\1()
    @sub? /T::Sample::new/ => F::new
    @sub? /unsafe \{/ => {
    @sig /unsafe fn/ => fn
    @sig /\*const T::Sample/ => Ptr
    @*/
    /*@extract knaster_core_dsp/src/wrappers_core/math.rs | impl<T: UGen> UGen for WrPowi<T> | set_delay_within_block_for_param
    requires index < P,
    ensures final(self).ugen.s@ == delayed(old(self).ugen.s@, *old(ctx), index, delay), final(self).value == old(self).value,
    @sub? /T::Parameters::USIZE/ => P
    @sub? /T::param_apply\(&mut self\.ugen, / => self.ugen.param_apply(
    @sub? /T::(param_descriptions|param_hints)\(\)/ => U::<I, O, P>::\1()
    @sub? /T::Sample::new/ => F::new
    @sub? /unsafe \{/ => {
    @*/
}
/// A closure without memory: it may be called in any order
pub struct Cl { id: Ghost<int> }
uninterp spec fn cl(c: Cl, x: F) -> F;
impl Cl {
    #[verifier::external_body]
    fn call(&mut self, x: F) -> (r: F) ensures r == cl(*old(self), x), *final(self) == *old(self) { unimplemented!() }
}
struct WrClosure<const I: usize, const O: usize, const P: usize> { ugen: U<I, O, P>, closure: Cl }
impl<const I: usize, const O: usize, const P: usize> WrClosure<I, O, P> {
    /*@extract knaster_core_dsp/src/wrappers_core/closure.rs | impl<T: UGen, C: FnMut(T::Sample) -> T::Sample + 'static> UGen for WrClosure<T, C> | init
    ensures final(self).ugen.s@ == init_next(old(self).ugen.s@, sample_rate, block_size), final(self).closure == old(self).closure,
    @sub? /T::Parameters::USIZE/ => P
    @sub? /T::param_apply\(&mut self\.ugen, / => self.ugen.param_apply(
    @sub? /T::(param_descriptions|param_hints)\(\)/ => U::<I, O, P>::\1()
    @sub? /T::Sample::new/ => F::new
    @sub? /unsafe \{/ => {
    @*/
    /*@extract knaster_core_dsp/src/wrappers_core/closure.rs | impl<T: UGen, C: FnMut(T::Sample) -> T::Sample + 'static> UGen for WrClosure<T, C> | process | ret=r
    ensures
        (final(self).ugen.s@, final(flags).s@) == next((old(self).ugen.s@, old(flags).s@), *old(ctx), input@), final(self).closure == old(self).closure, *final(ctx) == ctx_next((old(self).ugen.s@, old(flags).s@), *old(ctx)),
        forall|c: int| 0 <= c < O ==> #[trigger] r@[c] == cl(old(self).closure, outp((old(self).ugen.s@, old(flags).s@), *old(ctx), input@)[c]),
    @sub? /T::Parameters::USIZE/ => P
    @sub? /T::param_apply\(&mut self\.ugen, / => self.ugen.param_apply(
    @sub? /T::(param_descriptions|param_hints)\(\)/ => U::<I, O, P>::\1()
    @sub? /T::Sample::new/ => F::new
    @sub? /unsafe \{/ => {
    @sig? /knaster_core::Frame<Self::Sample, Self::Inputs>/ => [F; I]
    @sig? /knaster_core::Frame<Self::Sample, Self::Outputs>/ => [F; O]
    @sig /^/ => #[verifier::loop_isolation(false)]\n

    @sub? /\*sample ([-+*\/])= (.*?);/ => *sample = *sample \1 \2;
    @sub? /\*sample = (.*?);/ => out[i] = \1;
    @sub? /\*sample\b/ => sample
    @sub? /for sample in (?:&mut out|out\.iter_mut\(\)) \{/ => for i in it: 0..O { let sample = out[i];
    @sub? /\(self\.closure\)\(/ => self.closure.call(
    @loop 0
        invariant self.closure == old(self).closure, self.ugen.s@ == next((old(self).ugen.s@, old(flags).s@), *old(ctx), input@).0, it.iter.end == O, it.snapshot.end == O, forall|c: int| 0 <= c < O ==> #[trigger] out@[c] == (if c < i { cl(old(self).closure, outp((old(self).ugen.s@, old(flags).s@), *old(ctx), input@)[c]) } else { outp((old(self).ugen.s@, old(flags).s@), *old(ctx), input@)[c] }),
    @*/
    /*@extract knaster_core_dsp/src/wrappers_core/closure.rs | impl<T: UGen, C: FnMut(T::Sample) -> T::Sample + 'static> UGen for WrClosure<T, C> | process_block
    requires old(output).wf(),
    ensures
        (final(self).ugen.s@, final(flags).s@) == block_next((old(self).ugen.s@, old(flags).s@), *old(ctx), input.s@, old(output).s@), final(self).closure == old(self).closure, *final(ctx) == ctx_next((old(self).ugen.s@, old(flags).s@), *old(ctx)),
        final(output).wf(), final(output).n == old(output).n, final(output).s@.len() == old(output).s@.len(),
        forall|c: int, f: int| 0 <= c < old(output).s@.len() && 0 <= f < old(output).n@ ==> #[trigger] final(output).s@[c][f] == cl(old(self).closure, block_out((old(self).ugen.s@, old(flags).s@), *old(ctx), input.s@, old(output).s@)[c][f]),
    @sub? /T::Parameters::USIZE/ => P
    @sub? /T::param_apply\(&mut self\.ugen, / => self.ugen.param_apply(
    @sub? /T::(param_descriptions|param_hints)\(\)/ => U::<I, O, P>::\1()
    @sub? /T::Sample::new/ => F::new
    @sub? /unsafe \{/ => {
    @sig /<InBlock, OutBlock>/ =>
    @sig /where.*$/ =>

    @sig? /&InBlock/ => &Block
    @sig /&mut OutBlock/ => &mut Block
    @sig /^/ => #[verifier::loop_isolation(false)]\n

    @sub? /\*sample ([-+*\/])= (.*?);/ => *sample = *sample \1 \2;
    @sub? /\*sample = (.*?);/ => output.write(\1, c, f);
    @sub? /\*sample\b/ => sample
    @sub? /for channel in output\.iter_mut\(\) \{/ => let ghost b0 = output.s@; let (nc, nf) = (output.channels(), output.block_size()); for c in it: 0..nc {
    @sub? /for sample in channel(?:\.iter_mut\(\))? \{/ => for f in it2: 0..nf { let sample = output.read(c, f);
    @sub? /\(self\.closure\)\(/ => self.closure.call(
    @loop 0
        invariant self.closure == old(self).closure, self.ugen.s@ == block_next((old(self).ugen.s@, old(flags).s@), *old(ctx), input.s@, old(output).s@).0, 
            it.iter.end == nc, it.snapshot.end == nc, output.wf(), output.n == old(output).n, output.s@.len() == nc,
            forall|k: int, f: int| 0 <= k < nc && 0 <= f < nf ==> #[trigger] output.s@[k][f] == (if k < c { cl(old(self).closure, b0[k][f]) } else { b0[k][f] }),
    @loop 1
        invariant self.closure == old(self).closure, self.ugen.s@ == block_next((old(self).ugen.s@, old(flags).s@), *old(ctx), input.s@, old(output).s@).0, 
            it2.iter.end == nf, it2.snapshot.end == nf, c < nc, output.wf(), output.n == old(output).n, output.s@.len() == nc,
            forall|k: int, g: int| 0 <= k < nc && 0 <= g < nf ==> #[trigger] output.s@[k][g] == (if k < c || (k == c && g < f) { cl(old(self).closure, b0[k][g]) } else { b0[k][g] }),
    @*/
    /*@extract knaster_core_dsp/src/wrappers_core/closure.rs | impl<T: UGen, C: FnMut(T::Sample) -> T::Sample + 'static> UGen for WrClosure<T, C> | param_descriptions | ret=r
    ensures r@ == names::<P>(),
    @sub? /T::Parameters::USIZE/ => P
    @sub? /T::param_apply\(&mut self\.ugen, / => self.ugen.param_apply(
    @sub? /T::(param_descriptions|param_hints)\(\)/ => U::<I, O, P>::\1()
    @sub? /T::Sample::new/ => F::new
    @sub? /unsafe \{/ => {
    @sig? /(?:knaster_core::numeric_array::)?NumericArray<&'static str, Self::Parameters>/ => Vec<Name>
    @*/
    /*@extract knaster_core_dsp/src/wrappers_core/closure.rs | impl<T: UGen, C: FnMut(T::Sample) -> T::Sample + 'static> UGen for WrClosure<T, C> | param_hints | ret=r
    ensures r@ == hints::<P>(),
    @sub? /T::Parameters::USIZE/ => P
    @sub? /T::param_apply\(&mut self\.ugen, / => self.ugen.param_apply(
    @sub? /T::(param_descriptions|param_hints)\(\)/ => U::<I, O, P>::\1()
    @sub? /T::Sample::new/ => F::new
    @sub? /unsafe \{/ => {
    @sig? /(?:knaster_core::numeric_array::)?NumericArray<ParameterHint, Self::Parameters>/ => Vec<Hint>
    @*/
    /*@extract knaster_core_dsp/src/wrappers_core/closure.rs | impl<T: UGen, C: FnMut(T::Sample) -> T::Sample + 'static> UGen for WrClosure<T, C> | param_apply
    requires index < P,
    ensures final(self).ugen.s@ == applied(old(self).ugen.s@, *old(ctx), index, value), final(self).closure == old(self).closure,
    @sub? /T::Parameters::USIZE/ => P
    @sub? /T::param_apply\(&mut self\.ugen, / => self.ugen.param_apply(
    @sub? /T::(param_descriptions|param_hints)\(\)/ => U::<I, O, P>::\1()
    @sub? /T::Sample::new/ => F::new
    @sub? /unsafe \{/ => {
    @*/
    /*@extract knaster_core_dsp/src/wrappers_core/closure.rs | impl<T: UGen, C: FnMut(T::Sample) -> T::Sample + 'static> UGen for WrClosure<T, C> | set_ar_param_buffer
    requires index < P,
    ensures final(self).ugen.s@ == buffered(old(self).ugen.s@, *old(ctx), index, buffer), final(self).closure == old(self).closure,
    @sub? /T::Parameters::USIZE/ => P
    @sub? /T::param_apply\(&mut self\.ugen, / => self.ugen.param_apply(
    @sub? /T::(param_descriptions|param_hints)\(\)/ => U::<I, O, P>::\1()
    @sub? /T::Sample::new/ => F::new
    @sub? /unsafe \{/ => {
    @sig /unsafe fn/ => fn
    @sig /\*const T::Sample/ => Ptr
    @*/
    /*@extract knaster_core_dsp/src/wrappers_core/closure.rs | impl<T: UGen, C: FnMut(T::Sample) -> T::Sample + 'static> UGen for WrClosure<T, C> | set_delay_within_block_for_param
    requires index < P,
    ensures final(self).ugen.s@ == delayed(old(self).ugen.s@, *old(ctx), index, delay), final(self).closure == old(self).closure,
    @sub? /T::Parameters::USIZE/ => P
    @sub? /T::param_apply\(&mut self\.ugen, / => self.ugen.param_apply(
    @sub? /T::(param_descriptions|param_hints)\(\)/ => U::<I, O, P>::\1()
    @sub? /T::Sample::new/ => F::new
    @sub? /unsafe \{/ => {
    @*/
}
}
fn main() {}
