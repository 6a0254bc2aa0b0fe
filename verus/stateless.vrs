use vstd::prelude::*;
verus! {
/*@include fl.inc @*/
uninterp spec fn fpowf(a: F, b: F) -> F;
uninterp spec fn fceil(a: F) -> F;
uninterp spec fn fsqrt(a: F) -> F;
uninterp spec fn ffloor(a: F) -> F;
uninterp spec fn ftrunc(a: F) -> F;
uninterp spec fn ffract(a: F) -> F;
uninterp spec fn fexp(a: F) -> F;
/// Float::new
uninterp spec fn fnew(x: f64) -> F;
impl F {
    #[verifier::external_body]
    fn powf(self, b: F) -> (r: F) ensures r == fpowf(self, b) { unimplemented!() }
    #[verifier::external_body]
    fn new(x: f64) -> (r: F) ensures r == fnew(x) { unimplemented!() }
    #[verifier::external_body]
    fn ceil(self) -> (r: F) ensures r == fceil(self) { unimplemented!() }
    #[verifier::external_body]
    fn sqrt(self) -> (r: F) ensures r == fsqrt(self) { unimplemented!() }
    #[verifier::external_body]
    fn floor(self) -> (r: F) ensures r == ffloor(self) { unimplemented!() }
    #[verifier::external_body]
    fn trunc(self) -> (r: F) ensures r == ftrunc(self) { unimplemented!() }
    #[verifier::external_body]
    fn fract(self) -> (r: F) ensures r == ffract(self) { unimplemented!() }
    #[verifier::external_body]
    fn exp(self) -> (r: F) ensures r == fexp(self) { unimplemented!() }
}
type PFloat = f64;
/// debug_assert! with the condition to be proved
fn check(b: bool) requires b {}
/// one_of: `&mut [x; 1]` as a slice. `&[x]`
#[verifier::external_body]
fn one(x: &[F; 1]) -> (r: &[F]) ensures r@ == x@ { x }
#[verifier::external_body]
fn one_mut(x: &mut [F; 1]) -> (r: &mut [F]) ensures r@ == old(x)@, final(r)@ == final(x)@ { x }
#[verifier::external_body]
fn put(x: &mut [F], i: usize, v: F) requires i < old(x)@.len() ensures final(x)@ == old(x)@.update(i as int, v) { unimplemented!() }
/// NumericArray::default()
#[verifier::external_body]
fn fresh<const N: usize>() -> (r: [F; N]) { unimplemented!() }
#[verifier::external_body]
pub struct AudioCtx { x: u8 }
#[verifier::external_body]
pub struct UGenFlags { x: u8 }
uninterp spec fn marked(f: UGenFlags, frame: u32) -> UGenFlags;
impl UGenFlags {
    #[verifier::external_body]
    fn mark_done(&mut self, frame: u32) ensures *final(self) == marked(*old(self), frame) { unimplemented!() }
}
/// Blocks: the samples of each channel of the view.
pub struct Block { s: Ghost<Seq<Seq<F>>>, n: Ghost<int> }
impl Block {
    spec fn wf(self) -> bool { forall|c: int| 0 <= c < self.s@.len() ==> (#[trigger] self.s@[c]).len() == self.n@ }
    #[verifier::external_body]
    fn channel_as_slice(&self, c: usize) -> (r: &[F]) requires c < self.s@.len() ensures r@ == self.s@[c as int] { unimplemented!() }
    #[verifier::external_body]
    fn channel_as_slice_mut(&mut self, c: usize) -> (r: &mut [F])
        requires c < old(self).s@.len()
        ensures r@ == old(self).s@[c as int], final(self).n == old(self).n, final(self).s@ == old(self).s@.update(c as int, final(r)@) { unimplemented!() }
}
trait Operation {
    spec fn op(a: F, b: F) -> F;
    fn apply(a: &[F], b: &[F], out: &mut [F])
        requires a@.len() == b@.len(), a@.len() == old(out)@.len(),
        ensures final(out)@ =~= Seq::new(a@.len(), |i: int| Self::op(a@[i], b@[i]));
}
trait Operation1 {
    spec fn op(a: F) -> F;
    fn apply(a: &[F], out: &mut [F])
        requires a@.len() == old(out)@.len(),
        ensures final(out)@ =~= Seq::new(a@.len(), |i: int| Self::op(a@[i]));
}
struct Add {}
impl Operation for Add {
    spec fn op(a: F, b: F) -> F { fadd(a, b) }
    /*@extract knaster_core_dsp/src/ugens/math.rs | impl<T: crate::core::ops::Add<Output = T> + Float> Operation<T> for Add | apply
    @sub? /debug_assert!\(/ => check(
    @sub? /for \(\(a, b\), out\) in a\.iter\(\)\.zip\(b\.iter\(\)\)\.zip\(out\.iter_mut\(\)\) \{/ => for k in 0..min_usize(min_usize(a.len(), b.len()), out.len()) { let (a, b) = (&a[k], &b[k]);
    @sub? /\*out = ([^;]*);/ => let r = \1; put(out, k, r);
    @loop 0
        invariant a@.len() == b@.len(), out@.len() == a@.len(), forall|i: int| 0 <= i < k ==> #[trigger] out@[i] == Self::op(a@[i], b@[i]),
    @sig? /\[T\]/ => [F]
    @*/
}
struct Mul {}
impl Operation for Mul {
    spec fn op(a: F, b: F) -> F { fmul(a, b) }
    /*@extract knaster_core_dsp/src/ugens/math.rs | impl<T: crate::core::ops::Mul<Output = T> + Float> Operation<T> for Mul | apply
    @sub? /debug_assert!\(/ => check(
    @sub? /for \(\(a, b\), out\) in a\.iter\(\)\.zip\(b\.iter\(\)\)\.zip\(out\.iter_mut\(\)\) \{/ => for k in 0..min_usize(min_usize(a.len(), b.len()), out.len()) { let (a, b) = (&a[k], &b[k]);
    @sub? /\*out = ([^;]*);/ => let r = \1; put(out, k, r);
    @loop 0
        invariant a@.len() == b@.len(), out@.len() == a@.len(), forall|i: int| 0 <= i < k ==> #[trigger] out@[i] == Self::op(a@[i], b@[i]),
    @sig? /\[T\]/ => [F]
    @*/
}
struct Div {}
impl Operation for Div {
    spec fn op(a: F, b: F) -> F { fdiv(a, b) }
    /*@extract knaster_core_dsp/src/ugens/math.rs | impl<T: crate::core::ops::Div<Output = T> + Float> Operation<T> for Div | apply
    @sub? /debug_assert!\(/ => check(
    @sub? /for \(\(a, b\), out\) in a\.iter\(\)\.zip\(b\.iter\(\)\)\.zip\(out\.iter_mut\(\)\) \{/ => for k in 0..min_usize(min_usize(a.len(), b.len()), out.len()) { let (a, b) = (&a[k], &b[k]);
    @sub? /\*out = ([^;]*);/ => let r = \1; put(out, k, r);
    @loop 0
        invariant a@.len() == b@.len(), out@.len() == a@.len(), forall|i: int| 0 <= i < k ==> #[trigger] out@[i] == Self::op(a@[i], b@[i]),
    @sig? /\[T\]/ => [F]
    @*/
}
struct Sub {}
impl Operation for Sub {
    spec fn op(a: F, b: F) -> F { fsub(a, b) }
    /*@extract knaster_core_dsp/src/ugens/math.rs | impl<T: crate::core::ops::Sub<Output = T> + Float> Operation<T> for Sub | apply
    @sub? /debug_assert!\(/ => check(
    @sub? /for \(\(a, b\), out\) in a\.iter\(\)\.zip\(b\.iter\(\)\)\.zip\(out\.iter_mut\(\)\) \{/ => for k in 0..min_usize(min_usize(a.len(), b.len()), out.len()) { let (a, b) = (&a[k], &b[k]);
    @sub? /\*out = ([^;]*);/ => let r = \1; put(out, k, r);
    @loop 0
        invariant a@.len() == b@.len(), out@.len() == a@.len(), forall|i: int| 0 <= i < k ==> #[trigger] out@[i] == Self::op(a@[i], b@[i]),
    @sig? /\[T\]/ => [F]
    @*/
}
struct Pow {}
impl Operation for Pow {
    spec fn op(a: F, b: F) -> F { fpowf(a, b) }
    /*@extract knaster_core_dsp/src/ugens/math.rs | impl<T: Float> Operation<T> for Pow | apply
    @sub? /debug_assert!\(/ => check(
    @sub? /for \(\(a, b\), out\) in a\.iter\(\)\.zip\(b\.iter\(\)\)\.zip\(out\.iter_mut\(\)\) \{/ => for k in 0..min_usize(min_usize(a.len(), b.len()), out.len()) { let (a, b) = (&a[k], &b[k]);
    @sub? /\*out = ([^;]*);/ => let r = \1; put(out, k, r);
    @loop 0
        invariant a@.len() == b@.len(), out@.len() == a@.len(), forall|i: int| 0 <= i < k ==> #[trigger] out@[i] == Self::op(a@[i], b@[i]),
    @sig? /\[T\]/ => [F]
    @*/
}
struct Ceil {}
impl Operation1 for Ceil {
    spec fn op(a: F) -> F { fceil(a) }
    /*@extract knaster_core_dsp/src/ugens/math.rs | impl<T: Float> Operation1<T> for Ceil | apply
    @sub? /debug_assert!\(/ => check(
    @sub? /for \(a, out\) in a\.iter\(\)\.zip\(out\.iter_mut\(\)\) \{/ => for k in 0..min_usize(a.len(), out.len()) { let a = &a[k];
    @sub? /\*out = ([^;]*);/ => let r = \1; put(out, k, r);
    @loop 0
        invariant out@.len() == a@.len(), forall|i: int| 0 <= i < k ==> #[trigger] out@[i] == Self::op(a@[i]),
    @sig? /\[T\]/ => [F]
    @*/
}
struct Sqrt {}
impl Operation1 for Sqrt {
    spec fn op(a: F) -> F { fsqrt(a) }
    /*@extract knaster_core_dsp/src/ugens/math.rs | impl<T: Float> Operation1<T> for Sqrt | apply
    @sub? /debug_assert!\(/ => check(
    @sub? /for \(a, out\) in a\.iter\(\)\.zip\(out\.iter_mut\(\)\) \{/ => for k in 0..min_usize(a.len(), out.len()) { let a = &a[k];
    @sub? /\*out = ([^;]*);/ => let r = \1; put(out, k, r);
    @loop 0
        invariant out@.len() == a@.len(), forall|i: int| 0 <= i < k ==> #[trigger] out@[i] == Self::op(a@[i]),
    @sig? /\[T\]/ => [F]
    @*/
}
struct Floor {}
impl Operation1 for Floor {
    spec fn op(a: F) -> F { ffloor(a) }
    /*@extract knaster_core_dsp/src/ugens/math.rs | impl<T: Float> Operation1<T> for Floor | apply
    @sub? /debug_assert!\(/ => check(
    @sub? /for \(a, out\) in a\.iter\(\)\.zip\(out\.iter_mut\(\)\) \{/ => for k in 0..min_usize(a.len(), out.len()) { let a = &a[k];
    @sub? /\*out = ([^;]*);/ => let r = \1; put(out, k, r);
    @loop 0
        invariant out@.len() == a@.len(), forall|i: int| 0 <= i < k ==> #[trigger] out@[i] == Self::op(a@[i]),
    @sig? /\[T\]/ => [F]
    @*/
}
struct Trunc {}
impl Operation1 for Trunc {
    spec fn op(a: F) -> F { ftrunc(a) }
    /*@extract knaster_core_dsp/src/ugens/math.rs | impl<T: Float> Operation1<T> for Trunc | apply
    @sub? /debug_assert!\(/ => check(
    @sub? /for \(a, out\) in a\.iter\(\)\.zip\(out\.iter_mut\(\)\) \{/ => for k in 0..min_usize(a.len(), out.len()) { let a = &a[k];
    @sub? /\*out = ([^;]*);/ => let r = \1; put(out, k, r);
    @loop 0
        invariant out@.len() == a@.len(), forall|i: int| 0 <= i < k ==> #[trigger] out@[i] == Self::op(a@[i]),
    @sig? /\[T\]/ => [F]
    @*/
}
struct Fract {}
impl Operation1 for Fract {
    spec fn op(a: F) -> F { ffract(a) }
    /*@extract knaster_core_dsp/src/ugens/math.rs | impl<T: Float> Operation1<T> for Fract | apply
    @sub? /debug_assert!\(/ => check(
    @sub? /for \(a, out\) in a\.iter\(\)\.zip\(out\.iter_mut\(\)\) \{/ => for k in 0..min_usize(a.len(), out.len()) { let a = &a[k];
    @sub? /\*out = ([^;]*);/ => let r = \1; put(out, k, r);
    @loop 0
        invariant out@.len() == a@.len(), forall|i: int| 0 <= i < k ==> #[trigger] out@[i] == Self::op(a@[i]),
    @sig? /\[T\]/ => [F]
    @*/
}
struct Exp {}
impl Operation1 for Exp {
    spec fn op(a: F) -> F { fexp(a) }
    /*@extract knaster_core_dsp/src/ugens/math.rs | impl<T: Float> Operation1<T> for Exp | apply
    @sub? /debug_assert!\(/ => check(
    @sub? /for \(a, out\) in a\.iter\(\)\.zip\(out\.iter_mut\(\)\) \{/ => for k in 0..min_usize(a.len(), out.len()) { let a = &a[k];
    @sub? /\*out = ([^;]*);/ => let r = \1; put(out, k, r);
    @loop 0
        invariant out@.len() == a@.len(), forall|i: int| 0 <= i < k ==> #[trigger] out@[i] == Self::op(a@[i]),
    @sig? /\[T\]/ => [F]
    @*/
}

/// N channels, I inputs: I == 2N (`Double<Channels>`)
struct MathUGen<const N: usize, const I: usize, Op: Operation> { marker: core::marker::PhantomData<Op> }
impl<const N: usize, const I: usize, Op: Operation> MathUGen<N, I, Op> {
    /*@extract knaster_core_dsp/src/ugens/math.rs | impl<F: Float, Channels: Size, Op: Operation<F>> UGen for MathUGen<F, Channels, Op> | process | ret=r
    requires I == 2 * N,
    ensures forall|c: int| 0 <= c < N ==> #[trigger] r@[c] == Op::op(input@[c], input@[c + N]),
        *final(_ctx) == *old(_ctx), *final(_flags) == *old(_flags),
    @sub? /Channels::USIZE/ => N
    @sub? /NumericArray::default\(\)/ => fresh::<N>()
    @sub? /F::ZERO/ => F::zero()
    @sub? /&\[(input\[[^\]]*\])\]/ => one(&[\1])
    @sub? /&mut temp_out/ => one_mut(&mut temp_out)
    @loop 0
        invariant I == 2 * N, forall|c: int| 0 <= c < channel ==> #[trigger] out@[c] == Op::op(input@[c], input@[c + N]),
    @sig? /knaster_core::Frame<Self::Sample, Self::Inputs>/ => [F; I]
    @sig? /knaster_core::Frame<Self::Sample, Self::Outputs>/ => [F; N]
    @*/
    /*@extract knaster_core_dsp/src/ugens/math.rs | impl<F: Float, Channels: Size, Op: Operation<F>> UGen for MathUGen<F, Channels, Op> | process_block
    requires I == 2 * N, input.wf(), old(output).wf(), input.s@.len() == I, old(output).s@.len() == N, input.n@ == old(output).n@,
    ensures final(output).wf(), final(output).n == old(output).n, final(output).s@.len() == N,
        forall|c: int| 0 <= c < N ==> #[trigger] final(output).s@[c] == Seq::new(input.n@ as nat, |f: int| Op::op(input.s@[c][f], input.s@[c + N][f])),
        *final(_ctx) == *old(_ctx), *final(_flags) == *old(_flags),
    @sub? /Channels::USIZE/ => N
    @loop 0
        invariant I == 2 * N, input.wf(), output.wf(), input.s@.len() == I, output.s@.len() == N, input.n@ == output.n@, output.n == old(output).n,
            forall|c: int| 0 <= c < channel ==> #[trigger] output.s@[c] == Seq::new(input.n@ as nat, |f: int| Op::op(input.s@[c][f], input.s@[c + N][f])),
    @loopend 0
        proof { assert(output.s@[channel as int] =~= Seq::new(input.n@ as nat, |f: int| Op::op(input.s@[channel as int][f], input.s@[channel + N][f]))); }
    @sig? /<InBlock, OutBlock>/ =>
    @sig? /&InBlock/ => &Block
    @sig? /&mut OutBlock/ => &mut Block
    @sig? /where.*$/ =>
    @*/
}
struct Math1UGen<Op: Operation1> { marker: core::marker::PhantomData<Op> }
impl<Op: Operation1> Math1UGen<Op> {
    /*@extract knaster_core_dsp/src/ugens/math.rs | impl<F: Float, Op: Operation1<F>> UGen for Math1UGen<F, Op> | process | ret=r
    ensures r@[0] == Op::op(input@[0]), *final(_ctx) == *old(_ctx), *final(_flags) == *old(_flags),
    @sub? /NumericArray::default\(\)/ => fresh::<1>()
    @sub? /F::ZERO/ => F::zero()
    @sub? /&\[(input\[[^\]]*\])\]/ => one(&[\1])
    @sub? /&mut temp_out/ => one_mut(&mut temp_out)
    @sig? /knaster_core::Frame<Self::Sample, Self::Inputs>/ => [F; 1]
    @sig? /knaster_core::Frame<Self::Sample, Self::Outputs>/ => [F; 1]
    @*/
    /*@extract knaster_core_dsp/src/ugens/math.rs | impl<F: Float, Op: Operation1<F>> UGen for Math1UGen<F, Op> | process_block
    requires input.wf(), old(output).wf(), input.s@.len() == 1, old(output).s@.len() == 1, input.n@ == old(output).n@,
    ensures final(output).wf(), final(output).n == old(output).n, final(output).s@.len() == 1,
        final(output).s@[0] == Seq::new(input.n@ as nat, |f: int| Op::op(input.s@[0][f])),
        *final(_ctx) == *old(_ctx), *final(_flags) == *old(_flags),
    @sig? /<InBlock, OutBlock>/ =>
    @sig? /&InBlock/ => &Block
    @sig? /&mut OutBlock/ => &mut Block
    @sig? /where.*$/ =>
    @*/
}
/*@struct knaster_core_dsp/src/ugens/util.rs | Constant | /<F: Float>/ => @*/
impl Constant {
    /*@extract knaster_core_dsp/src/ugens/util.rs | impl<F: Float> Constant<F> | new | ret=r
    ensures r.value == value,
    @*/
    /*@extract knaster_core_dsp/src/ugens/util.rs | impl<F: Float> Constant<F> | value
    ensures final(self).value == fnew(value),
    @*/
    /*@extract knaster_core_dsp/src/ugens/util.rs | impl<F: Float> Constant<F> | process | ret=r
    ensures r@[0] == old(self).value, final(self).value == old(self).value, *final(_ctx) == *old(_ctx), *final(_flags) == *old(_flags),
    @*/
}
/*@struct knaster_core_dsp/src/ugens/util.rs | DoneOnTrig | /_phantom: PhantomData<F>,/ => | /<F>/ => @*/
impl DoneOnTrig {
    /*@extract knaster_core_dsp/src/ugens/util.rs | impl<F: Float> DoneOnTrig<F> | new | ret=r
    ensures !r.triggered,
    @sub? /_phantom: PhantomData,/ =>
    @*/
    /*@extract knaster_core_dsp/src/ugens/util.rs | impl<F: Float> DoneOnTrig<F> | t_done
    ensures final(self).triggered,
    @*/
    /*@extract knaster_core_dsp/src/ugens/util.rs | impl<F: Float> DoneOnTrig<F> | process | ret=r
    ensures final(self).triggered == old(self).triggered, *final(flags) == (if old(self).triggered { marked(*old(flags), 0) } else { *old(flags) }),
    @*/
}
}
fn main() {}
