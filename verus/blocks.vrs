use vstd::prelude::*;
verus! {
/*@include fl.inc @*/
/// Blocks: the samples of each channel of the view (C11: read and write of every kind of block and view meet these contracts).
struct Block { s: Ghost<Seq<Seq<F>>> }
impl Block {
    spec fn shape(self, ch: int, len: int) -> bool { self.s@.len() >= ch && forall|c: int| 0 <= c < ch ==> (#[trigger] self.s@[c]).len() == len }
    #[verifier::external_body]
    fn read(&self, c: usize, f: usize) -> (r: F) requires c < self.s@.len(), f < self.s@[c as int].len() ensures r == self.s@[c as int][f as int] { unimplemented!() }
    #[verifier::external_body]
    fn write(&mut self, v: F, c: usize, f: usize)
        requires c < old(self).s@.len(), f < old(self).s@[c as int].len()
        ensures final(self).s@ == old(self).s@.update(c as int, old(self).s@[c as int].update(f as int, v)) { unimplemented!() }
}
struct BlockMetadata { frames_to_process: usize }
struct AudioCtx { block: BlockMetadata }
/// The flags are part of the state that a UGen computes.
struct UGenFlags { s: Ghost<FlagState> }
#[verifier::external_body]
struct FlagState { x: u8 }
/// The state of a UGen about which nothing is known: each frame of input gives a next state (and flags) and a frame of output.
#[verifier::external_body]
struct St { x: u8 }
uninterp spec fn next(s: (St, FlagState), i: Seq<F>) -> (St, FlagState);
uninterp spec fn outp(s: (St, FlagState), i: Seq<F>) -> Seq<F>;
/// the state after the frames of `ins`
spec fn run(s: (St, FlagState), ins: Seq<Seq<F>>) -> (St, FlagState) decreases ins.len() {
    if ins.len() == 0 { s } else { next(run(s, ins.drop_last()), ins.last()) }
}
/// frames of the first n frames of input of a view
spec fn frames(b: Seq<Seq<F>>, ch: int, n: int) -> Seq<Seq<F>> { Seq::new(n as nat, |f: int| Seq::new(ch as nat, |c: int| b[c][f])) }
/// Running a then b is running a + b: the state and the output do not depend on where the frames are divided.
proof fn split_anywhere(s: (St, FlagState), a: Seq<Seq<F>>, b: Seq<Seq<F>>)
    ensures run(run(s, a), b) == run(s, a + b)
    decreases b.len()
{
    if b.len() > 0 {
        split_anywhere(s, a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a + b).last() == b.last());
    } else { assert(a + b =~= a); }
}
/// ... nor does any output frame.
proof fn output_anywhere(s: (St, FlagState), a: Seq<Seq<F>>, b: Seq<Seq<F>>, k: int)
    requires 0 <= k < b.len()
    ensures outp(run(run(s, a), b.take(k)), b[k]) == outp(run(s, (a + b).take(a.len() + k)), (a + b)[a.len() + k])
{
    split_anywhere(s, a, b.take(k));
    assert((a + b).take(a.len() + k) =~= a + b.take(k));
}
struct U<const I: usize, const O: usize> { s: Ghost<St> }
#[verifier::external_body]
fn empty_frame<const N: usize>() -> (r: [F; N]) { unimplemented!() }
impl<const I: usize, const O: usize> U<I, O> {
    #[verifier::external_body]
    fn process(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, input: [F; I]) -> (r: [F; O])
        ensures *final(ctx) == *old(ctx), (final(self).s@, final(flags).s@) == next((old(self).s@, old(flags).s@), input@), r@ == outp((old(self).s@, old(flags).s@), input@)
    { unimplemented!() }
    /*@extract knaster_core/src/ugen.rs | pub trait UGen | process_block
    requires input.shape(I as int, old(ctx).block.frames_to_process as int), old(output).shape(O as int, old(ctx).block.frames_to_process as int),
    ensures ({
        let n = old(ctx).block.frames_to_process as int;
        let ins = frames(input.s@, I as int, n);
        let s0 = (old(self).s@, old(flags).s@);
        &&& *final(ctx) == *old(ctx)
        // every frame is processed once, in order
        &&& (final(self).s@, final(flags).s@) == run(s0, ins)
        // and its output is what it would be on its own
        &&& final(output).shape(O as int, n) && final(output).s@.len() == old(output).s@.len()
        &&& forall|f: int, c: int| 0 <= f < n && 0 <= c < O ==> (#[trigger] final(output).s@[c][f]) == outp(run(s0, ins.take(f)), ins[f])[c]
        &&& forall|c: int| O <= c < old(output).s@.len() ==> final(output).s@[c] == old(output).s@[c]
    }),
    @sig /<InBlock, OutBlock>/ =>
    @sig /where.*$/ =>

    @sig? /&InBlock/ => &Block
    @sig /&mut OutBlock/ => &mut Block
    @sub /for frame in 0\.\./ => for frame in it: 0..
    @sub /Frame::default\(\)/ => empty_frame::<I>()
    @sub /Self::Inputs::USIZE/ => I
    @sub /Self::Outputs::USIZE/ => O
    @start
        let ghost s0 = (self.s@, flags.s@);
        let ghost n = ctx.block.frames_to_process as int;
        let ghost ins = frames(input.s@, I as int, n);
        let ghost out0 = output.s@;
        let ghost c0 = *ctx;
        proof { assert(ins.take(0) =~= Seq::empty()); }
    @loop 0
        invariant
            it.iter.end == n, it.snapshot.end == n, *ctx == c0, n == c0.block.frames_to_process, ins == frames(input.s@, I as int, n), input.shape(I as int, n), output.shape(O as int, n), output.s@.len() == out0.len(),
            (self.s@, flags.s@) == run(s0, ins.take(frame as int)),
            forall|f: int, c: int| 0 <= f < frame && 0 <= c < O ==> (#[trigger] output.s@[c][f]) == outp(run(s0, ins.take(f)), ins[f])[c],
            forall|c: int| O <= c < out0.len() ==> output.s@[c] == out0[c],
    @afterloop 0
        proof { assert(ins.take(n) =~= ins); }
    @loop 1
        invariant n == c0.block.frames_to_process, frame < n, *ctx == c0, input.shape(I as int, n), forall|c: int| 0 <= c < i ==> in_frame@[c] == input.s@[c][frame as int],
    @afterloop 1
        proof { assert(in_frame@ =~= ins[frame as int]); }
        let ghost s1 = (self.s@, flags.s@);
    @loop 2
        invariant
            n == c0.block.frames_to_process, frame < n, output.shape(O as int, n), output.s@.len() == out0.len(),
            out_frame@ == outp(s1, ins[frame as int]), s1 == run(s0, ins.take(frame as int)),
            forall|c: int| 0 <= c < i ==> (#[trigger] output.s@[c][frame as int]) == out_frame@[c],
            forall|f: int, c: int| 0 <= f < frame && 0 <= c < O ==> (#[trigger] output.s@[c][f]) == outp(run(s0, ins.take(f)), ins[f])[c],
            forall|c: int| O <= c < out0.len() ==> output.s@[c] == out0[c],
    @afterloop 2
        proof {
            let t = ins.take(frame + 1);
            assert(t.drop_last() =~= ins.take(frame as int));
            assert(t.last() == ins[frame as int]);
        }
    @*/
}
}
fn main() {}
