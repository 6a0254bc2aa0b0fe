use vstd::prelude::*;
verus! {
/*@include env.inc @*/
#[derive(Copy, Clone)]
struct ParameterValue { id: u64 }
/// The wrapped UGen: `pos` is the next frame of the block it has not processed, `applied` the changes it got and when.
struct Wrapped { pos: Ghost<int>, applied: Ghost<Seq<(int, usize, ParameterValue)>> }
impl Wrapped {
    #[verifier::external_body]
    fn param_apply(&mut self, ctx: &AudioCtx, index: usize, value: ParameterValue)
        ensures final(self).pos == old(self).pos, final(self).applied@ == old(self).applied@.push((old(self).pos@, index, value)),
    { unimplemented!() }
    #[verifier::external_body]
    fn process_block(&mut self, ctx: &AudioCtx, flags: &UGenFlags, input: &PartialBlock, output: &PartialBlock)
        requires
            // frames are processed in order, once, and context, input and output are views of the same frames
            input.v@.start == old(self).pos@, output.v@.start == old(self).pos@, ctx.block.start == old(self).pos@,
            input.v@.len == ctx.block.len, output.v@.len == ctx.block.len,
        ensures final(self).pos@ == old(self).pos@ + ctx.block.len, final(self).applied == old(self).applied,
    { unimplemented!() }
}
spec fn due(d: int, start: int) -> int { if d < start { start } else { d } }

struct WrPreciseTiming<const DELAYED_CHANGES_PER_BLOCK: usize> {
    ugen: Wrapped,
    waiting_changes: [Option<(u16, usize, ParameterValue)>; DELAYED_CHANGES_PER_BLOCK],
    next_delay: Vec<u16>,
    next_delay_i: usize,
}
impl<const DELAYED_CHANGES_PER_BLOCK: usize> WrPreciseTiming<DELAYED_CHANGES_PER_BLOCK> {
    spec fn wf(self) -> bool {
        &&& self.next_delay_i <= DELAYED_CHANGES_PER_BLOCK
        &&& forall|j: int| 0 <= j < self.next_delay_i ==> (#[trigger] self.waiting_changes@[j]) is Some
    }
    spec fn delay(self, j: int) -> int { (self.waiting_changes@[j]->0).0 as int }
    /// in due order and within the block
    spec fn in_order(self, end: int) -> bool {
        &&& forall|i: int, j: int| 0 <= i <= j < self.next_delay_i ==> self.delay(i) <= self.delay(j)
        &&& forall|j: int| 0 <= j < self.next_delay_i ==> self.delay(j) < end
    }
    /// the first n changes, with the frames at which they must be applied
    spec fn plan(self, n: int, start: int) -> Seq<(int, usize, ParameterValue)> {
        Seq::new(n as nat, |j: int| (due(self.delay(j), start), (self.waiting_changes@[j]->0).1, (self.waiting_changes@[j]->0).2))
    }

    /*@extract knaster_core_dsp/src/wrappers_core/precise_timing.rs | impl<T: UGen, const DELAYED_CHANGES_PER_BLOCK: usize> UGen for WrPreciseTiming<DELAYED_CHANGES_PER_BLOCK, T> | process_block
    requires
        old(self).wf(), old(ctx).block.start + old(ctx).block.len <= 0xffff,
        old(self).in_order(old(ctx).block.start + old(ctx).block.len),
        input.v@.start == old(ctx).block.start, old(output).v@.start == old(ctx).block.start,
        input.v@.len == old(ctx).block.len, old(output).v@.len == old(ctx).block.len,
        old(self).ugen.pos@ == old(ctx).block.start, old(ctx).block.len > 0,
    ensures
        *final(ctx) == *old(ctx),
        // every frame is processed exactly once
        final(self).ugen.pos@ == old(ctx).block.start + old(ctx).block.len,
        // every change is applied exactly once, in order, each at its frame
        final(self).ugen.applied@ == old(self).ugen.applied@ + old(self).plan(old(self).next_delay_i as int, old(ctx).block.start as int),
        // nothing is left for the next block
        final(self).wf(), final(self).next_delay_i == 0,
        final(self).next_delay == old(self).next_delay,
    @sig /<InBlock, OutBlock>/ =>
    @sig /where.*$/ =>
    @sig /&InBlock/ => &PartialBlock
    @sig /&mut OutBlock/ => &mut PartialBlock
    @sub? /local_frames_to_process\s*\.min\((\(?\*delay\)? as usize - ctx\.block_start_offset\(\) - block_i)\)/ => min_usize(local_frames_to_process, \1)
    @start
        let ghost s = *old(self);
        let ghost st = ctx.block.start as int;
        let ghost len = ctx.block.len as int;
        let ghost n = self.next_delay_i as int;
        let ghost app0 = self.ugen.applied@;
    @loop 0
        invariant
            st == org_block.start, len == org_block.len, st + len <= 0xffff, ctx.block == org_block, n == num_changes_scheduled, s.wf(), s.in_order(st + len), n == s.next_delay_i,
            n <= DELAYED_CHANGES_PER_BLOCK, change_i <= n, block_i <= len, len > 0,
            self.next_delay_i == n, self.next_delay == s.next_delay,
            self.ugen.pos@ == st + block_i,
            input.v@.start == st, input.v@.len == len, output.v@.start == st, output.v@.len == len,
            self.ugen.applied@ == app0 + s.plan(change_i as int, st),
            forall|j: int| change_i <= j < n ==> self.waiting_changes@[j] == s.waiting_changes@[j],
            // the next change is not overdue
            change_i < n && block_i > 0 ==> s.delay(change_i as int) >= st + block_i,
        ensures block_i == len, change_i == n,
        decreases len - block_i,
    @loop 1
        invariant_except_break
            local_frames_to_process == len - block_i,
        invariant
            st == org_block.start, len == org_block.len, st + len <= 0xffff, ctx.block == org_block, n == num_changes_scheduled, s.wf(), s.in_order(st + len), n == s.next_delay_i,
            n <= DELAYED_CHANGES_PER_BLOCK, change_i <= n, block_i <= len,
            self.next_delay_i == n, self.next_delay == s.next_delay,
            self.ugen.pos@ == st + block_i,
            self.ugen.applied@ == app0 + s.plan(change_i as int, st),
            forall|j: int| change_i <= j < n ==> self.waiting_changes@[j] == s.waiting_changes@[j],
            change_i < n && block_i > 0 ==> s.delay(change_i as int) >= st + block_i,
        ensures
            local_frames_to_process == (if change_i < n { s.delay(change_i as int) - st - block_i } else { len - block_i }),
            change_i < n ==> s.delay(change_i as int) > st + block_i,
        decreases n - change_i,
    @loopstart 1
        let ghost c0 = change_i as int;
        proof {
            assert(self.waiting_changes@[c0] == s.waiting_changes@[c0]);
            assert(s.waiting_changes@[c0] is Some);
            assert(s.delay(c0) < st + len);
            assert(forall|j: int| c0 <= j < n ==> s.delay(c0) <= s.delay(j));
        }
    @loopend 1
        proof {
            assert(s.plan(c0 + 1, st) =~= s.plan(c0, st).push((due(s.delay(c0), st), (s.waiting_changes@[c0]->0).1, (s.waiting_changes@[c0]->0).2)));
            assert(self.ugen.applied@ =~= app0 + s.plan(c0 + 1, st));
            if c0 + 1 < n && block_i > 0 { assert(s.delay(c0 + 1) >= s.delay(c0)); }
        }
    @*/
    /*@extract knaster_core_dsp/src/wrappers_core/precise_timing.rs | impl<T: UGen, const DELAYED_CHANGES_PER_BLOCK: usize> UGen for WrPreciseTiming<DELAYED_CHANGES_PER_BLOCK, T> | param_apply
    requires old(self).wf(), index < old(self).next_delay@.len(),
    ensures
        final(self).wf(),
        // a delay is only used once, and only for the change it was set for
        final(self).next_delay@ == old(self).next_delay@.update(index as int, 0),
        old(self).next_delay@[index as int] == 0 ==> {
            &&& final(self).ugen.applied@ == old(self).ugen.applied@.push((old(self).ugen.pos@, index, value))
            &&& final(self).next_delay_i == old(self).next_delay_i && final(self).waiting_changes == old(self).waiting_changes
        },
        old(self).next_delay@[index as int] > 0 ==> final(self).ugen.applied@ == old(self).ugen.applied@,
        old(self).next_delay@[index as int] > 0 && old(self).next_delay_i < DELAYED_CHANGES_PER_BLOCK ==> {
            &&& final(self).next_delay_i == old(self).next_delay_i + 1
            &&& final(self).waiting_changes@ == old(self).waiting_changes@.update(old(self).next_delay_i as int, Some((old(self).next_delay@[index as int], index, value)))
        },
        old(self).next_delay@[index as int] > 0 && old(self).next_delay_i >= DELAYED_CHANGES_PER_BLOCK ==> final(self).next_delay_i == old(self).next_delay_i && final(self).waiting_changes == old(self).waiting_changes,
    @sub? /core::mem::take\(&mut self\.next_delay\[index\]\)/ => take_at(&mut self.next_delay, index)
    @sub? /rt_log!\(.*DELAYED_CHANGES_PER_BLOCK\);/ =>
    @*/
    /*@extract knaster_core_dsp/src/wrappers_core/precise_timing.rs | impl<T: UGen, const DELAYED_CHANGES_PER_BLOCK: usize> UGen for WrPreciseTiming<DELAYED_CHANGES_PER_BLOCK, T> | set_delay_within_block_for_param
    requires index < old(self).next_delay@.len(),
    ensures final(self).next_delay@ == old(self).next_delay@.update(index as int, delay), final(self).ugen == old(self).ugen,
        final(self).waiting_changes == old(self).waiting_changes, final(self).next_delay_i == old(self).next_delay_i,
    @sub? /self\.next_delay\[index\] = delay/ => self.next_delay.set(index, delay)
    @*/
}
fn take_at(v: &mut Vec<u16>, i: usize) -> (r: u16)
    requires i < old(v)@.len(),
    ensures r == old(v)@[i as int], final(v)@ == old(v)@.update(i as int, 0),
{ let r = v[i]; v.set(i, 0); r }
}
fn main() {}
