use vstd::prelude::*;
verus! {
/*@include fl.inc @*/
/// `assert!`: returns only if the condition holds
#[verifier::external_body]
fn check(b: bool) ensures b { assert!(b) }
/// where frame f of channel c is in a contiguous block
spec fn place(bs: int, c: int, f: int) -> int { c * bs + f }
/// Every frame of every channel is in the allocation ...
proof fn in_block(ch: int, bs: int, c: int, f: int)
    requires 0 <= c < ch, 0 <= f < bs
    ensures 0 <= place(bs, c, f) < ch * bs, 0 <= c * bs, c * bs + bs <= ch * bs, (c + 1) * bs == c * bs + bs
{
    assert(0 <= c * bs) by (nonlinear_arith) requires 0 <= c, 0 <= bs;
    assert((c + 1) * bs == c * bs + bs) by (nonlinear_arith);
    assert((c + 1) * bs <= ch * bs) by (nonlinear_arith) requires c + 1 <= ch, 0 <= bs;
}
/// ... at a place of its own: writing one changes no other.
proof fn own_place(bs: int, c: int, f: int, c2: int, f2: int)
    requires 0 <= f < bs, 0 <= f2 < bs, place(bs, c, f) == place(bs, c2, f2)
    ensures c == c2, f == f2
{
    if c < c2 { assert((c + 1) * bs <= c2 * bs) by (nonlinear_arith) requires c + 1 <= c2, 0 <= bs; assert((c + 1) * bs == c * bs + bs) by (nonlinear_arith); }
    if c > c2 { assert((c2 + 1) * bs <= c * bs) by (nonlinear_arith) requires c2 + 1 <= c, 0 <= bs; assert((c2 + 1) * bs == c2 * bs + bs) by (nonlinear_arith); }
}
/// the samples of channel c
spec fn chan(m: Seq<F>, bs: int, c: int) -> Seq<F> { m.subrange(c * bs, c * bs + bs) }
/// `after` is `before` with frame f of channel c set to v, seen through every frame of every channel
spec fn one_written(before: Seq<F>, after: Seq<F>, ch: int, bs: int, c: int, f: int, v: F) -> bool {
    &&& after.len() == before.len()
    &&& forall|c2: int, f2: int| 0 <= c2 < ch && 0 <= f2 < bs ==> #[trigger] after[place(bs, c2, f2)] == (if c2 == c && f2 == f { v } else { before[place(bs, c2, f2)] })
}
proof fn writes_one(before: Seq<F>, after: Seq<F>, ch: int, bs: int, c: int, f: int, v: F)
    requires 0 <= c < ch, 0 <= f < bs, before.len() >= ch * bs, after == before.update(place(bs, c, f), v)
    ensures one_written(before, after, ch, bs, c, f, v)
{
    assert forall|c2: int, f2: int| 0 <= c2 < ch && 0 <= f2 < bs implies #[trigger] after[place(bs, c2, f2)] == (if c2 == c && f2 == f { v } else { before[place(bs, c2, f2)] }) by {
        in_block(ch, bs, c2, f2); in_block(ch, bs, c, f);
        if place(bs, c2, f2) == place(bs, c, f) { own_place(bs, c, f, c2, f2); }
    }
}
/// after writing through a channel, exactly that channel has changed
spec fn channel_written(before: Seq<F>, after: Seq<F>, ch: int, bs: int, c: int, new: Seq<F>) -> bool {
    &&& after.len() == before.len()
    &&& forall|c2: int, f2: int| 0 <= c2 < ch && 0 <= f2 < bs ==> #[trigger] after[place(bs, c2, f2)] == (if c2 == c { new[f2] } else { before[place(bs, c2, f2)] })
}
spec fn spliced(before: Seq<F>, at: int, new: Seq<F>) -> Seq<F> { before.take(at) + new + before.skip(at + new.len()) }
proof fn writes_channel(before: Seq<F>, after: Seq<F>, ch: int, bs: int, c: int, new: Seq<F>)
    requires 0 <= c < ch, 0 <= bs, new.len() == bs, before.len() >= ch * bs, after == spliced(before, c * bs, new)
    ensures channel_written(before, after, ch, bs, c, new)
{
    assert forall|c2: int, f2: int| 0 <= c2 < ch && 0 <= f2 < bs implies #[trigger] after[place(bs, c2, f2)] == (if c2 == c { new[f2] } else { before[place(bs, c2, f2)] }) by {
        in_block(ch, bs, c2, f2); in_block(ch, bs, c, f2);
        if c2 < c { assert((c2 + 1) * bs <= c * bs) by (nonlinear_arith) requires c2 + 1 <= c, 0 <= bs; }
        if c2 > c { assert((c + 1) * bs <= c2 * bs) by (nonlinear_arith) requires c + 1 <= c2, 0 <= bs; }
    }
    if bs > 0 { in_block(ch, bs, c, 0); } else { assert(c * bs == 0 && ch * bs == 0) by (nonlinear_arith) requires bs == 0; }
}
/// Memory from a pointer on. `*p.add(i)` and slices from raw parts have to be inside of it.
struct Mem { s: Ghost<Seq<F>> }
impl Mem {
    #[verifier::external_body]
    fn load(&self, i: usize) -> (r: F) requires i < self.s@.len() ensures r == self.s@[i as int] { unimplemented!() }
    #[verifier::external_body]
    fn store(&mut self, i: usize, v: F) requires i < old(self).s@.len() ensures final(self).s@ == old(self).s@.update(i as int, v) { unimplemented!() }
    #[verifier::external_body]
    fn slice(&self, i: usize, n: usize) -> (r: &[F]) requires i + n <= self.s@.len() ensures r@ == self.s@.subrange(i as int, i + n) { unimplemented!() }
    #[verifier::external_body]
    fn slice_mut(&mut self, i: usize, n: usize) -> (r: &mut [F]) requires i + n <= old(self).s@.len() ensures (*r)@ == old(self).s@.subrange(i as int, i + n), final(self).s@ == spliced(old(self).s@, i as int, (*final(r))@) { unimplemented!() }
}
/// `&s[a..b]`, `&mut s[a..b]`
#[verifier::external_body]
fn part(s: &[F], a: usize, b: usize) -> (r: &[F]) requires a <= b <= s@.len() ensures r@ == s@.subrange(a as int, b as int) { unimplemented!() }
#[verifier::external_body]
fn part_mut(s: &mut [F], a: usize, b: usize) -> (r: &mut [F]) requires a <= b <= old(s)@.len() ensures (*r)@ == old(s)@.subrange(a as int, b as int), final(s)@ == spliced(old(s)@, a as int, (*final(r))@), (*final(r))@.len() == b - a { unimplemented!() }
/// (before code that computes with `channel * block_size`)
proof fn lim(ch: int, bs: int, c: int)
    requires 0 <= c, 0 <= bs, 0 <= ch
    ensures c < ch ==> 0 <= c * bs && c * bs + bs <= ch * bs && (c + 1) * bs == c * bs + bs && (bs > 0 ==> c + 1 <= ch * bs)
{
    assert((c + 1) * bs == c * bs + bs) by (nonlinear_arith);
    if c < ch {
        assert(0 <= c * bs) by (nonlinear_arith) requires 0 <= c, 0 <= bs;
        assert((c + 1) * bs <= ch * bs) by (nonlinear_arith) requires c + 1 <= ch, 0 <= bs;
        if bs > 0 { assert(c + 1 <= (c + 1) * bs) by (nonlinear_arith) requires c >= 0, bs >= 1; }
    }
}
struct VecBlock { buffer: Vec<F>, channels: usize, block_size: usize }
impl VecBlock {
    spec fn wf(self) -> bool { self.buffer@.len() == self.channels * self.block_size && self.buffer@.len() <= usize::MAX }
    /*@extract knaster_primitives/src/block.rs | impl<F: Float> Block for VecBlock<F> | channel_as_slice | ret=r
    requires self.wf(),
    ensures channel < self.channels, r@ == chan(self.buffer@, self.block_size as int, channel as int), r@.len() == self.block_size,
    @sig? /Self::Sample/ => F
    @sub? /assert!\(([^;]*)\);/ => check(\1);
    @sub? /(?m)&self\.buffer\[(.*)\.\.(.*)\]$/ => part(self.buffer.as_slice(), \1, \2)
    @sub? /(?m)&mut self\.buffer\[(.*)\.\.(.*)\]$/ => part_mut(self.buffer.as_mut_slice(), \1, \2)
    @start
        proof { lim(self.channels as int, self.block_size as int, channel as int); }
    @*/
    /*@extract knaster_primitives/src/block.rs | impl<F: Float> Block for VecBlock<F> | read | ret=r
    requires self.wf(), channel < self.channels, frame < self.block_size,
    ensures channel < self.channels, frame < self.block_size, r == self.buffer@[place(self.block_size as int, channel as int, frame as int)],
    @sig? /Self::Sample/ => F
    @sub? /assert!\(([^;]*)\);/ => check(\1);
    @sub? /(?m)&self\.buffer\[(.*)\.\.(.*)\]$/ => part(self.buffer.as_slice(), \1, \2)
    @sub? /(?m)&mut self\.buffer\[(.*)\.\.(.*)\]$/ => part_mut(self.buffer.as_mut_slice(), \1, \2)
    @start
        proof { lim(self.channels as int, self.block_size as int, channel as int); }
    @*/
    /*@extract knaster_primitives/src/block.rs | impl<F: Float> Block for VecBlock<F> | channel_as_slice_mut | ret=r
    requires old(self).wf(), channel < old(self).channels,
    ensures channel < old(self).channels, (*r)@ == chan(old(self).buffer@, old(self).block_size as int, channel as int), final(self).buffer@ == spliced(old(self).buffer@, channel * old(self).block_size, (*final(r))@), final(self).block_size == old(self).block_size, final(self).channels == old(self).channels,
    @sig? /Self::Sample/ => F
    @sub? /assert!\(([^;]*)\);/ => check(\1);
    @sub? /(?m)&self\.buffer\[(.*)\.\.(.*)\]$/ => part(self.buffer.as_slice(), \1, \2)
    @sub? /(?m)&mut self\.buffer\[(.*)\.\.(.*)\]$/ => part_mut(self.buffer.as_mut_slice(), \1, \2)
    @start
        proof { lim(self.channels as int, self.block_size as int, channel as int); }
    @*/
    /*@extract knaster_primitives/src/block.rs | impl<F: Float> Block for VecBlock<F> | write
    requires old(self).wf(), channel < old(self).channels, frame < old(self).block_size,
    ensures channel < old(self).channels, frame < old(self).block_size, final(self).buffer@ == old(self).buffer@.update(place(old(self).block_size as int, channel as int, frame as int), value), final(self).block_size == old(self).block_size, final(self).channels == old(self).channels,
    @sig? /Self::Sample/ => F
    @sub? /assert!\(([^;]*)\);/ => check(\1);
    @sub? /(?m)&self\.buffer\[(.*)\.\.(.*)\]$/ => part(self.buffer.as_slice(), \1, \2)
    @sub? /(?m)&mut self\.buffer\[(.*)\.\.(.*)\]$/ => part_mut(self.buffer.as_mut_slice(), \1, \2)
    @start
        proof { lim(self.channels as int, self.block_size as int, channel as int); }
    @*/
    /*@extract knaster_primitives/src/block.rs | impl<F: Float> Block for VecBlock<F> | channels | ret=r
    ensures r == self.channels,
    @sub? /(?m)&self\.buffer\[(.*)\.\.(.*)\]$/ => part(self.buffer.as_slice(), \1, \2)
    @sub? /(?m)&mut self\.buffer\[(.*)\.\.(.*)\]$/ => part_mut(self.buffer.as_mut_slice(), \1, \2)
    @*/
    /*@extract knaster_primitives/src/block.rs | impl<F: Float> Block for VecBlock<F> | block_size | ret=r
    ensures r == self.block_size,
    @sub? /(?m)&self\.buffer\[(.*)\.\.(.*)\]$/ => part(self.buffer.as_slice(), \1, \2)
    @sub? /(?m)&mut self\.buffer\[(.*)\.\.(.*)\]$/ => part_mut(self.buffer.as_mut_slice(), \1, \2)
    @*/
}
/// NumericArray<F, Prod<BLOCK_SIZE, CHANNELS>>
struct StaticBlock<const CH: usize, const BS: usize> { buffer: Vec<F> }
impl<const CH: usize, const BS: usize> StaticBlock<CH, BS> {
    spec fn wf(self) -> bool { self.buffer@.len() == CH * BS && CH * BS <= usize::MAX }
    /*@extract knaster_primitives/src/block.rs | impl<BLOCK_SIZE: Size, CHANNELS: Size, F: Float> Block for StaticBlock<F, CHANNELS, BLOCK_SIZE> | channel_as_slice | ret=r
    requires self.wf(), channel < CH,
    ensures channel < CH, r@ == chan(self.buffer@, BS as int, channel as int), r@.len() == BS,
    @sig? /Self::Sample/ => F
    @sub? /assert!\(([^;]*)\);/ => check(\1);
    @sub? /BLOCK_SIZE::USIZE/ => BS
    @sub? /CHANNELS::USIZE/ => CH
    @sub? /(?m)&self\.buffer\[(.*)\.\.(.*)\]$/ => part(self.buffer.as_slice(), \1, \2)
    @sub? /(?m)&mut self\.buffer\[(.*)\.\.(.*)\]$/ => part_mut(self.buffer.as_mut_slice(), \1, \2)
    @start
        proof { lim(CH as int, BS as int, channel as int); }
    @*/
    /*@extract knaster_primitives/src/block.rs | impl<BLOCK_SIZE: Size, CHANNELS: Size, F: Float> Block for StaticBlock<F, CHANNELS, BLOCK_SIZE> | read | ret=r
    requires self.wf(), channel < CH, frame < BS,
    ensures channel < CH, frame < BS, r == self.buffer@[place(BS as int, channel as int, frame as int)],
    @sig? /Self::Sample/ => F
    @sub? /assert!\(([^;]*)\);/ => check(\1);
    @sub? /BLOCK_SIZE::USIZE/ => BS
    @sub? /CHANNELS::USIZE/ => CH
    @sub? /(?m)&self\.buffer\[(.*)\.\.(.*)\]$/ => part(self.buffer.as_slice(), \1, \2)
    @sub? /(?m)&mut self\.buffer\[(.*)\.\.(.*)\]$/ => part_mut(self.buffer.as_mut_slice(), \1, \2)
    @start
        proof { lim(CH as int, BS as int, channel as int); }
    @*/
    /*@extract knaster_primitives/src/block.rs | impl<BLOCK_SIZE: Size, CHANNELS: Size, F: Float> Block for StaticBlock<F, CHANNELS, BLOCK_SIZE> | channel_as_slice_mut | ret=r
    requires old(self).wf(), channel < CH,
    ensures channel < CH, (*r)@ == chan(old(self).buffer@, BS as int, channel as int), final(self).buffer@ == spliced(old(self).buffer@, channel * BS, (*final(r))@), BS == BS, CH == CH,
    @sig? /Self::Sample/ => F
    @sub? /assert!\(([^;]*)\);/ => check(\1);
    @sub? /BLOCK_SIZE::USIZE/ => BS
    @sub? /CHANNELS::USIZE/ => CH
    @sub? /(?m)&self\.buffer\[(.*)\.\.(.*)\]$/ => part(self.buffer.as_slice(), \1, \2)
    @sub? /(?m)&mut self\.buffer\[(.*)\.\.(.*)\]$/ => part_mut(self.buffer.as_mut_slice(), \1, \2)
    @start
        proof { lim(CH as int, BS as int, channel as int); }
    @*/
    /*@extract knaster_primitives/src/block.rs | impl<BLOCK_SIZE: Size, CHANNELS: Size, F: Float> Block for StaticBlock<F, CHANNELS, BLOCK_SIZE> | write
    requires old(self).wf(), channel < CH, frame < BS,
    ensures channel < CH, frame < BS, final(self).buffer@ == old(self).buffer@.update(place(BS as int, channel as int, frame as int), value), BS == BS, CH == CH,
    @sig? /Self::Sample/ => F
    @sub? /assert!\(([^;]*)\);/ => check(\1);
    @sub? /BLOCK_SIZE::USIZE/ => BS
    @sub? /CHANNELS::USIZE/ => CH
    @sub? /(?m)&self\.buffer\[(.*)\.\.(.*)\]$/ => part(self.buffer.as_slice(), \1, \2)
    @sub? /(?m)&mut self\.buffer\[(.*)\.\.(.*)\]$/ => part_mut(self.buffer.as_mut_slice(), \1, \2)
    @start
        proof { lim(CH as int, BS as int, channel as int); }
    @*/
    /*@extract knaster_primitives/src/block.rs | impl<BLOCK_SIZE: Size, CHANNELS: Size, F: Float> Block for StaticBlock<F, CHANNELS, BLOCK_SIZE> | channels | ret=r
    ensures r == CH,
    @sub? /BLOCK_SIZE::USIZE/ => BS
    @sub? /CHANNELS::USIZE/ => CH
    @sub? /(?m)&self\.buffer\[(.*)\.\.(.*)\]$/ => part(self.buffer.as_slice(), \1, \2)
    @sub? /(?m)&mut self\.buffer\[(.*)\.\.(.*)\]$/ => part_mut(self.buffer.as_mut_slice(), \1, \2)
    @*/
    /*@extract knaster_primitives/src/block.rs | impl<BLOCK_SIZE: Size, CHANNELS: Size, F: Float> Block for StaticBlock<F, CHANNELS, BLOCK_SIZE> | block_size | ret=r
    ensures r == BS,
    @sub? /BLOCK_SIZE::USIZE/ => BS
    @sub? /CHANNELS::USIZE/ => CH
    @sub? /(?m)&self\.buffer\[(.*)\.\.(.*)\]$/ => part(self.buffer.as_slice(), \1, \2)
    @sub? /(?m)&mut self\.buffer\[(.*)\.\.(.*)\]$/ => part_mut(self.buffer.as_mut_slice(), \1, \2)
    @*/
}
struct RawContiguousBlock { buffer: Mem, channels: usize, block_size: usize }
impl RawContiguousBlock {
    /// what `new` asks of the caller
    spec fn wf(self) -> bool { self.buffer.s@.len() >= self.channels * self.block_size && self.channels * self.block_size <= usize::MAX }
    /*@extract knaster_graph/src/block.rs | impl<F: Float> RawContiguousBlock<F> | new | ret=r
    ensures r.buffer == buffer, r.channels == channels, r.block_size == block_size,
    @sig /unsafe fn/ => fn
    @sig /\*mut F/ => Mem
    @*/
    /*@extract knaster_graph/src/block.rs | impl<F: Float> Block for RawContiguousBlock<F> | channel_as_slice | ret=r
    requires self.wf(),
    ensures channel < self.channels, r@ == chan(self.buffer.s@, self.block_size as int, channel as int), r@.len() == self.block_size,
    @sig? /Self::Sample/ => F
    @sub? /assert!\(([^;]*)\);/ => check(\1);
    @sub? /(?m)slice::from_raw_parts_mut\(self\.buffer\.add\((.*)\), (.*)\)$/ => self.buffer.slice_mut(\1, \2)
    @sub? /(?m)slice::from_raw_parts\(self\.buffer\.add\((.*)\), (.*)\)$/ => self.buffer.slice(\1, \2)
    @sub? /\(\*self\.buffer\.add\((.*)\)\) = (.*);/ => self.buffer.store(\1, \2);
    @sub? /\*self\.buffer\.add\((.*)\) \}/ => self.buffer.load(\1) }
    @sub? /unsafe \{/ => {
    @start
        proof { lim(self.channels as int, self.block_size as int, channel as int); }
    @*/
    /*@extract knaster_graph/src/block.rs | impl<F: Float> Block for RawContiguousBlock<F> | read | ret=r
    requires self.wf(),
    ensures channel < self.channels, frame < self.block_size, r == self.buffer.s@[place(self.block_size as int, channel as int, frame as int)],
    @sig? /Self::Sample/ => F
    @sub? /assert!\(([^;]*)\);/ => check(\1);
    @sub? /(?m)slice::from_raw_parts_mut\(self\.buffer\.add\((.*)\), (.*)\)$/ => self.buffer.slice_mut(\1, \2)
    @sub? /(?m)slice::from_raw_parts\(self\.buffer\.add\((.*)\), (.*)\)$/ => self.buffer.slice(\1, \2)
    @sub? /\(\*self\.buffer\.add\((.*)\)\) = (.*);/ => self.buffer.store(\1, \2);
    @sub? /\*self\.buffer\.add\((.*)\) \}/ => self.buffer.load(\1) }
    @sub? /unsafe \{/ => {
    @start
        proof { lim(self.channels as int, self.block_size as int, channel as int); }
    @*/
    /*@extract knaster_graph/src/block.rs | impl<F: Float> Block for RawContiguousBlock<F> | channel_as_slice_mut | ret=r
    requires old(self).wf(),
    ensures channel < old(self).channels, (*r)@ == chan(old(self).buffer.s@, old(self).block_size as int, channel as int), final(self).buffer.s@ == spliced(old(self).buffer.s@, channel * old(self).block_size, (*final(r))@), final(self).block_size == old(self).block_size, final(self).channels == old(self).channels,
    @sig? /Self::Sample/ => F
    @sub? /assert!\(([^;]*)\);/ => check(\1);
    @sub? /(?m)slice::from_raw_parts_mut\(self\.buffer\.add\((.*)\), (.*)\)$/ => self.buffer.slice_mut(\1, \2)
    @sub? /(?m)slice::from_raw_parts\(self\.buffer\.add\((.*)\), (.*)\)$/ => self.buffer.slice(\1, \2)
    @sub? /\(\*self\.buffer\.add\((.*)\)\) = (.*);/ => self.buffer.store(\1, \2);
    @sub? /\*self\.buffer\.add\((.*)\) \}/ => self.buffer.load(\1) }
    @sub? /unsafe \{/ => {
    @start
        proof { lim(self.channels as int, self.block_size as int, channel as int); }
    @*/
    /*@extract knaster_graph/src/block.rs | impl<F: Float> Block for RawContiguousBlock<F> | write
    requires old(self).wf(),
    ensures channel < old(self).channels, frame < old(self).block_size, final(self).buffer.s@ == old(self).buffer.s@.update(place(old(self).block_size as int, channel as int, frame as int), value), final(self).block_size == old(self).block_size, final(self).channels == old(self).channels,
    @sig? /Self::Sample/ => F
    @sub? /assert!\(([^;]*)\);/ => check(\1);
    @sub? /(?m)slice::from_raw_parts_mut\(self\.buffer\.add\((.*)\), (.*)\)$/ => self.buffer.slice_mut(\1, \2)
    @sub? /(?m)slice::from_raw_parts\(self\.buffer\.add\((.*)\), (.*)\)$/ => self.buffer.slice(\1, \2)
    @sub? /\(\*self\.buffer\.add\((.*)\)\) = (.*);/ => self.buffer.store(\1, \2);
    @sub? /\*self\.buffer\.add\((.*)\) \}/ => self.buffer.load(\1) }
    @sub? /unsafe \{/ => {
    @start
        proof { lim(self.channels as int, self.block_size as int, channel as int); }
    @*/
    /*@extract knaster_graph/src/block.rs | impl<F: Float> Block for RawContiguousBlock<F> | channels | ret=r
    ensures r == self.channels,
    @sub? /(?m)slice::from_raw_parts_mut\(self\.buffer\.add\((.*)\), (.*)\)$/ => self.buffer.slice_mut(\1, \2)
    @sub? /(?m)slice::from_raw_parts\(self\.buffer\.add\((.*)\), (.*)\)$/ => self.buffer.slice(\1, \2)
    @sub? /\(\*self\.buffer\.add\((.*)\)\) = (.*);/ => self.buffer.store(\1, \2);
    @sub? /\*self\.buffer\.add\((.*)\) \}/ => self.buffer.load(\1) }
    @sub? /unsafe \{/ => {
    @*/
    /*@extract knaster_graph/src/block.rs | impl<F: Float> Block for RawContiguousBlock<F> | block_size | ret=r
    ensures r == self.block_size,
    @sub? /(?m)slice::from_raw_parts_mut\(self\.buffer\.add\((.*)\), (.*)\)$/ => self.buffer.slice_mut(\1, \2)
    @sub? /(?m)slice::from_raw_parts\(self\.buffer\.add\((.*)\), (.*)\)$/ => self.buffer.slice(\1, \2)
    @sub? /\(\*self\.buffer\.add\((.*)\)\) = (.*);/ => self.buffer.store(\1, \2);
    @sub? /\*self\.buffer\.add\((.*)\) \}/ => self.buffer.load(\1) }
    @sub? /unsafe \{/ => {
    @*/
}
struct RawAggregateBlock { buffers: Vec<Mem>, block_size: usize }
impl RawAggregateBlock {
    /// what `new` asks of the caller; each pointer points to memory of its own
    spec fn wf(self) -> bool { forall|c: int| 0 <= c < self.buffers@.len() ==> (#[trigger] self.buffers@[c]).s@.len() >= self.block_size }
    /*@extract knaster_graph/src/block.rs | impl<F: Float> Block for RawAggregateBlock<'_, F> | channel_as_slice | ret=r
    requires self.wf(), channel < self.buffers@.len(),
    ensures r@ == self.buffers@[channel as int].s@.take(self.block_size as int),
    @sig? /Self::Sample/ => F
    @sub? /assert!\(([^;]*)\);/ => check(\1);
    @sub? /(?:crate::core::)?slice::from_raw_parts_mut\(self\.buffers\[(.*)\], (.*)\)/ => self.buffers[\1].slice_mut(0, \2)
    @sub? /(?:crate::core::)?slice::from_raw_parts\(self\.buffers\[(.*)\], (.*)\)/ => self.buffers[\1].slice(0, \2)
    @sub? /\(\*self\.buffers\[(.*?)\]\.add\((.*)\)\) = (.*);/ => self.buffers[\1].store(\2, \3);
    @sub? /\*self\.buffers\[(.*?)\]\.add\((.*)\) \}/ => self.buffers[\1].load(\2) }
    @sub? /unsafe \{/ => {
    @*/
    /*@extract knaster_graph/src/block.rs | impl<F: Float> Block for RawAggregateBlock<'_, F> | read | ret=r
    requires self.wf(),
    ensures channel < self.buffers@.len(), frame < self.block_size, r == self.buffers@[channel as int].s@[frame as int],
    @sig? /Self::Sample/ => F
    @sub? /assert!\(([^;]*)\);/ => check(\1);
    @sub? /(?:crate::core::)?slice::from_raw_parts_mut\(self\.buffers\[(.*)\], (.*)\)/ => self.buffers[\1].slice_mut(0, \2)
    @sub? /(?:crate::core::)?slice::from_raw_parts\(self\.buffers\[(.*)\], (.*)\)/ => self.buffers[\1].slice(0, \2)
    @sub? /\(\*self\.buffers\[(.*?)\]\.add\((.*)\)\) = (.*);/ => self.buffers[\1].store(\2, \3);
    @sub? /\*self\.buffers\[(.*?)\]\.add\((.*)\) \}/ => self.buffers[\1].load(\2) }
    @sub? /unsafe \{/ => {
    @*/
    /*@extract knaster_graph/src/block.rs | impl<F: Float> Block for RawAggregateBlock<'_, F> | channel_as_slice_mut | ret=r
    requires old(self).wf(), channel < old(self).buffers@.len(),
    ensures (*r)@ == old(self).buffers@[channel as int].s@.take(old(self).block_size as int), final(self).buffers@ == old(self).buffers@.update(channel as int, final(self).buffers@[channel as int]), final(self).buffers@[channel as int].s@ == spliced(old(self).buffers@[channel as int].s@, 0, (*final(r))@), final(self).block_size == old(self).block_size,
    @sig? /Self::Sample/ => F
    @sub? /assert!\(([^;]*)\);/ => check(\1);
    @sub? /(?:crate::core::)?slice::from_raw_parts_mut\(self\.buffers\[(.*)\], (.*)\)/ => self.buffers[\1].slice_mut(0, \2)
    @sub? /(?:crate::core::)?slice::from_raw_parts\(self\.buffers\[(.*)\], (.*)\)/ => self.buffers[\1].slice(0, \2)
    @sub? /\(\*self\.buffers\[(.*?)\]\.add\((.*)\)\) = (.*);/ => self.buffers[\1].store(\2, \3);
    @sub? /\*self\.buffers\[(.*?)\]\.add\((.*)\) \}/ => self.buffers[\1].load(\2) }
    @sub? /unsafe \{/ => {
    @*/
    /*@extract knaster_graph/src/block.rs | impl<F: Float> Block for RawAggregateBlock<'_, F> | write
    requires old(self).wf(),
    ensures channel < old(self).buffers@.len(), frame < old(self).block_size, final(self).buffers@ == old(self).buffers@.update(channel as int, final(self).buffers@[channel as int]), final(self).buffers@[channel as int].s@ == old(self).buffers@[channel as int].s@.update(frame as int, value), final(self).block_size == old(self).block_size,
    @sig? /Self::Sample/ => F
    @sub? /assert!\(([^;]*)\);/ => check(\1);
    @sub? /(?:crate::core::)?slice::from_raw_parts_mut\(self\.buffers\[(.*)\], (.*)\)/ => self.buffers[\1].slice_mut(0, \2)
    @sub? /(?:crate::core::)?slice::from_raw_parts\(self\.buffers\[(.*)\], (.*)\)/ => self.buffers[\1].slice(0, \2)
    @sub? /\(\*self\.buffers\[(.*?)\]\.add\((.*)\)\) = (.*);/ => self.buffers[\1].store(\2, \3);
    @sub? /\*self\.buffers\[(.*?)\]\.add\((.*)\) \}/ => self.buffers[\1].load(\2) }
    @sub? /unsafe \{/ => {
    @*/
    /*@extract knaster_graph/src/block.rs | impl<F: Float> Block for RawAggregateBlock<'_, F> | channels | ret=r
    ensures r == self.buffers@.len(),
    @sub? /(?:crate::core::)?slice::from_raw_parts_mut\(self\.buffers\[(.*)\], (.*)\)/ => self.buffers[\1].slice_mut(0, \2)
    @sub? /(?:crate::core::)?slice::from_raw_parts\(self\.buffers\[(.*)\], (.*)\)/ => self.buffers[\1].slice(0, \2)
    @sub? /\(\*self\.buffers\[(.*?)\]\.add\((.*)\)\) = (.*);/ => self.buffers[\1].store(\2, \3);
    @sub? /\*self\.buffers\[(.*?)\]\.add\((.*)\) \}/ => self.buffers[\1].load(\2) }
    @sub? /unsafe \{/ => {
    @*/
    /*@extract knaster_graph/src/block.rs | impl<F: Float> Block for RawAggregateBlock<'_, F> | block_size | ret=r
    ensures r == self.block_size,
    @sub? /(?:crate::core::)?slice::from_raw_parts_mut\(self\.buffers\[(.*)\], (.*)\)/ => self.buffers[\1].slice_mut(0, \2)
    @sub? /(?:crate::core::)?slice::from_raw_parts\(self\.buffers\[(.*)\], (.*)\)/ => self.buffers[\1].slice(0, \2)
    @sub? /\(\*self\.buffers\[(.*?)\]\.add\((.*)\)\) = (.*);/ => self.buffers[\1].store(\2, \3);
    @sub? /\*self\.buffers\[(.*?)\]\.add\((.*)\) \}/ => self.buffers[\1].load(\2) }
    @sub? /unsafe \{/ => {
    @*/
}
struct RawAggregateBlockRead { buffers: Vec<Mem>, block_size: usize }
impl RawAggregateBlockRead {
    /// what `new` asks of the caller; each pointer points to memory of its own
    spec fn wf(self) -> bool { forall|c: int| 0 <= c < self.buffers@.len() ==> (#[trigger] self.buffers@[c]).s@.len() >= self.block_size }
    /*@extract knaster_graph/src/block.rs | impl<F: Float> BlockRead for RawAggregateBlockRead<'_, F> | channel_as_slice | ret=r
    requires self.wf(), channel < self.buffers@.len(),
    ensures r@ == self.buffers@[channel as int].s@.take(self.block_size as int),
    @sig? /Self::Sample/ => F
    @sub? /assert!\(([^;]*)\);/ => check(\1);
    @sub? /(?:crate::core::)?slice::from_raw_parts_mut\(self\.buffers\[(.*)\], (.*)\)/ => self.buffers[\1].slice_mut(0, \2)
    @sub? /(?:crate::core::)?slice::from_raw_parts\(self\.buffers\[(.*)\], (.*)\)/ => self.buffers[\1].slice(0, \2)
    @sub? /\(\*self\.buffers\[(.*?)\]\.add\((.*)\)\) = (.*);/ => self.buffers[\1].store(\2, \3);
    @sub? /\*self\.buffers\[(.*?)\]\.add\((.*)\) \}/ => self.buffers[\1].load(\2) }
    @sub? /unsafe \{/ => {
    @*/
    /*@extract knaster_graph/src/block.rs | impl<F: Float> BlockRead for RawAggregateBlockRead<'_, F> | read | ret=r
    requires self.wf(),
    ensures channel < self.buffers@.len(), frame < self.block_size, r == self.buffers@[channel as int].s@[frame as int],
    @sig? /Self::Sample/ => F
    @sub? /assert!\(([^;]*)\);/ => check(\1);
    @sub? /(?:crate::core::)?slice::from_raw_parts_mut\(self\.buffers\[(.*)\], (.*)\)/ => self.buffers[\1].slice_mut(0, \2)
    @sub? /(?:crate::core::)?slice::from_raw_parts\(self\.buffers\[(.*)\], (.*)\)/ => self.buffers[\1].slice(0, \2)
    @sub? /\(\*self\.buffers\[(.*?)\]\.add\((.*)\)\) = (.*);/ => self.buffers[\1].store(\2, \3);
    @sub? /\*self\.buffers\[(.*?)\]\.add\((.*)\) \}/ => self.buffers[\1].load(\2) }
    @sub? /unsafe \{/ => {
    @*/
    /*@extract knaster_graph/src/block.rs | impl<F: Float> BlockRead for RawAggregateBlockRead<'_, F> | channels | ret=r
    ensures r == self.buffers@.len(),
    @sub? /(?:crate::core::)?slice::from_raw_parts_mut\(self\.buffers\[(.*)\], (.*)\)/ => self.buffers[\1].slice_mut(0, \2)
    @sub? /(?:crate::core::)?slice::from_raw_parts\(self\.buffers\[(.*)\], (.*)\)/ => self.buffers[\1].slice(0, \2)
    @sub? /\(\*self\.buffers\[(.*?)\]\.add\((.*)\)\) = (.*);/ => self.buffers[\1].store(\2, \3);
    @sub? /\*self\.buffers\[(.*?)\]\.add\((.*)\) \}/ => self.buffers[\1].load(\2) }
    @sub? /unsafe \{/ => {
    @*/
    /*@extract knaster_graph/src/block.rs | impl<F: Float> BlockRead for RawAggregateBlockRead<'_, F> | block_size | ret=r
    ensures r == self.block_size,
    @sub? /(?:crate::core::)?slice::from_raw_parts_mut\(self\.buffers\[(.*)\], (.*)\)/ => self.buffers[\1].slice_mut(0, \2)
    @sub? /(?:crate::core::)?slice::from_raw_parts\(self\.buffers\[(.*)\], (.*)\)/ => self.buffers[\1].slice(0, \2)
    @sub? /\(\*self\.buffers\[(.*?)\]\.add\((.*)\)\) = (.*);/ => self.buffers[\1].store(\2, \3);
    @sub? /\*self\.buffers\[(.*?)\]\.add\((.*)\) \}/ => self.buffers[\1].load(\2) }
    @sub? /unsafe \{/ => {
    @*/
}
/// Any block: its channels, each as long as its block size. What is proved of views of it holds for views of views, as a view is a block.
struct Inner { s: Ghost<Seq<Seq<F>>>, n: Ghost<int> }
impl Inner {
    spec fn wf(self) -> bool { forall|c: int| 0 <= c < self.s@.len() ==> (#[trigger] self.s@[c]).len() == self.n@ }
    #[verifier::external_body]
    fn channel_as_slice(&self, c: usize) -> (r: &[F]) requires self.wf(), c < self.s@.len() ensures r@ == self.s@[c as int] { unimplemented!() }
    #[verifier::external_body]
    fn channel_as_slice_mut(&mut self, c: usize) -> (r: &mut [F]) requires old(self).wf(), c < old(self).s@.len() ensures (*r)@ == old(self).s@[c as int], final(self).s@ == old(self).s@.update(c as int, (*final(r))@), final(self).n == old(self).n { unimplemented!() }
    #[verifier::external_body]
    fn read(&self, c: usize, f: usize) -> (r: F) requires self.wf(), c < self.s@.len(), f < self.n@ ensures r == self.s@[c as int][f as int] { unimplemented!() }
    #[verifier::external_body]
    fn write(&mut self, v: F, c: usize, f: usize) requires old(self).wf(), c < old(self).s@.len(), f < old(self).n@ ensures final(self).s@ == old(self).s@.update(c as int, old(self).s@[c as int].update(f as int, v)), final(self).n == old(self).n { unimplemented!() }
    #[verifier::external_body]
    fn channels(&self) -> (r: usize) ensures r == self.s@.len() { unimplemented!() }
}
/// the frames which a view shows of a block
spec fn shown(s: Seq<Seq<F>>, from: int, n: int) -> Seq<Seq<F>> { Seq::new(s.len(), |c: int| s[c].subrange(from, from + n)) }
struct PartialBlock { block: Inner, start_offset: usize, length: usize }
impl PartialBlock {
    spec fn wf(self) -> bool { self.block.wf() && self.start_offset + self.length <= self.block.n@ && self.block.n@ <= usize::MAX }
    /// what the view is, as a block
    spec fn is(self) -> Seq<Seq<F>> { shown(self.block.s@, self.start_offset as int, self.length as int) }
    /*@extract knaster_primitives/src/block.rs | impl<'a, F: Float, T: 'a + BlockRead<Sample = F> + ?Sized> BlockRead for PartialBlock<'a, F, T> | channel_as_slice | ret=r
    requires self.wf(), channel < self.is().len(),
    ensures r@ == self.is()[channel as int], r@.len() == self.length,
    @sig? /Self::Sample/ => F
    @sub? /assert!\(([^;]*)\);/ => check(\1);
    @sub? /&(self\.block\.channel_as_slice\(channel\))\s*\[(.*)\.\.(.*)\]/ => part(\1, \2, \3)
    @sub? /&mut (self\.block\.channel_as_slice_mut\(channel\))\s*\[(.*)\.\.(.*)\]/ => part_mut(\1, \2, \3)
    @*/
    /*@extract knaster_primitives/src/block.rs | impl<'a, F: Float, T: 'a + BlockRead<Sample = F> + ?Sized> BlockRead for PartialBlock<'a, F, T> | read | ret=r
    requires self.wf(), channel < self.is().len(), frame < self.length,
    ensures r == self.is()[channel as int][frame as int],
    @sig? /Self::Sample/ => F
    @sub? /assert!\(([^;]*)\);/ => check(\1);
    @sub? /&(self\.block\.channel_as_slice\(channel\))\s*\[(.*)\.\.(.*)\]/ => part(\1, \2, \3)
    @sub? /&mut (self\.block\.channel_as_slice_mut\(channel\))\s*\[(.*)\.\.(.*)\]/ => part_mut(\1, \2, \3)
    @*/
    /*@extract knaster_primitives/src/block.rs | impl<'a, F: Float, T: 'a + BlockRead<Sample = F> + ?Sized> BlockRead for PartialBlock<'a, F, T> | channels | ret=r
    ensures r == self.is().len(),
    @sub? /&(self\.block\.channel_as_slice\(channel\))\s*\[(.*)\.\.(.*)\]/ => part(\1, \2, \3)
    @sub? /&mut (self\.block\.channel_as_slice_mut\(channel\))\s*\[(.*)\.\.(.*)\]/ => part_mut(\1, \2, \3)
    @*/
    /*@extract knaster_primitives/src/block.rs | impl<'a, F: Float, T: 'a + BlockRead<Sample = F> + ?Sized> BlockRead for PartialBlock<'a, F, T> | block_size | ret=r
    ensures r == self.length,
    @sub? /&(self\.block\.channel_as_slice\(channel\))\s*\[(.*)\.\.(.*)\]/ => part(\1, \2, \3)
    @sub? /&mut (self\.block\.channel_as_slice_mut\(channel\))\s*\[(.*)\.\.(.*)\]/ => part_mut(\1, \2, \3)
    @*/
}
struct PartialBlockMut { block: Inner, start_offset: usize, length: usize }
impl PartialBlockMut {
    spec fn wf(self) -> bool { self.block.wf() && self.start_offset + self.length <= self.block.n@ && self.block.n@ <= usize::MAX }
    /// what the view is, as a block
    spec fn is(self) -> Seq<Seq<F>> { shown(self.block.s@, self.start_offset as int, self.length as int) }
    /*@extract knaster_primitives/src/block.rs | impl<T: Block + ?Sized> Block for PartialBlockMut<'_, T> | channel_as_slice | ret=r
    requires self.wf(), channel < self.is().len(),
    ensures r@ == self.is()[channel as int], r@.len() == self.length,
    @sig? /Self::Sample/ => F
    @sub? /assert!\(([^;]*)\);/ => check(\1);
    @sub? /&(self\.block\.channel_as_slice\(channel\))\s*\[(.*)\.\.(.*)\]/ => part(\1, \2, \3)
    @sub? /&mut (self\.block\.channel_as_slice_mut\(channel\))\s*\[(.*)\.\.(.*)\]/ => part_mut(\1, \2, \3)
    @*/
    /*@extract knaster_primitives/src/block.rs | impl<T: Block + ?Sized> Block for PartialBlockMut<'_, T> | read | ret=r
    requires self.wf(), channel < self.is().len(), frame < self.length,
    ensures r == self.is()[channel as int][frame as int],
    @sig? /Self::Sample/ => F
    @sub? /assert!\(([^;]*)\);/ => check(\1);
    @sub? /&(self\.block\.channel_as_slice\(channel\))\s*\[(.*)\.\.(.*)\]/ => part(\1, \2, \3)
    @sub? /&mut (self\.block\.channel_as_slice_mut\(channel\))\s*\[(.*)\.\.(.*)\]/ => part_mut(\1, \2, \3)
    @*/
    /*@extract knaster_primitives/src/block.rs | impl<T: Block + ?Sized> Block for PartialBlockMut<'_, T> | channel_as_slice_mut | ret=r
    requires old(self).wf(), channel < old(self).is().len(),
    ensures (*r)@ == old(self).is()[channel as int], final(self).block.s@ == old(self).block.s@.update(channel as int, spliced(old(self).block.s@[channel as int], old(self).start_offset as int, (*final(r))@)), final(self).start_offset == old(self).start_offset, final(self).length == old(self).length,
    @sig? /Self::Sample/ => F
    @sub? /assert!\(([^;]*)\);/ => check(\1);
    @sub? /&(self\.block\.channel_as_slice\(channel\))\s*\[(.*)\.\.(.*)\]/ => part(\1, \2, \3)
    @sub? /&mut (self\.block\.channel_as_slice_mut\(channel\))\s*\[(.*)\.\.(.*)\]/ => part_mut(\1, \2, \3)
    @*/
    /*@extract knaster_primitives/src/block.rs | impl<T: Block + ?Sized> Block for PartialBlockMut<'_, T> | write
    requires old(self).wf(), channel < old(self).is().len(), frame < old(self).length,
    ensures final(self).block.s@ == old(self).block.s@.update(channel as int, old(self).block.s@[channel as int].update(old(self).start_offset + frame, value)), final(self).is() =~~= old(self).is().update(channel as int, old(self).is()[channel as int].update(frame as int, value)), final(self).start_offset == old(self).start_offset, final(self).length == old(self).length,
    @sig? /Self::Sample/ => F
    @sub? /assert!\(([^;]*)\);/ => check(\1);
    @sub? /&(self\.block\.channel_as_slice\(channel\))\s*\[(.*)\.\.(.*)\]/ => part(\1, \2, \3)
    @sub? /&mut (self\.block\.channel_as_slice_mut\(channel\))\s*\[(.*)\.\.(.*)\]/ => part_mut(\1, \2, \3)
    @*/
    /*@extract knaster_primitives/src/block.rs | impl<T: Block + ?Sized> Block for PartialBlockMut<'_, T> | channels | ret=r
    ensures r == self.is().len(),
    @sub? /&(self\.block\.channel_as_slice\(channel\))\s*\[(.*)\.\.(.*)\]/ => part(\1, \2, \3)
    @sub? /&mut (self\.block\.channel_as_slice_mut\(channel\))\s*\[(.*)\.\.(.*)\]/ => part_mut(\1, \2, \3)
    @*/
    /*@extract knaster_primitives/src/block.rs | impl<T: Block + ?Sized> Block for PartialBlockMut<'_, T> | block_size | ret=r
    ensures r == self.length,
    @sub? /&(self\.block\.channel_as_slice\(channel\))\s*\[(.*)\.\.(.*)\]/ => part(\1, \2, \3)
    @sub? /&mut (self\.block\.channel_as_slice_mut\(channel\))\s*\[(.*)\.\.(.*)\]/ => part_mut(\1, \2, \3)
    @*/
}
/*@struct knaster_core/src/ugen.rs | BlockMetadata @*/
impl BlockMetadata {
    /*@extract knaster_core/src/ugen.rs | impl BlockMetadata | new | ret=r
    ensures r.frames_to_process == block_size, r.block_start_offset == 0, r.frame_clock == 0,
    @*/
    /*@extract knaster_core/src/ugen.rs | impl BlockMetadata | make_partial | ret=r
    requires self.block_start_offset + start_offset <= usize::MAX, self.frame_clock + start_offset <= u64::MAX,
    ensures r.frames_to_process == length, r.block_start_offset == self.block_start_offset + start_offset, r.frame_clock == self.frame_clock + start_offset,
    @*/
    /*@extract knaster_core/src/ugen.rs | impl BlockMetadata | set_frame_clock
    ensures final(self).frame_clock == new_frame_time, final(self).frames_to_process == old(self).frames_to_process, final(self).block_start_offset == old(self).block_start_offset,
    @*/
    /*@extract knaster_core/src/ugen.rs | impl BlockMetadata | frame_clock | ret=r
    ensures r == self.frame_clock,
    @*/
    /*@extract knaster_core/src/ugen.rs | impl BlockMetadata | frames_to_process | ret=r
    ensures r == self.frames_to_process,
    @*/
    /*@extract knaster_core/src/ugen.rs | impl BlockMetadata | block_start_offset | ret=r
    ensures r == self.block_start_offset,
    @*/
}
}
fn main() {}
