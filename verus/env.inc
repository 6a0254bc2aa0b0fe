// ---- stand-ins for the surroundings of a wrapper; each contract is one proved elsewhere (C11: views, C12: contexts)
#[derive(Copy, Clone)]
struct BlockMetadata { start: usize, len: usize }
impl BlockMetadata {
    #[verifier::external_body]
    fn make_partial(&self, start_offset: usize, len: usize) -> (r: BlockMetadata)
        requires start_offset + len <= self.len,
        ensures r.start == self.start + start_offset, r.len == len,
    { unimplemented!() }
}
struct AudioCtx { block: BlockMetadata }
impl AudioCtx {
    fn frames_to_process(&self) -> (r: usize) ensures r == self.block.len { self.block.len }
    fn block_start_offset(&self) -> (r: usize) ensures r == self.block.start { self.block.start }
}
/// A view of frames start..start+len of a block.
struct Frames { start: int, len: int }
struct PartialBlock { v: Ghost<Frames> }
impl PartialBlock {
    #[verifier::external_body]
    fn from_block(b: &PartialBlock, start: usize, len: usize) -> (r: PartialBlock)
        requires start + len <= b.v@.len,
        ensures r.v@.start == b.v@.start + start, r.v@.len == len,
    { unimplemented!() }
    #[verifier::external_body]
    fn partial_mut(&mut self, start: usize, len: usize) -> (r: PartialBlock)
        requires start + len <= old(self).v@.len,
        ensures r.v@.start == old(self).v@.start + start, r.v@.len == len, *final(self) == *old(self),
    { unimplemented!() }
}
struct UGenFlags;
fn min_usize(a: usize, b: usize) -> (r: usize) ensures r == (if a < b { a } else { b }) { if a < b { a } else { b } }
