use vstd::prelude::*;
verus! {
/*@include gr.inc @*/
global size_of usize == 8;
// ------------------------------------------------------------------ memory
/// `*mut F`/`*const F`: an allocation and an offset in it, or null
#[verifier::external_body]
#[derive(Copy, Clone)]
pub struct Ptr { x: usize }
pub uninterp spec fn null(p: Ptr) -> bool;
pub uninterp spec fn of(p: Ptr) -> int;
pub uninterp spec fn at(p: Ptr) -> int;
/// number of samples of an allocation
pub uninterp spec fn room(a: int) -> int;
impl Ptr {
    #[verifier::external_body]
    fn null() -> (r: Ptr) ensures null(r) { unimplemented!() }
    #[verifier::external_body]
    fn is_null(&self) -> (r: bool) ensures r == null(*self) { unimplemented!() }
    /// the unsafe `ptr.add(n)`: only inside of the allocation
    #[verifier::external_body]
    fn add(self, n: usize) -> (r: Ptr) requires !null(self), at(self) + n < room(of(self)) ensures !null(r), of(r) == of(self), at(r) == at(self) + n { unimplemented!() }
    fn cast_const(self) -> (r: Ptr) ensures r == self { self }
}
/// `Arc<OwnedRawBuffer<F>>`
#[verifier::external_body]
pub struct Memory { x: usize }
pub uninterp spec fn alloc(m: Memory) -> int;
impl Memory {
    spec fn size(self) -> int { room(alloc(self)) }
    #[verifier::external_body]
    fn new(n: usize) -> (r: Memory) ensures r.size() == n { unimplemented!() }
    #[verifier::external_body]
    fn len(&self) -> (r: usize) ensures r == self.size() { unimplemented!() }
    /// OwnedRawBuffer::add
    #[verifier::external_body]
    fn add(&self, n: usize) -> (r: Option<Ptr>)
        ensures n < self.size() ==> r.is_some() && !null(r.unwrap()) && of(r.unwrap()) == alloc(*self) && at(r.unwrap()) == n, n >= self.size() ==> r.is_none()
    { unimplemented!() }
}
/// core::mem::replace
#[verifier::external_body]
fn replaced(m: &mut Memory, x: Memory) -> (r: Memory) ensures r == *old(m), *final(m) == x { unimplemented!() }

// ------------------------------------------------------------------ BufferAllocator
/*@struct knaster_graph/src/buffer_allocator.rs | AllocatedBlock @*/
/*@struct knaster_graph/src/buffer_allocator.rs | BufferAllocator | /<F: Float>/ => | /Arc<OwnedRawBuffer<F>>/ => Memory @*/
spec fn mul(a: int, b: int) -> int { a * b }
spec fn end(b: AllocatedBlock) -> int { b.start_offset + b.len }
impl BufferAllocator {
    spec fn b(self, i: int) -> AllocatedBlock { self.allocated_blocks@[i] }
    spec fn n(self) -> int { self.allocated_blocks@.len() as int }
    spec fn wf(self) -> bool {
        // blocks lie one after the other, none is empty
        &&& forall|i: int| 0 <= i < self.n() ==> (#[trigger] self.b(i)).len > 0 && end(self.b(i)) <= self.next_free_pos
        &&& forall|i: int, j: int| 0 <= i < j < self.n() ==> end(#[trigger] self.b(i)) <= (#[trigger] self.b(j)).start_offset
        &&& self.next_free_pos <= self.virtual_allocation_size
        // what can be given out again is not borrowed, and listed once
        &&& forall|k: int| 0 <= k < self.return_order@.len() ==> (#[trigger] self.return_order@[k]) < self.n() && self.b(self.return_order@[k] as int).outstanding_borrows == 0
        &&& self.return_order@.no_duplicates()
    }
    /// the blocks of `old` are all there, at the same places
    spec fn extends(self, old: Self) -> bool {
        &&& self.n() >= old.n() && self.buffer == old.buffer && self.virtual_allocation_size >= old.virtual_allocation_size
        &&& forall|i: int| 0 <= i < old.n() ==> (#[trigger] self.b(i)).start_offset == old.b(i).start_offset && self.b(i).len == old.b(i).len
    }
    proof fn distinct(self, i: int, j: int)
        requires self.wf(), 0 <= i < self.n(), 0 <= j < self.n(), i != j
        ensures self.b(i).start_offset != self.b(j).start_offset, end(self.b(i)) <= self.b(j).start_offset || end(self.b(j)) <= self.b(i).start_offset
    {
        let a = self.b(i); let b = self.b(j);
        if i < j { assert(end(self.b(i)) <= self.b(j).start_offset); } else { assert(end(self.b(j)) <= self.b(i).start_offset); }
        assert(a.len > 0 && b.len > 0);
    }
    /*@extract knaster_graph/src/buffer_allocator.rs | impl<F: Float> BufferAllocator<F> | assign_new_block | ret=r
    requires old(self).wf(), num_channels * block_size > 0, old(self).next_free_pos + num_channels * block_size <= usize::MAX,
    ensures
        final(self).wf(), final(self).extends(*old(self)), final(self).n() == old(self).n() + 1,
        forall|i: int| 0 <= i < old(self).n() ==> (#[trigger] final(self).b(i)) == old(self).b(i),
        final(self).b(old(self).n()) == (AllocatedBlock { start_offset: r, len: (num_channels * block_size) as usize, outstanding_borrows: num_borrows }),
        final(self).return_order == old(self).return_order,
        final(self).next_free_pos == old(self).next_free_pos + num_channels * block_size,
    @post /start_offset\s*\}\s*$/ => proof { self.added(*old(self)); } start_offset }
    @*/
    proof fn added(self, old: Self)
        requires
            old.wf(), self.return_order@ == old.return_order@, self.n() == old.n() + 1, self.buffer == old.buffer,
            forall|i: int| 0 <= i < old.n() ==> (#[trigger] self.b(i)) == old.b(i),
            self.b(old.n()).start_offset == old.next_free_pos, self.b(old.n()).len > 0, end(self.b(old.n())) == self.next_free_pos, self.next_free_pos <= self.virtual_allocation_size, old.virtual_allocation_size <= self.virtual_allocation_size,
        ensures self.wf(), self.extends(old)
    {
        assert forall|i: int| 0 <= i < self.n() implies (#[trigger] self.b(i)).len > 0 && end(self.b(i)) <= self.next_free_pos by { if i < old.n() { assert(end(old.b(i)) <= old.next_free_pos); } }
        assert forall|i: int, j: int| 0 <= i < j < self.n() implies end(#[trigger] self.b(i)) <= (#[trigger] self.b(j)).start_offset by { if j < old.n() { assert(end(old.b(i)) <= old.b(j).start_offset); } else { assert(end(old.b(i)) <= old.next_free_pos); } }
        assert forall|k: int| 0 <= k < self.return_order@.len() implies (#[trigger] self.return_order@[k]) < self.n() && self.b(self.return_order@[k] as int).outstanding_borrows == 0 by { assert(old.return_order@[k] < old.n()); }
    }
    /*@extract knaster_graph/src/buffer_allocator.rs | impl<F: Float> BufferAllocator<F> | return_block
    requires old(self).wf(), exists|i: int| 0 <= i < old(self).n() && (#[trigger] old(self).b(i)).start_offset == start_offset && old(self).b(i).outstanding_borrows > 0,
    ensures
        final(self).wf(), final(self).extends(*old(self)), final(self).n() == old(self).n(), final(self).next_free_pos == old(self).next_free_pos,
        forall|i: int| 0 <= i < old(self).n() ==> (#[trigger] final(self).b(i)).outstanding_borrows == old(self).b(i).outstanding_borrows - (if old(self).b(i).start_offset == start_offset { 1int } else { 0 }),
    @start
        let ghost w = choose|i: int| 0 <= i < old(self).n() && (#[trigger] old(self).b(i)).start_offset == start_offset && old(self).b(i).outstanding_borrows > 0;
        proof { assert(forall|i: int| 0 <= i < self.n() && i != w ==> (#[trigger] self.b(i)).start_offset != start_offset) by { assert forall|i: int| 0 <= i < self.n() && i != w implies (#[trigger] self.b(i)).start_offset != start_offset by { self.distinct(i, w); } } }
        let ghost mut done = false;
    @unfold 0 bi
    @loop 0
        invariant_except_break
            bi <= w, self.allocated_blocks@ =~= old(self).allocated_blocks@, self.return_order@ =~= old(self).return_order@, self.next_free_pos == old(self).next_free_pos,
            self.virtual_allocation_size == old(self).virtual_allocation_size, self.buffer == old(self).buffer,
        invariant
            bi_it.iter.end == old(self).n(), bi_it.snapshot.end == old(self).n(), old(self).wf(),
            0 <= w < old(self).n(), old(self).b(w).start_offset == start_offset, old(self).b(w).outstanding_borrows > 0,
            forall|i: int| 0 <= i < old(self).n() && i != w ==> (#[trigger] old(self).b(i)).start_offset != start_offset,
        ensures
            self.wf(), self.extends(*old(self)), self.n() == old(self).n(), self.next_free_pos == old(self).next_free_pos,
            forall|i: int| 0 <= i < old(self).n() ==> (#[trigger] self.b(i)).outstanding_borrows == old(self).b(i).outstanding_borrows - (if i == w { 1int } else { 0 }),
    @loopstart 0
        assert(self.allocated_blocks@[bi as int] == old(self).b(bi as int));
    @post? /break;/ => proof { self.returned(*old(self), bi); } break;
    @*/
    proof fn returned(self, old: Self, w: usize)
        requires
            old.wf(), 0 <= w < old.n(), old.b(w as int).outstanding_borrows > 0,
            self.allocated_blocks@ =~= old.allocated_blocks@.update(w as int, AllocatedBlock { outstanding_borrows: (old.b(w as int).outstanding_borrows - 1) as usize, ..old.b(w as int) }),
            self.return_order@ =~= (if old.b(w as int).outstanding_borrows == 1 { old.return_order@.push(w) } else { old.return_order@ }),
            self.next_free_pos == old.next_free_pos, self.virtual_allocation_size == old.virtual_allocation_size, self.buffer == old.buffer,
        ensures self.wf(), self.extends(old), self.n() == old.n(), forall|i: int| 0 <= i < old.n() ==> (#[trigger] self.b(i)).outstanding_borrows == old.b(i).outstanding_borrows - (if i == w { 1int } else { 0 })
    {
        assert forall|i: int| 0 <= i < self.n() implies (#[trigger] self.b(i)).len > 0 && end(self.b(i)) <= self.next_free_pos by { assert(old.b(i).len > 0); }
        assert forall|i: int, j: int| 0 <= i < j < self.n() implies end(#[trigger] self.b(i)) <= (#[trigger] self.b(j)).start_offset by { assert(end(old.b(i)) <= old.b(j).start_offset); }
        assert forall|k: int| 0 <= k < self.return_order@.len() implies (#[trigger] self.return_order@[k]) < self.n() && self.b(self.return_order@[k] as int).outstanding_borrows == 0 by {
            if k < old.return_order@.len() { assert(old.return_order@[k] < old.n()); }
        }
        assert(self.return_order@.no_duplicates()) by {
            assert forall|i: int, j: int| 0 <= i < j < self.return_order@.len() implies self.return_order@[i] != self.return_order@[j] by {
                assert(old.b(old.return_order@[i] as int).outstanding_borrows == 0);
            }
        }
    }
    /*@extract knaster_graph/src/buffer_allocator.rs | impl<F: Float> BufferAllocator<F> | get_block | ret=r
    requires old(self).wf(), old(self).next_free_pos + num_channels * block_size <= usize::MAX,
    ensures
        final(self).wf(), final(self).extends(*old(self)), final(self).next_free_pos <= old(self).next_free_pos + num_channels * block_size,
        num_channels * block_size == 0 ==> *final(self) == *old(self) && r == 0,
        // a block which nobody borrows, large enough; nothing else changes
        num_channels * block_size > 0 ==> exists|g: int| #[trigger] final(self).got(*old(self), g, r, (num_channels * block_size) as int, num_borrows),
    @sub? /for i in 0\.\.self\.return_order\.len\(\)/ => for i in gi_it: 0..self.return_order.len()
    @sub? /return self\.allocated_blocks\[index\]\.start_offset;/ => proof { self.reused(*old(self), i as int, num_borrows, len as int); } return self.allocated_blocks[index].start_offset;
    @sub? /\}\s*self\.assign_new_block\(num_channels, block_size, num_borrows\)/ => } let r = self.assign_new_block(num_channels, block_size, num_borrows); proof { assert(self.got(*old(self), old(self).n(), r, len as int, num_borrows)); } r
    @loop 0
        invariant
            *self == *old(self), gi_it.iter.end == old(self).return_order@.len(), gi_it.snapshot.end == old(self).return_order@.len(),
            old(self).wf(), len == num_channels * block_size, len > 0, old(self).next_free_pos + num_channels * block_size <= usize::MAX,
    @*/
    proof fn reused(self, old: Self, k: int, borrows: usize, len: int)
        requires
            old.wf(), 0 <= k < old.return_order@.len(), self.return_order@ == old.return_order@.remove(k), old.b(old.return_order@[k] as int).len >= len,
            self.allocated_blocks@ == old.allocated_blocks@.update(old.return_order@[k] as int, AllocatedBlock { outstanding_borrows: borrows, ..old.b(old.return_order@[k] as int) }),
            self.next_free_pos == old.next_free_pos, self.virtual_allocation_size == old.virtual_allocation_size, self.buffer == old.buffer,
        ensures self.wf(), self.extends(old), self.got(old, old.return_order@[k] as int, old.b(old.return_order@[k] as int).start_offset, len, borrows)
    {
        let x = old.return_order@[k] as int;
        assert forall|i: int| 0 <= i < self.n() implies (#[trigger] self.b(i)).len > 0 && end(self.b(i)) <= self.next_free_pos by { assert(old.b(i).len > 0); }
        assert forall|i: int, j: int| 0 <= i < j < self.n() implies end(#[trigger] self.b(i)) <= (#[trigger] self.b(j)).start_offset by { assert(end(old.b(i)) <= old.b(j).start_offset); }
        assert forall|i: int| 0 <= i < self.return_order@.len() implies (#[trigger] self.return_order@[i]) < self.n() && self.b(self.return_order@[i] as int).outstanding_borrows == 0 by {
            let j = if i < k { i } else { i + 1 };
            assert(self.return_order@[i] == old.return_order@[j]); assert(old.return_order@[j] != old.return_order@[k]);
        }
        assert(self.return_order@.no_duplicates()) by {
            assert forall|i: int, j: int| 0 <= i < j < self.return_order@.len() implies self.return_order@[i] != self.return_order@[j] by {
                assert(old.return_order@[if i < k { i } else { i + 1 }] != old.return_order@[if j < k { j } else { j + 1 }]);
            }
        }
    }
    spec fn got(self, old: Self, g: int, start: usize, len: int, borrows: usize) -> bool {
        &&& 0 <= g < self.n() && self.b(g).start_offset == start && self.b(g).len >= len && self.b(g).outstanding_borrows == borrows
        &&& g < old.n() ==> old.b(g).outstanding_borrows == 0
        &&& forall|i: int| 0 <= i < old.n() && i != g ==> (#[trigger] self.b(i)) == old.b(i)
        &&& g <= old.n() && self.n() == (if g == old.n() { old.n() + 1 } else { old.n() })
    }
    /*@extract knaster_graph/src/buffer_allocator.rs | impl<F: Float> BufferAllocator<F> | reset
    requires block_size > 0,
    ensures
        final(self).wf(), final(self).buffer == old(self).buffer, final(self).next_free_pos == block_size,
        // the empty channel, which is never given to a node
        final(self).n() == 1, final(self).b(0) == (AllocatedBlock { start_offset: 0, len: block_size, outstanding_borrows: usize::MAX }),
    @start
        proof { assert(1 * block_size == block_size); }
    @*/
    /*@extract knaster_graph/src/buffer_allocator.rs | impl<F: Float> BufferAllocator<F> | finished_assigning_make_allocation | ret=r
    ensures
        final(self).buffer.size() >= old(self).virtual_allocation_size, final(self).allocated_blocks == old(self).allocated_blocks,
        final(self).virtual_allocation_size == old(self).virtual_allocation_size, final(self).next_free_pos == old(self).next_free_pos,
        // an allocation which is replaced is given back, never dropped here
        r.is_some() ==> r.unwrap() == old(self).buffer, r.is_none() ==> final(self).buffer == old(self).buffer,
    @sig /Arc<OwnedRawBuffer<F>>/ => Memory
    @sub /self\.buffer\.ptr\.len\(\)/ => self.buffer.len()
    @sub /Arc::new\(OwnedRawBuffer::new\(self\.virtual_allocation_size\)\)/ => Memory::new(self.virtual_allocation_size)
    @sub /crate::core::mem::replace\(&mut self\.buffer, buffer\)/ => replaced(&mut self.buffer, buffer)
    @*/
    /*@extract knaster_graph/src/buffer_allocator.rs | impl<F: Float> BufferAllocator<F> | offset_to_ptr | ret=r
    ensures offset < self.buffer.size() ==> r.is_some() && !null(r.unwrap()) && of(r.unwrap()) == alloc(self.buffer) && at(r.unwrap()) == offset,
    @sig /\*mut F/ => Ptr
    @*/
    /*@extract knaster_graph/src/buffer_allocator.rs | impl<F: Float> BufferAllocator<F> | empty_channel | ret=r
    requires self.buffer.size() > 0,
    ensures !null(r), of(r) == alloc(self.buffer), at(r) == 0,
    @sig /\*const F/ => Ptr
    @*/
}

// ------------------------------------------------------------------ nodes and edges
/*@struct knaster_graph/src/edge.rs | Edge @*/
impl Copy for Edge {}
impl Clone for Edge { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
/*@enum knaster_graph/src/edge.rs | NodeKeyOrGraph @*/
impl Copy for NodeKeyOrGraph {}
impl Clone for NodeKeyOrGraph { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
/*@struct knaster_graph/src/edge.rs | ParameterEdge @*/
/*@enum knaster_graph/src/node.rs | NodeOutput | /<F>/ => | /\*mut F/ => Ptr @*/
impl Copy for NodeOutput {}
impl Clone for NodeOutput { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
type GraphId = u64;
/*@struct knaster_graph/src/node.rs | NodeData | /fn\(usize\) -> Option<[^\n]*>,/ => Opaque, @*/
/*@struct knaster_graph/src/node.rs | Node | /<F: Float>/ => | /NodeUGen<F>/ => Opaque | /EcoString/ => Opaque | /\*const F/ => Ptr | /NodeOutput<F>/ => NodeOutput | /Arc<AtomicBool>/ => Opaque @*/
impl Node {
    /*@extract knaster_graph/src/node.rs | impl<F: Float> Node<F> | node_output_ptr | ret=r
    ensures r == (match self.node_output { NodeOutput::Pointer(p) => Some(p), _ => None }),
    @sig /\*mut F/ => Ptr
    @*/
    /*@extract knaster_graph/src/node.rs | impl<F: Float> Node<F> | assign_inputs
    ensures *final(self) == (Node { node_inputs: inputs, ..*old(self) }),
    @sig /\*const F/ => Ptr
    @*/
    /*@extract knaster_graph/src/node.rs | impl<F: Float> Node<F> | assign_output_offset
    ensures *final(self) == (Node { node_output: NodeOutput::Offset(output_offset), ..*old(self) }),
    @*/
    /*@extract knaster_graph/src/node.rs | impl<F: Float> Node<F> | swap_offset_to_ptr
    ensures
        old(self).node_output matches NodeOutput::Offset(n) && n < b.buffer.size() ==>
            (final(self).node_output matches NodeOutput::Pointer(p) && !null(p) && of(p) == alloc(b.buffer) && at(p) == old(self).node_output->Offset_0),
        *final(self) == (Node { node_output: final(self).node_output, ..*old(self) }),
    @sig /BufferAllocator<F>/ => BufferAllocator
    @sub? /log::error!\("[^"]*"\);/ =>
    @*/
}
/// the fields of Graph which are used here
struct Graph {
    nodes: SlotMap<Node>,
    node_input_edges: SlotMap<Vec<Option<Edge>>>,
    node_parameter_edges: SlotMap<Vec<ParameterEdge>>,
    output_edges: Vec<Option<Edge>>,
    node_order: Vec<NodeKey>,
    block_size: usize,
    buffer_allocator: BufferAllocator,
    buffers_to_free_when_safe: Vec<Memory>,
}
#[verifier::external_body]
fn copied(x: &Vec<NodeKey>) -> (r: Vec<NodeKey>) ensures r@ == x@ { unimplemented!() }
/// assumed: the number of edges fits in a usize
#[verifier::external_body]
fn one_more(n: &mut Node) ensures *final(n) == (Node { num_output_dependents: final(n).num_output_dependents, ..*old(n) }), final(n).num_output_dependents == old(n).num_output_dependents + 1 { unimplemented!() }
spec fn keys_of<T>(m: Seq<(NodeKey, &T)>) -> Seq<NodeKey> { Seq::new(m.len(), |i: int| m[i].0) }
#[verifier::external_body]
fn nulls(n: usize) -> (r: Vec<Ptr>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> null(#[trigger] r@[i]) { unimplemented!() }
fn push_some(v: &mut Option<Vec<(usize, usize)>>, x: (usize, usize)) requires old(v).is_some() ensures final(v).is_some(), final(v)->0@ == old(v)->0@.push(x) {
    if let Some(v) = v { v.push(x) }
}
// ------------------------------------------------------------------ how often a node is read
spec fn reads1(e: Option<Edge>, s: NodeKey) -> int { if e is Some && e->0.source == NodeKeyOrGraph::Node(s) { 1 } else { 0 } }
spec fn reads(es: Seq<Option<Edge>>, s: NodeKey) -> int decreases es.len() { if es.len() == 0 { 0 } else { reads(es.drop_last(), s) + reads1(es.last(), s) } }
spec fn preads(es: Seq<ParameterEdge>, s: NodeKey) -> int decreases es.len() { if es.len() == 0 { 0 } else { preads(es.drop_last(), s) + (if es.last().source == s { 1int } else { 0 }) } }
spec fn sum(ks: Seq<NodeKey>, f: spec_fn(NodeKey) -> int) -> int decreases ks.len() { if ks.len() == 0 { 0 } else { f(ks[0]) + sum(ks.skip(1), f) } }
proof fn reads_some(es: Seq<Option<Edge>>, s: NodeKey)
    ensures reads(es, s) >= 0, reads(es, s) > 0 ==> exists|j: int| 0 <= j < es.len() && reads1(#[trigger] es[j], s) == 1,
        (exists|j: int| 0 <= j < es.len() && reads1(#[trigger] es[j], s) == 1) ==> reads(es, s) > 0
    decreases es.len()
{
    if es.len() > 0 {
        reads_some(es.drop_last(), s);
        if reads(es.drop_last(), s) > 0 { let j = choose|j: int| 0 <= j < es.drop_last().len() && reads1(#[trigger] es.drop_last()[j], s) == 1; assert(reads1(es[j], s) == 1); }
        if exists|j: int| 0 <= j < es.len() && reads1(#[trigger] es[j], s) == 1 {
            let j = choose|j: int| 0 <= j < es.len() && reads1(#[trigger] es[j], s) == 1;
            if j < es.len() - 1 { assert(reads1(es.drop_last()[j], s) == 1); }
        }
        if reads1(es.last(), s) == 1 { assert(reads1(es[es.len() - 1], s) == 1); }
    }
}
proof fn preads_some(es: Seq<ParameterEdge>, s: NodeKey)
    ensures preads(es, s) >= 0, preads(es, s) > 0 ==> exists|j: int| 0 <= j < es.len() && (#[trigger] es[j]).source == s,
        (exists|j: int| 0 <= j < es.len() && (#[trigger] es[j]).source == s) ==> preads(es, s) > 0
    decreases es.len()
{
    if es.len() > 0 {
        preads_some(es.drop_last(), s);
        if preads(es.drop_last(), s) > 0 { let j = choose|j: int| 0 <= j < es.drop_last().len() && (#[trigger] es.drop_last()[j]).source == s; assert(es[j].source == s); }
        if exists|j: int| 0 <= j < es.len() && (#[trigger] es[j]).source == s {
            let j = choose|j: int| 0 <= j < es.len() && (#[trigger] es[j]).source == s;
            if j < es.len() - 1 { assert(es.drop_last()[j].source == s); }
        }
        if es.last().source == s { assert(es[es.len() - 1].source == s); }
    }
}
proof fn reads_step(es: Seq<Option<Edge>>, j: int, s: NodeKey)
    requires 0 <= j < es.len()
    ensures reads(es.take(j + 1), s) == reads(es.take(j), s) + reads1(es[j], s), es.take(0).len() == 0, es.take(es.len() as int) == es
{ assert(es.take(j + 1).drop_last() == es.take(j)); }
proof fn reads_le(es: Seq<Option<Edge>>, j: int, s: NodeKey)
    requires 0 <= j <= es.len()
    ensures reads(es.take(j), s) <= reads(es, s)
    decreases es.len() - j
{ assert(es.take(es.len() as int) == es); if j < es.len() { reads_step(es, j, s); reads_le(es, j + 1, s); } }
proof fn preads_le(es: Seq<ParameterEdge>, j: int, s: NodeKey)
    requires 0 <= j <= es.len()
    ensures preads(es.take(j), s) <= preads(es, s)
    decreases es.len() - j
{ assert(es.take(es.len() as int) == es); if j < es.len() { preads_step(es, j, s); preads_le(es, j + 1, s); } }
proof fn preads_step(es: Seq<ParameterEdge>, j: int, s: NodeKey)
    requires 0 <= j < es.len()
    ensures preads(es.take(j + 1), s) == preads(es.take(j), s) + (if es[j].source == s { 1int } else { 0 }), es.take(0).len() == 0, es.take(es.len() as int) == es
{ assert(es.take(j + 1).drop_last() == es.take(j)); }
proof fn sum_push(ks: Seq<NodeKey>, k: NodeKey, f: spec_fn(NodeKey) -> int)
    ensures sum(ks.push(k), f) == sum(ks, f) + f(k)
    decreases ks.len()
{
    if ks.len() == 0 { assert(ks.push(k).skip(1) == ks); } else { sum_push(ks.skip(1), k, f); assert(ks.push(k).skip(1) == ks.skip(1).push(k)); }
}
proof fn sum_nonneg(ks: Seq<NodeKey>, f: spec_fn(NodeKey) -> int)
    requires forall|k: NodeKey| #[trigger] f(k) >= 0
    ensures sum(ks, f) >= 0, sum(ks, f) > 0 ==> exists|j: int| 0 <= j < ks.len() && #[trigger] f(ks[j]) > 0
    decreases ks.len()
{
    if ks.len() > 0 {
        sum_nonneg(ks.skip(1), f);
        if f(ks[0]) > 0 { } else if sum(ks, f) > 0 { let j = choose|j: int| 0 <= j < ks.skip(1).len() && #[trigger] f(ks.skip(1)[j]) > 0; assert(f(ks[j + 1]) > 0); }
    }
}
/// removing one element
proof fn sum_remove(ks: Seq<NodeKey>, i: int, f: spec_fn(NodeKey) -> int)
    requires 0 <= i < ks.len()
    ensures sum(ks, f) == sum(ks.remove(i), f) + f(ks[i])
    decreases ks.len()
{
    if i == 0 { assert(ks.remove(0) == ks.skip(1)); } else {
        sum_remove(ks.skip(1), i - 1, f);
        assert(ks.remove(i).skip(1) == ks.skip(1).remove(i - 1)); assert(ks.remove(i)[0] == ks[0]);
    }
}
proof fn sum_sub(a: Seq<NodeKey>, b: Seq<NodeKey>, f: spec_fn(NodeKey) -> int)
    requires a.no_duplicates(), forall|i: int| 0 <= i < a.len() ==> b.contains(#[trigger] a[i]), forall|k: NodeKey| #[trigger] f(k) >= 0
    ensures sum(a, f) <= sum(b, f)
    decreases a.len()
{
    if a.len() == 0 { sum_nonneg(b, f); } else {
        let j = choose|j: int| 0 <= j < b.len() && b[j] == a[0];
        sum_remove(b, j, f);
        let c = b.remove(j);
        assert forall|i: int| 0 <= i < a.skip(1).len() implies c.contains(#[trigger] a.skip(1)[i]) by {
            let x = a[i + 1]; let q = choose|q: int| 0 <= q < b.len() && b[q] == x;
            assert(x != a[0]); assert(c[if q < j { q } else { q - 1 }] == x);
        }
        sum_sub(a.skip(1), c, f);
    }
}

// ------------------------------------------------------------------ allocation of the outputs of all nodes
/// graph inputs which the edges read: (channel of the graph, channel of the node)
spec fn gin(es: Seq<Option<Edge>>) -> Seq<(usize, usize)> decreases es.len() {
    if es.len() == 0 { Seq::empty() } else if es.last() is Some && es.last()->0.source is Graph { gin(es.drop_last()).push((es.last()->0.channel_in_source as usize, (es.len() - 1) as usize)) } else { gin(es.drop_last()) }
}
proof fn gin_step(es: Seq<Option<Edge>>, j: int)
    requires 0 <= j < es.len()
    ensures gin(es.take(j + 1)) == (if es[j] is Some && es[j]->0.source is Graph { gin(es.take(j)).push((es[j]->0.channel_in_source as usize, j as usize)) } else { gin(es.take(j)) }), gin(es.take(0)) == Seq::<(usize, usize)>::empty(), es.take(es.len() as int) == es
{ assert(es.take(j + 1).drop_last() == es.take(j)); }
spec fn apart(a: int, m: int, b: int, n: int) -> bool { a + m <= b || b + n <= a }
impl Graph {
    spec fn len(self) -> int { self.node_order@.len() as int }
    spec fn key(self, p: int) -> NodeKey { self.node_order@[p] }
    spec fn ins(self, k: NodeKey) -> Seq<Option<Edge>> { self.node_input_edges@[k]@ }
    spec fn pars(self, k: NodeKey) -> Seq<ParameterEdge> { self.node_parameter_edges@[k]@ }
    spec fn outs(self, k: NodeKey) -> int { self.nodes@[k].data.outputs as int }
    spec fn fin(self, s: NodeKey) -> spec_fn(NodeKey) -> int { |k: NodeKey| reads(self.ins(k), s) }
    spec fn fpar(self, s: NodeKey) -> spec_fn(NodeKey) -> int { |k: NodeKey| preads(self.pars(k), s) }
    /// how often node k reads node s
    spec fn reads_of(self, k: NodeKey, s: NodeKey) -> int { reads(self.ins(k), s) + preads(self.pars(k), s) }
    spec fn later(self, i: int, s: NodeKey) -> int { sum(self.node_order@.skip(i), self.fin(s)) + sum(self.node_order@.skip(i), self.fpar(s)) }
    /// how often s is read by the nodes from position i on, and by the outputs of the graph
    spec fn remaining(self, i: int, s: NodeKey) -> int { reads(self.output_edges@, s) + self.later(i, s) }
    /// what the order and the edges are, from the edits (bounds of channels) and from calculate_node_order
    spec fn ready(self) -> bool {
        &&& 0 < self.block_size && mul(self.block_size as int, 1 + 65535 * self.len()) <= usize::MAX
        &&& self.node_order@.no_duplicates()
        &&& forall|p: int| 0 <= p < self.len() ==> self.nodes.has(#[trigger] self.key(p)) && self.node_input_edges.has(self.key(p)) && self.node_parameter_edges.has(self.key(p))
        &&& forall|k: NodeKey| self.node_input_edges.has(k) || self.node_parameter_edges.has(k) ==> self.node_order@.contains(k)
        &&& forall|k: NodeKey| #[trigger] self.node_input_edges.has(k) ==> self.ins(k).len() == self.nodes@[k].data.inputs
        // sources come before, with the channel
        &&& forall|q: int, j: int| 0 <= q < self.len() && 0 <= j < self.ins(self.key(q)).len() ==> self.valid(#[trigger] self.ins(self.key(q))[j], q)
        &&& forall|j: int| 0 <= j < self.output_edges@.len() ==> self.valid(#[trigger] self.output_edges@[j], self.len())
        &&& forall|q: int, j: int| 0 <= q < self.len() && 0 <= j < self.pars(self.key(q)).len() ==> self.before(#[trigger] self.pars(self.key(q))[j].source, self.pars(self.key(q))[j].channel_in_source, q)
    }
    spec fn before(self, s: NodeKey, channel: u16, q: int) -> bool { (exists|p: int| 0 <= p < q && #[trigger] self.key(p) == s) && channel < self.outs(s) }
    spec fn valid(self, e: Option<Edge>, q: int) -> bool { e is Some && e->0.source is Node ==> self.before(e->0.source->Node_0, e->0.channel_in_source, q) }
    spec fn same_edges(self, g: Graph) -> bool {
        &&& self.node_input_edges == g.node_input_edges && self.node_parameter_edges == g.node_parameter_edges && self.output_edges == g.output_edges && self.node_order == g.node_order && self.block_size == g.block_size
        &&& forall|k: NodeKey| self.nodes.has(k) <==> g.nodes.has(k)
        &&& forall|k: NodeKey| g.nodes.has(k) ==> (#[trigger] self.nodes@[k]).data == g.nodes@[k].data
    }
    proof fn sums(self, i: int, s: NodeKey)
        requires 0 <= i <= self.len()
        ensures
            self.later(i, s) >= 0, reads(self.output_edges@, s) >= 0,
            i < self.len() ==> self.later(i, s) == self.reads_of(self.key(i), s) + self.later(i + 1, s) && self.reads_of(self.key(i), s) >= 0,
            i == self.len() ==> self.later(i, s) == 0,
    {
        reads_some(self.output_edges@, s);
        assert forall|k: NodeKey| #[trigger] self.fin(s)(k) >= 0 by { reads_some(self.ins(k), s); }
        assert forall|k: NodeKey| #[trigger] self.fpar(s)(k) >= 0 by { preads_some(self.pars(k), s); }
        sum_nonneg(self.node_order@.skip(i), self.fin(s)); sum_nonneg(self.node_order@.skip(i), self.fpar(s));
        if i < self.len() {
            assert(self.node_order@.skip(i).skip(1) == self.node_order@.skip(i + 1));
            assert(self.node_order@.skip(i)[0] == self.key(i));
            assert(self.fin(s)(self.key(i)) >= 0); assert(self.fpar(s)(self.key(i)) >= 0);
        }
    }
    proof fn later_mono(self, i: int, q: int, s: NodeKey)
        requires 0 <= i <= q <= self.len()
        ensures self.later(i, s) >= self.later(q, s), self.remaining(i, s) >= self.remaining(q, s), q < self.len() ==> self.later(i, s) >= self.reads_of(self.key(q), s)
        decreases q - i
    {
        self.sums(i, s); self.sums(q, s);
        if q < self.len() { self.sums(q + 1, s); }
        if i < q { self.later_mono(i + 1, q, s); }
    }
    /// what is read has outputs, and comes earlier in the order than its readers
    proof fn read_is_before(self, i: int, s: NodeKey)
        requires self.ready(), 0 <= i <= self.len(), self.remaining(i, s) > 0
        ensures self.outs(s) > 0, exists|p: int| 0 <= p < self.len() && #[trigger] self.key(p) == s
        decreases self.len() - i
    {
        self.sums(i, s);
        if reads(self.output_edges@, s) > 0 {
            reads_some(self.output_edges@, s);
            let j = choose|j: int| 0 <= j < self.output_edges@.len() && reads1(#[trigger] self.output_edges@[j], s) == 1;
            assert(self.valid(self.output_edges@[j], self.len()));
        } else if self.reads_of(self.key(i), s) > 0 { self.read_by(i, s); } else { self.read_is_before(i + 1, s); }
    }
    proof fn read_by(self, q: int, s: NodeKey)
        requires self.ready(), 0 <= q < self.len(), self.reads_of(self.key(q), s) > 0
        ensures self.outs(s) > 0, exists|p: int| 0 <= p < q && #[trigger] self.key(p) == s
    {
        reads_some(self.ins(self.key(q)), s); preads_some(self.pars(self.key(q)), s);
        if reads(self.ins(self.key(q)), s) > 0 {
            let j = choose|j: int| 0 <= j < self.ins(self.key(q)).len() && reads1(#[trigger] self.ins(self.key(q))[j], s) == 1;
            assert(self.valid(self.ins(self.key(q))[j], q));
        } else {
            let j = choose|j: int| 0 <= j < self.pars(self.key(q)).len() && (#[trigger] self.pars(self.key(q))[j]).source == s;
            assert(self.before(self.pars(self.key(q))[j].source, self.pars(self.key(q))[j].channel_in_source, q));
        }
    }
    /// the node at p of the order has block blk[p]
    spec fn placed(self, p: int, b: int) -> bool {
        &&& self.nodes@[self.key(p)].node_output is Offset
        &&& if self.outs(self.key(p)) > 0 {
            &&& 1 <= b < self.buffer_allocator.n()
            &&& self.buffer_allocator.b(b).start_offset == self.nodes@[self.key(p)].node_output->Offset_0
            &&& self.buffer_allocator.b(b).len >= mul(self.outs(self.key(p)), self.block_size as int)
        } else { self.nodes@[self.key(p)].node_output->Offset_0 == 0 }
    }
    spec fn allocator_ok(self, g: Graph, i: int) -> bool {
        &&& self.buffer_allocator.wf() && self.buffer_allocator.buffer == g.buffer_allocator.buffer
        &&& self.buffer_allocator.n() >= 1 && self.buffer_allocator.b(0).start_offset == 0 && self.buffer_allocator.b(0).len == self.block_size && self.buffer_allocator.b(0).outstanding_borrows > 0
        &&& self.buffer_allocator.next_free_pos <= mul(self.block_size as int, 1 + 65535 * i)
    }
    /// the first n nodes have their blocks; a block keeps `need` borrows for its node
    spec fn holds(self, g: Graph, n: int, blk: Seq<int>, need: spec_fn(NodeKey) -> int) -> bool {
        &&& self.same_edges(g) && self.allocator_ok(g, n) && blk.len() == n
        &&& forall|p: int| 0 <= p < n ==> #[trigger] self.placed(p, blk[p])
        &&& forall|p: int| 0 <= p < n && #[trigger] need(self.key(p)) > 0 ==> self.outs(self.key(p)) > 0 && self.buffer_allocator.b(blk[p]).outstanding_borrows >= need(self.key(p))
        &&& forall|p: int, q: int| 0 <= p < q < n && #[trigger] need(self.key(p)) > 0 && #[trigger] need(self.key(q)) > 0 ==> blk[p] != blk[q]
        // nobody was given a block which is still to be read
        &&& forall|p: int, k: int| 0 <= p < k < n && #[trigger] g.remaining(k, g.key(p)) > 0 && g.outs(g.key(k)) > 0 ==> #[trigger] blk[k] != blk[p]
        // and there are enough borrows for those who come
        &&& forall|k: NodeKey| self.nodes.has(k) ==> (#[trigger] self.nodes@[k]).num_output_dependents >= g.remaining(0, k)
    }

    /// borrows needed while node i gives back its inputs, j inputs and m parameters given back
    spec fn need(self, i: int, j: int, m: int) -> spec_fn(NodeKey) -> int {
        |s: NodeKey| self.remaining(i + 1, s) + reads(self.ins(self.key(i)), s) - reads(self.ins(self.key(i)).take(j), s) + preads(self.pars(self.key(i)), s) - preads(self.pars(self.key(i)).take(m), s)
    }
    spec fn left(self, i: int) -> spec_fn(NodeKey) -> int { |s: NodeKey| self.remaining(i, s) }
    proof fn need_eq(self, g: Graph, n: int, blk: Seq<int>, a: spec_fn(NodeKey) -> int, b: spec_fn(NodeKey) -> int)
        requires self.holds(g, n, blk, a), forall|s: NodeKey| #[trigger] a(s) == b(s)
        ensures self.holds(g, n, blk, b)
    {
        assert forall|p: int| 0 <= p < n && #[trigger] b(self.key(p)) > 0 implies self.outs(self.key(p)) > 0 && self.buffer_allocator.b(blk[p]).outstanding_borrows >= b(self.key(p)) by { assert(a(self.key(p)) > 0); }
        assert forall|p: int, q: int| 0 <= p < q < n && #[trigger] b(self.key(p)) > 0 && #[trigger] b(self.key(q)) > 0 implies blk[p] != blk[q] by { assert(a(self.key(p)) > 0 && a(self.key(q)) > 0); }
    }
    /// node i is given a block
    proof fn given(self, old: Graph, g: Graph, i: int, blk: Seq<int>, b: int, r: usize)
        requires
            g.ready(), 0 <= i < g.len(), old.holds(g, i, blk, g.left(i)), self.same_edges(g),
            self.nodes@ == old.nodes@.insert(g.key(i), Node { node_output: NodeOutput::Offset(r), ..old.nodes@[g.key(i)] }),
            self.buffer_allocator.wf(), self.buffer_allocator.extends(old.buffer_allocator),
            self.buffer_allocator.next_free_pos <= old.buffer_allocator.next_free_pos + mul(g.outs(g.key(i)), g.block_size as int),
            g.outs(g.key(i)) == 0 ==> self.buffer_allocator == old.buffer_allocator && r == 0,
            g.outs(g.key(i)) > 0 ==> self.buffer_allocator.got(old.buffer_allocator, b, r, mul(g.outs(g.key(i)), g.block_size as int), old.nodes@[g.key(i)].num_output_dependents),
        ensures self.holds(g, i + 1, blk.push(b), g.left(i))
    {
        let key = g.key(i); let bl = blk.push(b); let need = g.left(i); let n = i + 1;
        let (o, w) = (g.outs(key), g.block_size as int);
        assert(mul(o, w) <= mul(w, 65535)) by (nonlinear_arith) requires mul(o, w) == o * w, mul(w, 65535) == w * 65535, 0 <= o <= 65535, w >= 0;
        assert(mul(w, 1 + 65535 * (i + 1)) == mul(w, 1 + 65535 * i) + mul(w, 65535)) by (nonlinear_arith) requires mul(w, 1 + 65535 * (i + 1)) == w * (1 + 65535 * (i + 1)), mul(w, 1 + 65535 * i) == w * (1 + 65535 * i), mul(w, 65535) == w * 65535;
        assert(old.buffer_allocator.b(0).outstanding_borrows > 0);
        assert(b == 0 && o > 0 ==> false);
        assert forall|p: int| 0 <= p < n implies #[trigger] self.placed(p, bl[p]) by {
            if p < i { assert(old.placed(p, blk[p])); assert(g.key(p) != key); }
        }
        assert forall|p: int| 0 <= p < n && #[trigger] need(self.key(p)) > 0 implies self.outs(self.key(p)) > 0 && self.buffer_allocator.b(bl[p]).outstanding_borrows >= need(self.key(p)) by {
            g.read_is_before(i, g.key(p));
            if p < i {
                assert(old.key(p) == self.key(p)); assert(need(old.key(p)) > 0); assert(old.placed(p, blk[p]));
                if o > 0 { assert(blk[p] != b); }
            } else { g.later_mono(0, i, key); }
        }
        assert forall|p: int, q: int| 0 <= p < q < n && #[trigger] need(self.key(p)) > 0 && #[trigger] need(self.key(q)) > 0 implies bl[p] != bl[q] by {
            assert(need(old.key(p)) > 0); assert(old.placed(p, blk[p]));
            if q == i { g.read_is_before(i, g.key(q)); } else { assert(need(old.key(q)) > 0); }
        }
        assert forall|p: int, k: int| 0 <= p < k < n && #[trigger] g.remaining(k, g.key(p)) > 0 && g.outs(g.key(k)) > 0 implies #[trigger] bl[k] != bl[p] by {
            if k == i { assert(need(old.key(p)) > 0); assert(old.placed(p, blk[p])); } else { assert(blk[k] != blk[p]); }
        }
    }
    /// one read of the node at p is over
    proof fn given_back(self, old: Graph, g: Graph, n: int, blk: Seq<int>, a: spec_fn(NodeKey) -> int, b: spec_fn(NodeKey) -> int, p0: int, off: usize)
        requires
            g.ready(), 0 <= p0 < n <= g.len(), old.holds(g, n, blk, a), a(g.key(p0)) > 0, forall|s: NodeKey| #[trigger] b(s) == a(s) - (if s == g.key(p0) { 1int } else { 0 }),
            old.nodes@[g.key(p0)].node_output == NodeOutput::Offset(off), self.nodes == old.nodes, self.same_edges(g),
            self.buffer_allocator.wf(), self.buffer_allocator.extends(old.buffer_allocator), self.buffer_allocator.n() == old.buffer_allocator.n(), self.buffer_allocator.next_free_pos == old.buffer_allocator.next_free_pos,
            forall|i: int| 0 <= i < old.buffer_allocator.n() ==> (#[trigger] self.buffer_allocator.b(i)).outstanding_borrows == old.buffer_allocator.b(i).outstanding_borrows - (if old.buffer_allocator.b(i).start_offset == off { 1int } else { 0 }),
        ensures self.holds(g, n, blk, b)
    {
        let x = blk[p0];
        assert(old.placed(p0, x)); assert(a(old.key(p0)) > 0);
        let o = old.buffer_allocator;
        assert(o.b(x).start_offset == off);
        assert forall|i: int| 0 <= i < o.n() && i != x implies (#[trigger] o.b(i)).start_offset != off by { o.distinct(i, x); }
        assert(self.buffer_allocator.b(0).outstanding_borrows > 0);
        assert forall|p: int| 0 <= p < n implies #[trigger] self.placed(p, blk[p]) by { assert(old.placed(p, blk[p])); }
        assert forall|p: int| 0 <= p < n && #[trigger] b(self.key(p)) > 0 implies self.outs(self.key(p)) > 0 && self.buffer_allocator.b(blk[p]).outstanding_borrows >= b(self.key(p)) by {
            assert(a(old.key(p)) > 0); assert(old.placed(p, blk[p]));
            if p != p0 {
                assert(g.key(p) != g.key(p0));
                if p < p0 { assert(a(old.key(p)) > 0 && a(old.key(p0)) > 0); } else { assert(a(old.key(p0)) > 0 && a(old.key(p)) > 0); }
                assert(blk[p] != x);
            }
        }
        assert forall|p: int, q: int| 0 <= p < q < n && #[trigger] b(self.key(p)) > 0 && #[trigger] b(self.key(q)) > 0 implies blk[p] != blk[q] by { assert(a(old.key(p)) > 0 && a(old.key(q)) > 0); }
    }
    proof fn can_return(self, g: Graph, n: int, blk: Seq<int>, a: spec_fn(NodeKey) -> int, p: int)
        requires self.holds(g, n, blk, a), 0 <= p < n, a(g.key(p)) > 0
        ensures self.nodes@[g.key(p)].node_output is Offset,
            exists|i: int| 0 <= i < self.buffer_allocator.n() && (#[trigger] self.buffer_allocator.b(i)).start_offset == self.nodes@[g.key(p)].node_output->Offset_0 && self.buffer_allocator.b(i).outstanding_borrows > 0
    { assert(self.placed(p, blk[p])); assert(a(self.key(p)) > 0); assert(self.buffer_allocator.b(blk[p]).outstanding_borrows > 0); }

    /// after the conversion: node k reads and writes where it should
    spec fn out_at(self, k: NodeKey) -> int { at(self.nodes@[k].node_output->Pointer_0) }
    spec fn width(self, k: NodeKey) -> int { mul(self.outs(k), self.block_size as int) }
    /// the output of a node is in the allocation, and not in the empty channel at its start
    spec fn wired_out(self, g: Graph, p: int) -> bool {
        let k = g.key(p);
        &&& self.nodes@[k].node_output is Pointer
        &&& !null(self.nodes@[k].node_output->Pointer_0) && of(self.nodes@[k].node_output->Pointer_0) == alloc(self.buffer_allocator.buffer)
        &&& g.outs(k) > 0 ==> self.out_at(k) >= g.block_size && self.out_at(k) + g.width(k) <= self.buffer_allocator.buffer.size()
    }
    /// an input channel is the channel of the output it is connected to, or the empty channel
    spec fn wired_in(self, e: Option<Edge>, x: Ptr) -> bool {
        &&& !null(x) && of(x) == alloc(self.buffer_allocator.buffer)
        &&& at(x) == (if e is Some && e->0.source is Node { self.out_at(e->0.source->Node_0) + mul(e->0.channel_in_source as int, self.block_size as int) } else { 0 })
        &&& at(x) + self.block_size <= self.buffer_allocator.buffer.size()
    }
    spec fn half_wired(self, e: Option<Edge>, x: Ptr) -> bool { if e is Some && e->0.source is Node { self.wired_in(e, x) } else { null(x) } }
    spec fn wired_ins(self, g: Graph, k: NodeKey) -> bool {
        &&& self.nodes@[k].node_inputs@.len() == g.nodes@[k].data.inputs
        &&& forall|c: int| 0 <= c < g.ins(k).len() ==> self.wired_in(g.ins(k)[c], #[trigger] self.nodes@[k].node_inputs@[c])
    }
    /// node k does not write where node p does
    spec fn undisturbed(self, g: Graph, p: int, k: int) -> bool {
        g.outs(g.key(k)) > 0 ==> apart(self.out_at(g.key(p)), g.width(g.key(p)), self.out_at(g.key(k)), g.width(g.key(k)))
    }
    spec fn gins(self, i: int) -> Seq<(usize, Seq<(usize, usize)>)> decreases i {
        if i <= 0 { Seq::empty() } else if gin(self.ins(self.key(i - 1))).len() == 0 { self.gins(i - 1) } else { self.gins(i - 1).push(((i - 1) as usize, gin(self.ins(self.key(i - 1))))) }
    }
    spec fn counted(self, g: Graph) -> bool { self.same_edges(g) && self.buffer_allocator == g.buffer_allocator }
    spec fn dependents(self, k: NodeKey) -> int { self.nodes@[k].num_output_dependents as int }
    proof fn source_is_node(self, e: Edge, q: int)
        requires self.ready(), self.valid(Some(e), q), 0 <= q <= self.len()
        ensures e.source is Node ==> self.nodes.has(e.source->Node_0)
    { if e.source is Node { let s = e.source->Node_0; let p = choose|p: int| 0 <= p < q && #[trigger] self.key(p) == s; assert(self.nodes.has(self.key(p))); } }
    proof fn enough(self, ks: Seq<NodeKey>, ps: Seq<NodeKey>)
        requires self.ready(), ks.no_duplicates(), ps.no_duplicates(), forall|k: NodeKey| self.node_input_edges.has(k) ==> ks.contains(k), forall|k: NodeKey| self.node_parameter_edges.has(k) ==> ps.contains(k)
        ensures forall|s: NodeKey| sum(ks, #[trigger] self.fin(s)) + reads(self.output_edges@, s) + sum(ps, self.fpar(s)) >= self.remaining(0, s)
    {
        assert forall|s: NodeKey| sum(ks, #[trigger] self.fin(s)) + reads(self.output_edges@, s) + sum(ps, self.fpar(s)) >= self.remaining(0, s) by {
            assert(self.node_order@.skip(0) == self.node_order@);
            assert forall|k: NodeKey| #[trigger] self.fin(s)(k) >= 0 by { reads_some(self.ins(k), s); }
            assert forall|k: NodeKey| #[trigger] self.fpar(s)(k) >= 0 by { preads_some(self.pars(k), s); }
            assert forall|i: int| 0 <= i < self.len() implies ks.contains(#[trigger] self.node_order@[i]) by { assert(self.node_input_edges.has(self.key(i))); }
            assert forall|i: int| 0 <= i < self.len() implies ps.contains(#[trigger] self.node_order@[i]) by { assert(self.node_input_edges.has(self.key(i))); }
            sum_sub(self.node_order@, ks, self.fin(s)); sum_sub(self.node_order@, ps, self.fpar(s));
        }
    }
    /*@extract knaster_graph/src/graph.rs | impl<F: Float> Graph<F> | allocate_node_buffers | ret=r
    requires old(self).ready(),
    ensures
        final(self).same_edges(*old(self)),
        forall|p: int| 0 <= p < old(self).len() ==> #[trigger] final(self).wired_out(*old(self), p),
        forall|k: NodeKey| #[trigger] old(self).node_input_edges.has(k) ==> final(self).wired_ins(*old(self), k),
        // between a node and something which reads it, no other node writes where it does
        forall|p: int, k: int, q: int| 0 <= p < k <= q < old(self).len() && #[trigger] old(self).reads_of(old(self).key(q), old(self).key(p)) > 0 ==> #[trigger] final(self).undisturbed(*old(self), p, k),
        forall|p: int, k: int| 0 <= p < k < old(self).len() && reads(old(self).output_edges@, #[trigger] old(self).key(p)) > 0 ==> #[trigger] final(self).undisturbed(*old(self), p, k),
        // the channels of the graph which nodes read
        r@.len() == old(self).gins(old(self).len()).len(), forall|j: int| 0 <= j < r@.len() ==> (#[trigger] r@[j]).0 == old(self).gins(old(self).len())[j].0 && r@[j].1@ == old(self).gins(old(self).len())[j].1,
    @sub? /self\.get_nodes\(\)\[(key|source_key|edge\.source|node_key)\]/ => self.nodes.at(\1)
    @sub? /self\.get_nodes_mut\(\)\[(key|source_key|edge\.source|node_key)\]/ => self.nodes.at_mut(\1)
    @sub? /\(unsafe \{ &mut \*self\.nodes\.get\(\) \}\)\[([^\]]+)\]/ => self.nodes.at_mut(\1)
    @sub? /unsafe \{ \(&mut \*self\.nodes\.get\(\)\)\[([^\]]+)\]([^;]*?) \};/ => self.nodes.at_mut(\1)\2;
    @sub? /(self\.nodes\.at_mut\([^()]*\))\.num_output_dependents \+= 1;/ => one_more(\1);
    @sub? /for \(_key, node\) in self\.get_nodes_mut\(\) \{/ => let ks = self.nodes.keys(); for nk in nk_it: 0..ks.len() { let node = self.nodes.at_mut(ks[nk]);
    @sub? /for \((_?\w+), edges\) in &self\.node_input_edges / => let m1 = self.node_input_edges.entries(); for (\1, edges) in &m1 
    @sub? /for \((_?\w+), edges\) in &self\.node_parameter_edges / => let m2 = self.node_parameter_edges.entries(); for (\1, edges) in &m2 
    @sub? /&?self\.node_input_edges\[key\]/ => self.node_input_edges.at(key)
    @sub? /&?self\.node_parameter_edges\[key\]/ => self.node_parameter_edges.at(key)
    @sub? /self\.node_order\.clone\(\)/ => copied(&self.node_order)
    @sub? /crate::node::NodeOutput/ => NodeOutput
    @sub? /(input_pointers_to_node)\s*\.as_mut\(\)\s*\.unwrap\(\)\s*\.push\(/ => push_some(&mut \1, 
    @sub? /vec!\[crate::core::ptr::null\(\); num_inputs as usize\]/ => nulls(num_inputs as usize)
    @sub? /let mut input_pointers_to_node = None;/ => let mut input_pointers_to_node: Option<Vec<(usize, usize)>> = None;
    @sub? /let mut graph_input_pointers_to_nodes = Vec::new\(\);/ => let mut graph_input_pointers_to_nodes: Vec<(usize, Vec<(usize, usize)>)> = Vec::new();
    @sub? /unsafe \{/ => {
    @start
        let ghost g = *self;
    @loop 0
        invariant
            nk_it.iter.end == ks@.len(), nk_it.snapshot.end == ks@.len(), g == *old(self), self.counted(g),
            forall|k: NodeKey| g.nodes.has(k) <==> ks@.contains(k), ks@.no_duplicates(),
            forall|i: int| 0 <= i < nk ==> self.dependents(#[trigger] ks@[i]) == 0,
    @loopstart 0
        assert(ks@.contains(ks@[nk as int])); assert(g.nodes.has(ks@[nk as int]));
    @afterloop 0
        proof { assert forall|k: NodeKey| g.nodes.has(k) implies #[trigger] self.dependents(k) == 0 by { let i = choose|i: int| 0 <= i < ks@.len() && ks@[i] == k; assert(self.dependents(ks@[i]) == 0); } }
    @unfold 1 ai
    @loop 1
        invariant
            ai_it.iter.end == m1@.len(), ai_it.snapshot.end == m1@.len(), g == *old(self), g.ready(), self.counted(g), ai_s@ == m1@,
            forall|i: int| 0 <= i < m1@.len() ==> g.node_input_edges.has((#[trigger] m1@[i]).0) && *m1@[i].1 == g.node_input_edges@[m1@[i].0],
            forall|k: NodeKey| g.nodes.has(k) ==> #[trigger] self.dependents(k) == sum(keys_of(m1@).take(ai as int), g.fin(k)),
    @loopend 1
        proof {
            assert(keys_of(m1@).take(ai + 1) == keys_of(m1@).take(ai as int).push(m1@[ai as int].0));
            assert(edges@.take(edges@.len() as int) == edges@);
            assert forall|k: NodeKey| g.nodes.has(k) implies #[trigger] self.dependents(k) == sum(keys_of(m1@).take(ai + 1), g.fin(k)) by { sum_push(keys_of(m1@).take(ai as int), m1@[ai as int].0, g.fin(k)); }
        }
    @afterloop 1
        let ghost mk1 = keys_of(m1@);
        proof { assert(mk1.take(m1@.len() as int) == mk1); }
    @unfold 2 bi
    @loop 2
        invariant
            bi_it.iter.end == edges@.len(), bi_it.snapshot.end == edges@.len(), g == *old(self), g.ready(), self.counted(g), bi_s@ == edges@, edges@ == g.ins(m1@[ai as int].0), 0 <= ai < m1@.len(),
            g.node_input_edges.has(m1@[ai as int].0),
            forall|k: NodeKey| g.nodes.has(k) ==> #[trigger] self.dependents(k) == sum(keys_of(m1@).take(ai as int), g.fin(k)) + reads(edges@.take(bi as int), k),
    @loopstart 2
        let ghost s1 = *self;
        proof {
            let q = choose|q: int| 0 <= q < g.len() && g.node_order@[q] == m1@[ai as int].0; assert(g.key(q) == m1@[ai as int].0);
            assert(g.valid(g.ins(g.key(q))[bi as int], q));
            if edges@[bi as int] is Some { g.source_is_node(edges@[bi as int]->0, q); }
        }
    @loopend 2
        proof { assert forall|k: NodeKey| g.nodes.has(k) implies #[trigger] self.dependents(k) == sum(keys_of(m1@).take(ai as int), g.fin(k)) + reads(edges@.take(bi + 1), k) by { reads_step(edges@, bi as int, k); assert(s1.dependents(k) >= 0); } }
    @unfold 3 ci
    @loop 3
        invariant
            ci_it.iter.end == g.output_edges@.len(), ci_it.snapshot.end == g.output_edges@.len(), g == *old(self), g.ready(), self.counted(g), ci_s@ == g.output_edges@,
            forall|k: NodeKey| g.nodes.has(k) ==> #[trigger] self.dependents(k) == sum(mk1, g.fin(k)) + reads(g.output_edges@.take(ci as int), k),
    @loopstart 3
        let ghost s1 = *self;
        proof {
            assert(g.valid(g.output_edges@[ci as int], g.len()));
            if g.output_edges@[ci as int] is Some { g.source_is_node(g.output_edges@[ci as int]->0, g.len()); }
        }
    @loopend 3
        proof { assert forall|k: NodeKey| g.nodes.has(k) implies #[trigger] self.dependents(k) == sum(mk1, g.fin(k)) + reads(g.output_edges@.take(ci + 1), k) by { reads_step(g.output_edges@, ci as int, k); assert(s1.dependents(k) >= 0); } }
    @afterloop 3
        proof { assert(g.output_edges@.take(g.output_edges@.len() as int) == g.output_edges@); }
    @unfold 4 di
    @loop 4
        invariant
            di_it.iter.end == m2@.len(), di_it.snapshot.end == m2@.len(), g == *old(self), g.ready(), self.counted(g), di_s@ == m2@,
            forall|i: int| 0 <= i < m2@.len() ==> g.node_parameter_edges.has((#[trigger] m2@[i]).0) && *m2@[i].1 == g.node_parameter_edges@[m2@[i].0],
            forall|k: NodeKey| g.nodes.has(k) ==> #[trigger] self.dependents(k) == sum(mk1, g.fin(k)) + reads(g.output_edges@, k) + sum(keys_of(m2@).take(di as int), g.fpar(k)),
    @loopend 4
        proof {
            assert(keys_of(m2@).take(di + 1) == keys_of(m2@).take(di as int).push(m2@[di as int].0));
            assert(edges@.take(edges@.len() as int) == edges@);
            assert forall|k: NodeKey| g.nodes.has(k) implies #[trigger] self.dependents(k) == sum(mk1, g.fin(k)) + reads(g.output_edges@, k) + sum(keys_of(m2@).take(di + 1), g.fpar(k)) by { sum_push(keys_of(m2@).take(di as int), m2@[di as int].0, g.fpar(k)); }
        }
    @afterloop 4
        proof {
            let ghost mk2 = keys_of(m2@);
            assert(mk2.take(m2@.len() as int) == mk2);
            assert forall|k: NodeKey| g.node_input_edges.has(k) implies mk1.contains(k) by { let i = choose|i: int| 0 <= i < m1@.len() && (#[trigger] m1@[i]).0 == k; assert(mk1[i] == k); }
            assert forall|k: NodeKey| g.node_parameter_edges.has(k) implies mk2.contains(k) by { let i = choose|i: int| 0 <= i < m2@.len() && (#[trigger] m2@[i]).0 == k; assert(mk2[i] == k); }
            g.enough(mk1, mk2);
            assert forall|k: NodeKey| self.nodes.has(k) implies (#[trigger] self.nodes@[k]).num_output_dependents >= g.remaining(0, k) by { assert(self.dependents(k) == sum(mk1, g.fin(k)) + reads(g.output_edges@, k) + sum(mk2, g.fpar(k))); }
        }
    @unfold 5 fi
    @loop 5
        invariant
            fi_it.iter.end == edges@.len(), fi_it.snapshot.end == edges@.len(), g == *old(self), g.ready(), self.counted(g), fi_s@ == edges@, edges@ == g.pars(m2@[di as int].0), 0 <= di < m2@.len(),
            g.node_parameter_edges.has(m2@[di as int].0),
            forall|k: NodeKey| g.nodes.has(k) ==> #[trigger] self.dependents(k) == sum(mk1, g.fin(k)) + reads(g.output_edges@, k) + sum(keys_of(m2@).take(di as int), g.fpar(k)) + preads(edges@.take(fi as int), k),
    @loopstart 5
        let ghost s1 = *self;
        proof {
            let q = choose|q: int| 0 <= q < g.len() && g.node_order@[q] == m2@[di as int].0; assert(g.key(q) == m2@[di as int].0);
            let e = g.pars(g.key(q))[fi as int];
            assert(g.before(e.source, e.channel_in_source, q)); let p = choose|p: int| 0 <= p < q && #[trigger] g.key(p) == e.source; assert(g.nodes.has(g.key(p)));
        }
    @loopend 5
        proof { assert forall|k: NodeKey| g.nodes.has(k) implies #[trigger] self.dependents(k) == sum(mk1, g.fin(k)) + reads(g.output_edges@, k) + sum(keys_of(m2@).take(di as int), g.fpar(k)) + preads(edges@.take(fi + 1), k) by { preads_step(edges@, fi as int, k); assert(s1.dependents(k) >= 0); } }
    @sub? /self\.nodes\.at_mut\(key\)\.assign_output_offset\(offset\);/ => self.nodes.at_mut(key).assign_output_offset(offset); proof { let i = oi as int; let b = if g.outs(key) > 0 { choose|b: int| #[trigger] self.buffer_allocator.got(s0.buffer_allocator, b, offset, g.width(key), s0.nodes@[key].num_output_dependents) } else { 0 }; self.given(s0, g, i, blk, b, offset); blk = blk.push(b); assert forall|s: NodeKey| #[trigger] g.left(i)(s) == g.need(i, 0, 0)(s) by { g.sums(i, s); assert(g.ins(key).take(0).len() == 0); assert(g.pars(key).take(0).len() == 0); } self.need_eq(g, i + 1, blk, g.left(i), g.need(i, 0, 0)); }
    @sub? /let node_order = / => let ghost mut blk = Seq::<int>::empty(); proof { assert(mul(g.block_size as int, 1int) == g.block_size); } let node_order = 
    @unfold 6 oi
    @loop 6
        invariant
            oi_it.iter.end == g.len(), oi_it.snapshot.end == g.len(), g == *old(self), g.ready(), oi_s@ == g.node_order@, node_order@ == g.node_order@,
            self.holds(g, oi as int, blk, g.left(oi as int)),
            graph_input_pointers_to_nodes@.len() == g.gins(oi as int).len(),
            forall|j: int| 0 <= j < graph_input_pointers_to_nodes@.len() ==> (#[trigger] graph_input_pointers_to_nodes@[j]).0 == g.gins(oi as int)[j].0 && graph_input_pointers_to_nodes@[j].1@ == g.gins(oi as int)[j].1,
    @loopstart 6
        let ghost s0 = *self;
        let ghost gi0 = graph_input_pointers_to_nodes@;
        proof {
            let key = g.key(oi as int); assert(g.nodes.has(key)); assert(g.node_input_edges.has(key)); assert(g.node_parameter_edges.has(key));
            let (o, w, i, n) = (g.outs(key), g.block_size as int, oi as int, g.len());
            assert(mul(w, 1 + 65535 * i) + mul(o, w) <= mul(w, 1 + 65535 * n)) by (nonlinear_arith) requires mul(w, 1 + 65535 * i) == w * (1 + 65535 * i), mul(o, w) == o * w, mul(w, 1 + 65535 * n) == w * (1 + 65535 * n), 0 <= o <= 65535, w >= 0, 0 <= i < n;
            assert(o > 0 ==> o * w > 0) by (nonlinear_arith) requires w > 0;
            assert(o == 0 ==> o * w == 0) by (nonlinear_arith);
            assert(mul(o, w) == o * w);
        }
    @loopend 6
        proof {
            let i = oi as int; let key = g.key(i);
            assert(g.ins(key).take(g.ins(key).len() as int) == g.ins(key)); assert(g.pars(key).take(g.pars(key).len() as int) == g.pars(key));
            self.need_eq(g, i + 1, blk, g.need(i, g.ins(key).len() as int, g.pars(key).len() as int), g.left(i + 1));
            assert(g.gins(i + 1) == (if gin(g.ins(key)).len() == 0 { g.gins(i) } else { g.gins(i).push((i as usize, gin(g.ins(key)))) }));
        }
    @afterloop 6
        let ghost s6 = *self;
        proof { self.spread(g, blk); }
    @unfold 7 ei
    @loop 7
        invariant
            ei_it.iter.end == g.ins(key).len(), ei_it.snapshot.end == g.ins(key).len(), g == *old(self), g.ready(), 0 <= oi < g.len(), key == g.key(oi as int), ei_s@ == g.ins(key),
            self.holds(g, oi + 1, blk, g.need(oi as int, ei as int, 0)),
            match input_pointers_to_node { None => gin(g.ins(key).take(ei as int)).len() == 0, Some(v) => v@ == gin(g.ins(key).take(ei as int)) && v@.len() > 0 },
    @loopstart 7
        let ghost s1 = *self;
        let ghost ed = g.ins(key)[ei as int];
        let ghost p0 = choose|p: int| 0 <= p < oi && #[trigger] g.key(p) == ed->0.source->Node_0;
        proof {
            assert(g.valid(g.ins(g.key(oi as int))[ei as int], oi as int));
            gin_step(g.ins(key), ei as int);
            if ed is Some && ed->0.source is Node {
                let s = ed->0.source->Node_0;
                assert(0 <= p0 < oi && g.key(p0) == s); assert(g.nodes.has(g.key(p0)));
                g.sums(oi + 1, s); reads_step(g.ins(key), ei as int, s); reads_le(g.ins(key), ei + 1, s); preads_some(g.pars(key), s); assert(g.pars(key).take(0).len() == 0);
                assert(g.need(oi as int, ei as int, 0)(g.key(p0)) > 0);
                self.can_return(g, oi + 1, blk, g.need(oi as int, ei as int, 0), p0);
            }
        }
    @loopend 7
        proof {
            let (a, b) = (g.need(oi as int, ei as int, 0), g.need(oi as int, ei + 1, 0));
            if ed is Some && ed->0.source is Node {
                assert forall|s: NodeKey| #[trigger] b(s) == a(s) - (if s == g.key(p0) { 1int } else { 0 }) by { reads_step(g.ins(key), ei as int, s); }
                self.given_back(s1, g, oi + 1, blk, a, b, p0, s1.nodes@[g.key(p0)].node_output->Offset_0);
            } else {
                assert forall|s: NodeKey| #[trigger] a(s) == b(s) by { reads_step(g.ins(key), ei as int, s); }
                self.need_eq(g, oi + 1, blk, a, b);
            }
        }
    @unfold 8 pi
    @loop 8
        invariant
            pi_it.iter.end == g.pars(key).len(), pi_it.snapshot.end == g.pars(key).len(), g == *old(self), g.ready(), 0 <= oi < g.len(), key == g.key(oi as int), pi_s@ == g.pars(key),
            self.holds(g, oi + 1, blk, g.need(oi as int, g.ins(key).len() as int, pi as int)),
    @loopstart 8
        let ghost s1 = *self;
        let ghost ed = g.pars(key)[pi as int];
        let ghost p0 = choose|p: int| 0 <= p < oi && #[trigger] g.key(p) == ed.source;
        proof {
            let s = ed.source;
            assert(g.before(g.pars(g.key(oi as int))[pi as int].source, g.pars(g.key(oi as int))[pi as int].channel_in_source, oi as int));
            assert(0 <= p0 < oi && g.key(p0) == s); assert(g.nodes.has(g.key(p0)));
            assert(g.ins(key).take(g.ins(key).len() as int) == g.ins(key));
            g.sums(oi + 1, s); preads_step(g.pars(key), pi as int, s); preads_le(g.pars(key), pi + 1, s);
            assert(g.need(oi as int, g.ins(key).len() as int, pi as int)(g.key(p0)) > 0);
            self.can_return(g, oi + 1, blk, g.need(oi as int, g.ins(key).len() as int, pi as int), p0);
        }
    @loopend 8
        proof {
            let (a, b) = (g.need(oi as int, g.ins(key).len() as int, pi as int), g.need(oi as int, g.ins(key).len() as int, pi + 1));
            assert forall|s: NodeKey| #[trigger] b(s) == a(s) - (if s == g.key(p0) { 1int } else { 0 }) by { preads_step(g.pars(key), pi as int, s); }
            self.given_back(s1, g, oi + 1, blk, a, b, p0, s1.nodes@[g.key(p0)].node_output->Offset_0);
        }
    @unfold 9 vi
    @loop 9
        invariant
            vi_it.iter.end == g.len(), vi_it.snapshot.end == g.len(), g == *old(self), g.ready(), vi_s@ == g.node_order@, self.same_edges(g), s6.same_edges(g), s6.spaced(g),
            self.buffer_allocator.buffer.size() >= s6.buffer_allocator.virtual_allocation_size,
            forall|p: int| 0 <= p < vi ==> #[trigger] self.wired_out(g, p) && self.out_at(g.key(p)) == s6.off(g.key(p)),
            forall|p: int| vi <= p < g.len() ==> self.nodes@[#[trigger] g.key(p)].node_output == s6.nodes@[g.key(p)].node_output,
    @loopstart 9
        let ghost s1 = *self;
        proof { assert(vi_s@[vi as int] == g.key(vi as int)); assert(g.nodes.has(g.key(vi as int))); assert(s6.within(g, vi as int)); let (o, w) = (g.outs(g.key(vi as int)), g.block_size as int); assert(o > 0 ==> mul(o, w) > 0) by (nonlinear_arith) requires mul(o, w) == o * w, w > 0; }
    @loopend 9
        proof {
            assert(self.wired_out(g, vi as int));
            assert(self.out_at(g.key(vi as int)) == s6.off(g.key(vi as int)));
            assert forall|p: int| 0 <= p < vi + 1 implies #[trigger] self.wired_out(g, p) && self.out_at(g.key(p)) == s6.off(g.key(p)) by { if p < vi { assert(s1.wired_out(g, p)); assert(g.key(p) != g.key(vi as int)); assert(g.nodes.has(g.key(p))); assert(self.nodes@[g.key(p)] == s1.nodes@[g.key(p)]); } else { assert(p == vi); } }
        }
    @afterloop 9
        let ghost s9 = *self;
        proof { assert forall|p: int| 0 <= p < g.len() implies s9.out_at(#[trigger] g.key(p)) == s6.off(g.key(p)) by { assert(s9.wired_out(g, p)); } }
    @unfold 10 wi
    @loop 10
        invariant
            wi_it.iter.end == m1@.len(), wi_it.snapshot.end == m1@.len(), g == *old(self), g.ready(), self.same_edges(g), s9.same_edges(g), wi_s@ == m1@, s6.spaced(g), forall|p: int| 0 <= p < g.len() ==> s9.out_at(#[trigger] g.key(p)) == s6.off(g.key(p)),
            forall|i: int| 0 <= i < m1@.len() ==> g.node_input_edges.has((#[trigger] m1@[i]).0) && *m1@[i].1 == g.node_input_edges@[m1@[i].0],
            forall|i: int, j: int| 0 <= i < j < m1@.len() ==> (#[trigger] m1@[i]).0 != (#[trigger] m1@[j]).0,
            self.buffer_allocator == s9.buffer_allocator, s9.buffer_allocator.buffer.size() >= g.block_size,
            forall|p: int| 0 <= p < g.len() ==> #[trigger] s9.wired_out(g, p),
            forall|k: NodeKey| g.nodes.has(k) ==> (#[trigger] self.nodes@[k]).node_output == s9.nodes@[k].node_output,
            forall|i: int| 0 <= i < wi ==> #[trigger] self.wired_ins(g, m1@[i].0),
    @loopstart 10
        let ghost s1 = *self;
        proof {
            let k = m1@[wi as int].0; let q = choose|q: int| 0 <= q < g.len() && g.node_order@[q] == k; assert(g.key(q) == k); assert(g.nodes.has(g.key(q)));
            assert forall|p: int| 0 <= p < g.len() implies #[trigger] self.wired_out(g, p) by { assert(s9.wired_out(g, p)); assert(g.nodes.has(g.key(p))); }
        }
    @loopend 10
        proof {
            let k = m1@[wi as int].0;
            assert forall|e: Option<Edge>, x: Ptr, q: int| #[trigger] s1.wired_in(e, x) && #[trigger] g.valid(e, q) && 0 <= q <= g.len() implies self.wired_in(e, x) by { if e is Some { g.source_is_node(e->0, q); } }
            assert(self.wired_ins(g, k));
            assert forall|i: int| 0 <= i < wi implies #[trigger] self.wired_ins(g, m1@[i].0) by { assert(s1.wired_ins(g, m1@[i].0)); }
        }
    @afterloop 10
        proof {
            assert forall|p: int| 0 <= p < g.len() implies #[trigger] self.wired_out(g, p) && self.out_at(g.key(p)) == s6.off(g.key(p)) by { assert(s9.wired_out(g, p)); assert(g.nodes.has(g.key(p))); }
            assert forall|k: NodeKey| #[trigger] g.node_input_edges.has(k) implies self.wired_ins(g, k) by { let i = choose|i: int| 0 <= i < m1@.len() && (#[trigger] m1@[i]).0 == k; assert(self.wired_ins(g, m1@[i].0)); }
            assert forall|p: int, k: int, q: int| 0 <= p < k <= q < g.len() && #[trigger] g.reads_of(g.key(q), g.key(p)) > 0 implies #[trigger] self.undisturbed(g, p, k) by {
                g.sums(q + 1, g.key(p)); g.later_mono(k, q, g.key(p)); assert(self.wired_out(g, p)); assert(self.wired_out(g, k));
                assert(g.remaining(k, g.key(p)) > 0);
            }
            assert forall|p: int, k: int| 0 <= p < k < g.len() && reads(g.output_edges@, #[trigger] g.key(p)) > 0 implies #[trigger] self.undisturbed(g, p, k) by {
                g.sums(k, g.key(p)); assert(self.wired_out(g, p)); assert(self.wired_out(g, k));
                assert(g.remaining(k, g.key(p)) > 0);
            }
        }
    @unfold 11 xi
    @loop 11
        invariant
            xi_it.iter.end == edges@.len(), xi_it.snapshot.end == edges@.len(), g == *old(self), g.ready(), self.same_edges(g), xi_s@ == edges@, 0 <= wi < m1@.len(), edges@ == g.ins(m1@[wi as int].0), *self == s1,
            g.node_input_edges.has(m1@[wi as int].0), edges@.len() == num_inputs,
            forall|p: int| 0 <= p < g.len() ==> #[trigger] self.wired_out(g, p),
            inputs@.len() == num_inputs,
            forall|c: int| 0 <= c < xi ==> self.half_wired(edges@[c], #[trigger] inputs@[c]),
            forall|c: int| xi <= c < inputs@.len() ==> null(#[trigger] inputs@[c]),
    @loopstart 11
        proof {
            let k = m1@[wi as int].0;
            let q = choose|q: int| 0 <= q < g.len() && g.node_order@[q] == k; assert(g.key(q) == k);
            assert(g.valid(g.ins(g.key(q))[xi as int], q));
            let ed = edges@[xi as int];
            if ed is Some && ed->0.source is Node {
                let s = ed->0.source->Node_0;
                let p = choose|p: int| 0 <= p < q && #[trigger] g.key(p) == s;
                assert(self.wired_out(g, p)); assert(g.nodes.has(g.key(p)));
                let (c, o, w, n) = (ed->0.channel_in_source as int, g.outs(s), g.block_size as int, g.len());
                assert(mul(c, w) + w <= mul(o, w)) by (nonlinear_arith) requires mul(c, w) == c * w, mul(o, w) == o * w, c + 1 <= o, w > 0;
                assert(mul(c, w) <= mul(w, 1 + 65535 * n)) by (nonlinear_arith) requires mul(c, w) == c * w, mul(w, 1 + 65535 * n) == w * (1 + 65535 * n), 0 <= c <= 65535, w > 0, n >= 1;
                assert(mul(c, w) == c * w); assert(c * w >= 0) by (nonlinear_arith) requires c >= 0, w > 0;
            }
        }
    @unfold 12 zi
    @loop 12
        invariant
            zi_it.iter.end == num_inputs, zi_it.snapshot.end == num_inputs, edges@.len() == num_inputs, inputs@.len() == num_inputs, *self == s1, self.block_size == g.block_size,
            self.buffer_allocator.buffer.size() >= g.block_size, g.block_size > 0,
            forall|c: int| 0 <= c < zi ==> self.wired_in(edges@[c], #[trigger] inputs@[c]),
            forall|c: int| zi <= c < num_inputs ==> self.half_wired(edges@[c], #[trigger] inputs@[c]),
    @loopstart 12
        assert(self.half_wired(edges@[zi as int], inputs@[zi as int]));
    @*/
    spec fn off(self, k: NodeKey) -> int { self.nodes@[k].node_output->Offset_0 as int }
    spec fn within(self, g: Graph, p: int) -> bool {
        let k = g.key(p);
        &&& self.nodes@[k].node_output is Offset
        &&& if g.outs(k) > 0 { self.off(k) >= g.block_size && self.off(k) + g.width(k) <= self.buffer_allocator.virtual_allocation_size } else { self.off(k) == 0 }
    }
    spec fn spaced(self, g: Graph) -> bool {
        &&& forall|p: int| 0 <= p < g.len() ==> #[trigger] self.within(g, p)
        &&& forall|p: int, k: int| 0 <= p < k < g.len() && #[trigger] g.remaining(k, g.key(p)) > 0 && g.outs(g.key(k)) > 0 ==> apart(self.off(g.key(p)), g.width(g.key(p)), self.off(g.key(k)), g.width(g.key(k)))
        &&& self.buffer_allocator.virtual_allocation_size >= g.block_size
    }
    proof fn spread(self, g: Graph, blk: Seq<int>)
        requires g.ready(), self.holds(g, g.len(), blk, g.left(g.len()))
        ensures self.spaced(g)
    {
        let a = self.buffer_allocator;
        assert(end(a.b(0)) <= a.next_free_pos);
        assert forall|p: int| 0 <= p < g.len() implies #[trigger] self.within(g, p) by {
            assert(self.placed(p, blk[p]));
            if g.outs(g.key(p)) > 0 { assert(end(a.b(0)) <= a.b(blk[p]).start_offset); assert(end(a.b(blk[p])) <= a.next_free_pos); }
        }
        assert forall|p: int, k: int| 0 <= p < k < g.len() && #[trigger] g.remaining(k, g.key(p)) > 0 && g.outs(g.key(k)) > 0 implies apart(self.off(g.key(p)), g.width(g.key(p)), self.off(g.key(k)), g.width(g.key(k))) by {
            g.read_is_before(k, g.key(p));
            assert(self.placed(p, blk[p])); assert(self.placed(k, blk[k]));
            assert(blk[k] != blk[p]);
            a.distinct(blk[p], blk[k]);
        }
    }
}
}
fn main() {}
