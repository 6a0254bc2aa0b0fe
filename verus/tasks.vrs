use vstd::prelude::*;
verus! {
/*@include gr.inc @*/
global size_of usize == 8;
// ------------------------------------------------------------------ memory
/// `*mut F`/`*const F`: an allocation and an offset in it, or null
#[verifier::external_body]
#[derive(Copy, Clone)]
pub struct Ptr { x: usize }
pub uninterp spec fn null(p: Ptr) -> bool;
pub uninterp spec fn of(p: Ptr) -> int;
pub uninterp spec fn at(p: Ptr) -> int;
/// number of samples of an allocation
pub uninterp spec fn room(a: int) -> nat;
impl Ptr {
    /// the unsafe `ptr.add(n)`: only inside of the allocation
    #[verifier::external_body]
    fn add(self, n: usize) -> (r: Ptr) requires !null(self), at(self) + n < room(of(self)) ensures !null(r), of(r) == of(self), at(r) == at(self) + n { unimplemented!() }
}
/// `Arc<OwnedRawBuffer<F>>`
#[verifier::external_body]
pub struct Memory { x: usize }
pub uninterp spec fn alloc(m: Memory) -> int;
/// of BufferAllocator, what is used here (buffers.vrs has the rest)
pub struct BufferAllocator { buffer: Memory }
impl BufferAllocator {
    #[verifier::external_body]
    fn empty_channel(&self) -> (r: Ptr) ensures !null(r), of(r) == alloc(self.buffer), at(r) == 0 { unimplemented!() }
    /// a clone of the Arc
    #[verifier::external_body]
    fn buffer(&self) -> (r: Memory) ensures r == self.buffer { unimplemented!() }
}
// ------------------------------------------------------------------ nodes and edges
/// `Box<dyn DynUGen>`
#[verifier::external_body]
pub struct Dyn { x: u8 }
/*@enum knaster_graph/src/dynugen.rs | UGenEnum | /<F: Float>/ => | /Box<dyn DynUGen<F> \+ 'static>/ => Dyn @*/
/*@enum knaster_graph/src/node.rs | NodeUGen | /<F: Float>/ => | /UGenEnum<F>/ => UGenEnum @*/
/*@struct knaster_graph/src/edge.rs | Edge @*/
impl Copy for Edge {}
impl Clone for Edge { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
/*@enum knaster_graph/src/edge.rs | NodeKeyOrGraph @*/
impl Copy for NodeKeyOrGraph {}
impl Clone for NodeKeyOrGraph { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
/*@struct knaster_graph/src/edge.rs | ParameterEdge @*/
impl Copy for ParameterEdge {}
impl Clone for ParameterEdge { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
/*@enum knaster_graph/src/node.rs | NodeOutput | /<F>/ => | /\*mut F/ => Ptr @*/
impl Copy for NodeOutput {}
impl Clone for NodeOutput { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
type GraphId = u64;
/*@struct knaster_graph/src/node.rs | NodeData | /fn\(usize\) -> Option<[^\n]*>,/ => Opaque, @*/
/*@struct knaster_graph/src/node.rs | Node | /<F: Float>/ => | /NodeUGen<F>/ => NodeUGen | /EcoString/ => Opaque | /\*const F/ => Ptr | /NodeOutput<F>/ => NodeOutput | /Arc<AtomicBool>/ => Opaque @*/
/*@struct knaster_graph/src/task.rs | Task | /<F: Float>/ => | /UGenEnum<F>/ => UGenEnum | /\*const F/ => Ptr | /\*mut F/ => Ptr @*/
/*@enum knaster_graph/src/task.rs | BlockOrGraphInput | /<F>/ => | /\*mut F/ => Ptr @*/
impl Copy for BlockOrGraphInput {}
impl Clone for BlockOrGraphInput { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
/*@struct knaster_graph/src/task.rs | ArParameterChange | /<F>/ => | /\*const F/ => Ptr @*/
/*@struct knaster_graph/src/task.rs | OutputTask | /<F>/ => | /Box<\[Option<BlockOrGraphInput>\]>/ => Vec<Option<BlockOrGraphInput>> @*/
/*@struct knaster_graph/src/task.rs | TaskData | /<F: Float>/ => | /Arc<AtomicBool>/ => Opaque | /Box<\[Task<F>\]>/ => Vec<Task> | /OutputTask<F>/ => OutputTask | /Arc<OwnedRawBuffer<F>>/ => Memory | /ArParameterChange<F>/ => ArParameterChange @*/
/// core::mem::replace
#[verifier::external_body]
fn replace<T>(x: &mut T, v: T) -> (r: T) ensures r == *old(x), *final(x) == v { unimplemented!() }
#[verifier::external_body]
fn cloned<T: Copy>(x: &Vec<T>) -> (r: Vec<T>) ensures r@ == x@ { unimplemented!() }
#[verifier::external_body]
fn nones(n: usize) -> (r: Vec<Option<BlockOrGraphInput>>) ensures r@ == Seq::new(n as nat, |i: int| None::<BlockOrGraphInput>) { unimplemented!() }
fn check(b: bool) requires b {}
/// `v.iter().all(p)`
fn all_edges<P: Fn(&ParameterEdge) -> bool>(v: &Vec<ParameterEdge>, p: P) -> (r: bool)
    requires forall|i: int| 0 <= i < v@.len() ==> p.requires((&#[trigger] v@[i],))
    ensures r ==> forall|i: int| 0 <= i < v@.len() ==> p.ensures((&#[trigger] v@[i],), true), !r ==> exists|i: int| 0 <= i < v@.len() && p.ensures((&#[trigger] v@[i],), false)
{
    for i in 0..v.len()
        invariant
            forall|i: int| 0 <= i < v@.len() ==> p.requires((&#[trigger] v@[i],)),
            forall|j: int| 0 <= j < i ==> p.ensures((&#[trigger] v@[j],), true),
    { if !p(&v[i]) { return false; } }
    true
}
/// `v.iter().position(p)`
fn position<P: Fn(&NodeKey) -> bool>(v: &Vec<NodeKey>, p: P) -> (r: Option<usize>)
    requires forall|i: int| 0 <= i < v@.len() ==> p.requires((&#[trigger] v@[i],))
    ensures
        r is None ==> forall|i: int| 0 <= i < v@.len() ==> p.ensures((&#[trigger] v@[i],), false),
        r is Some ==> r->0 < v@.len() && p.ensures((&v@[r->0 as int],), true),
{
    for i in 0..v.len()
        invariant
            forall|i: int| 0 <= i < v@.len() ==> p.requires((&#[trigger] v@[i],)),
            forall|j: int| 0 <= j < i ==> p.ensures((&#[trigger] v@[j],), false),
    { if p(&v[i]) { return Some(i); } }
    None
}
impl Node {
    /// its task, if it is the n-th
    spec fn task_is(self, t: Task) -> bool {
        t.in_buffers@ == self.node_inputs@ && t.out_buffer == self.node_output->Pointer_0 && t.output_channels == self.data.outputs
        && t.ugen == match self.ugen { NodeUGen::Local(u) => u, NodeUGen::Live(i) => UGenEnum::TakeFromTask(i) }
    }
    /*@extract knaster_graph/src/node.rs | impl<F: Float> Node<F> | node_output_ptr | ret=r
    ensures r == (match self.node_output { NodeOutput::Pointer(p) => Some(p), _ => None }),
    @sig /\*mut F/ => Ptr
    @*/
    /*@extract knaster_graph/src/node.rs | impl<F: Float> Node<F> | make_task | ret=r
    requires old(self).node_output is Pointer,
    ensures old(self).task_is(r), *final(self) == (Node { ugen: NodeUGen::Live(node_order_index), ..*old(self) }),
    @sub? /self\.node_inputs\.clone\(\)/ => cloned(&self.node_inputs)
    @sub? /(?:std|crate::core|core)::mem::replace/ => replace
    @sub? /\.expect\("[^"]*"\)/ => .unwrap()
    @sig /Task<F>/ => Task
    @*/
}
/// the edges to its parameters have the node, and the parameter, no longer
spec fn gone(edges: SlotMap<Vec<ParameterEdge>>, d: (NodeKey, u16)) -> bool { !edges.has(d.0) || exists|j: int| 0 <= j < edges@[d.0]@.len() && (#[trigger] edges@[d.0]@[j]).parameter_index == d.1 }
spec fn remaining(edges: SlotMap<Vec<ParameterEdge>>, d: Seq<(NodeKey, u16)>, n: int) -> Seq<(NodeKey, u16)> decreases n {
    if n <= 0 { Seq::empty() } else if gone(edges, d[n - 1]) { remaining(edges, d, n - 1) } else { remaining(edges, d, n - 1).push(d[n - 1]) }
}
/// of the ring buffer for TaskData, what was sent through it and whether it is full
#[verifier::external_body]
pub struct Sender { x: u8 }
impl Sender {
    uninterp spec fn sent(self) -> Seq<TaskData>;
    /// whether there is room: the other end makes room, nobody else takes it
    uninterp spec fn has_room(self) -> bool;
    #[verifier::external_body]
    fn is_full(&self) -> (r: bool) ensures r == !self.has_room() { unimplemented!() }
    #[verifier::external_body]
    fn push(&mut self, t: TaskData) -> (r: Result<(), TaskData>)
        ensures old(self).has_room() ==> r is Ok && final(self).sent() == old(self).sent().push(t), r is Err ==> final(self).sent() == old(self).sent() { unimplemented!() }
}
/// what waits to be dropped
#[verifier::external_body]
pub struct Old { x: u8 }
pub struct GraphGenCommunicator { next_change_flag: Opaque, old: Old, new_task_data_producer: Sender }
/// Arc<AtomicBool>: a flag nobody else has, not set
uninterp spec fn fresh(f: Opaque) -> bool;
#[verifier::external_body]
fn new_flag() -> (r: Opaque) ensures fresh(r) { unimplemented!() }
pub enum GraphError { SendToGraphGen }
impl GraphGenCommunicator {
    /// drops what has come back
    #[verifier::external_body]
    fn free_old_task_data(&mut self) ensures final(self).next_change_flag == old(self).next_change_flag, final(self).new_task_data_producer == old(self).new_task_data_producer { unimplemented!() }
    /*@extract knaster_graph/src/graph.rs | impl<F: Float> GraphGenCommunicator<F> | send_updated_tasks | ret=r
    ensures
        old(self).new_task_data_producer.has_room() ==> r is Ok && final(self).new_task_data_producer.sent() == old(self).new_task_data_producer.sent().push(task_data),
        r is Err ==> final(self).new_task_data_producer.sent() == old(self).new_task_data_producer.sent(),
        final(self).next_change_flag == old(self).next_change_flag,
    @sub? /SendToGraphGen\(format!\("[^"]*"\)\)/ => SendToGraphGen
    @sig /TaskData<F>/ => TaskData
    @*/
}
/// A TaskData whose UGens come from a TaskData with n tasks: no UGen is missing and none is in two tasks
spec fn fits(new: Seq<Task>, n: int) -> bool {
    &&& forall|i: int| 0 <= i < new.len() ==> match (#[trigger] new[i]).ugen { UGenEnum::TakeFromTask(j) => j < n, UGenEnum::Dyn(_) => true, UGenEnum::None => false }
    &&& forall|i: int, j: int| 0 <= i < j < new.len() && (#[trigger] new[i]).ugen is TakeFromTask && (#[trigger] new[j]).ugen is TakeFromTask ==> new[i].ugen->TakeFromTask_0 != new[j].ugen->TakeFromTask_0
}
/// every index in it is in range, for a graph with so many inputs and outputs (graphgen.vrs asks for this and for `fits`)
spec fn fine(t: TaskData, inputs: nat, outputs: nat) -> bool {
    &&& t.node_task_order@.len() <= t.tasks@.len()
    &&& t.output_task.channels@.len() == outputs
    &&& forall|i: int| 0 <= i < outputs ==> match #[trigger] t.output_task.channels@[i] { Some(BlockOrGraphInput::GraphInput(c)) => c < inputs, _ => true }
    &&& forall|i: int| 0 <= i < t.ar_parameter_changes@.len() ==> (#[trigger] t.ar_parameter_changes@[i]).node < t.tasks@.len()
    &&& forall|i: int| 0 <= i < t.graph_input_channels_to_nodes@.len() ==> inputs_fine(t.tasks@, #[trigger] t.graph_input_channels_to_nodes@[i], inputs)
}
spec fn inputs_fine(t: Seq<Task>, e: (usize, Vec<(usize, usize)>), inputs: nat) -> bool {
    e.0 < t.len() && forall|j: int| 0 <= j < e.1@.len() ==> (#[trigger] e.1@[j]).0 < inputs && e.1@[j].1 < t[e.0 as int].in_buffers@.len()
}
spec fn edge_at(e: Seq<ParameterEdge>, i: int) -> ParameterEdge { e[i] }
/// the fields of Graph which are used here
struct Graph {
    nodes: SlotMap<Node>,
    node_input_edges: SlotMap<Vec<Option<Edge>>>,
    node_parameter_edges: SlotMap<Vec<ParameterEdge>>,
    disconnected_parameters: Vec<(NodeKey, u16)>,
    output_edges: Vec<Option<Edge>>,
    node_order: Vec<NodeKey>,
    block_size: usize,
    num_inputs: u16,
    num_outputs: u16,
    buffer_allocator: BufferAllocator,
    graph_gen_communicator: GraphGenCommunicator,
    recalculation_required: bool,
    // the rest, which only free_old, calculate_node_order and allocate_node_buffers use
    rest: Opaque,
}
impl Graph {
    spec fn key(self, i: int) -> NodeKey { self.node_order@[i] }
    spec fn len(self) -> int { self.node_order@.len() as int }
    spec fn outs(self, k: NodeKey) -> int { self.nodes@[k].data.outputs as int }
    spec fn out_ptr(self, k: NodeKey) -> Ptr { self.nodes@[k].node_output->Pointer_0 }
    /// where a channel of the output of a node begins
    spec fn is_channel(self, k: NodeKey, c: int, p: Ptr) -> bool { !null(p) && of(p) == of(self.out_ptr(k)) && at(p) == at(self.out_ptr(k)) + c * self.block_size }
    /// its output is in memory (buffers.vrs proves this of allocate_node_buffers)
    spec fn wired(self, k: NodeKey) -> bool {
        self.nodes@[k].node_output is Pointer && !null(self.out_ptr(k)) && at(self.out_ptr(k)) >= 0 && (self.outs(k) > 0 ==> at(self.out_ptr(k)) + self.outs(k) * self.block_size <= room(of(self.out_ptr(k))))
    }
    spec fn same_but_ugens(self, g: Graph) -> bool {
        self == (Graph { nodes: self.nodes, ..g }) && self.nodes@.dom() =~= g.nodes@.dom() && forall|k: NodeKey| #[trigger] g.nodes.has(k) ==> self.nodes@[k] == (Node { ugen: self.nodes@[k].ugen, ..g.nodes@[k] })
    }
    /// the order, as order.vrs proves it of calculate_node_order, and buffers
    spec fn ready(self) -> bool {
        &&& self.node_order@.no_duplicates() && self.block_size > 0 && forall|a: int| #[trigger] room(a) <= usize::MAX
        &&& forall|i: int| 0 <= i < self.len() ==> self.nodes.has(#[trigger] self.key(i)) && self.wired(self.key(i))
        &&& forall|i: int| 0 <= i < self.output_edges@.len() ==> self.output_ok(#[trigger] self.output_edges@[i])
        &&& self.output_edges@.len() == self.num_outputs
        &&& forall|k: NodeKey, j: int| self.node_parameter_edges.has(k) && 0 <= j < self.node_parameter_edges@[k]@.len() ==> self.edge_ok(#[trigger] self.node_parameter_edges@[k]@[j])
    }
    spec fn edge_ok(self, e: ParameterEdge) -> bool { self.nodes.has(e.source) && self.wired(e.source) && e.channel_in_source < self.outs(e.source) }
    spec fn output_ok(self, e: Option<Edge>) -> bool {
        match e { Some(e) => match e.source { NodeKeyOrGraph::Node(k) => self.nodes.has(k) && self.wired(k) && e.channel_in_source < self.outs(k), NodeKeyOrGraph::Graph => e.channel_in_source < self.num_inputs }, None => true }
    }
    /// Where the UGens are: with the node, or at its place in the last TaskData, which had n tasks. No two nodes at the same place.
    spec fn placed(self, n: int) -> bool {
        &&& forall|k: NodeKey| #[trigger] self.in_order(k) ==> match self.nodes@[k].ugen { NodeUGen::Local(u) => u is Dyn, NodeUGen::Live(i) => i < n }
        &&& forall|k: NodeKey, l: NodeKey| #[trigger] self.in_order(k) && #[trigger] self.in_order(l) && k != l && self.nodes@[k].ugen is Live && self.nodes@[l].ugen is Live ==> self.nodes@[k].ugen->Live_0 != self.nodes@[l].ugen->Live_0
    }
    spec fn in_order(self, k: NodeKey) -> bool { self.node_order@.contains(k) }
    /// every node of the order is at its place in the order
    spec fn settled(self) -> bool { forall|i: int| 0 <= i < self.len() ==> (self.nodes@[#[trigger] self.node_order@[i]].ugen matches NodeUGen::Live(j) && j == i) }
    /// so that whatever is removed from the order, or added to it with a UGen of its own, everything is placed again
    proof fn settled_is_placed(self, g: Graph)
        requires g.settled(), g.node_order@.no_duplicates(),
            forall|k: NodeKey| #[trigger] self.in_order(k) ==> if g.in_order(k) { self.nodes@[k].ugen == g.nodes@[k].ugen } else { self.nodes@[k].ugen matches NodeUGen::Local(u) && u is Dyn },
        ensures self.placed(g.len())
    {
        assert forall|k: NodeKey| #[trigger] self.in_order(k) && g.in_order(k) implies (exists|i: int| 0 <= i < g.len() && #[trigger] g.key(i) == k && self.nodes@[k].ugen is Live && self.nodes@[k].ugen->Live_0 == i) by { let i = choose|i: int| 0 <= i < g.len() && g.node_order@[i] == k; assert(g.key(i) == k); }
        assert forall|k: NodeKey| #[trigger] self.in_order(k) implies (match self.nodes@[k].ugen { NodeUGen::Local(u) => u is Dyn, NodeUGen::Live(i) => i < g.len() }) by { if g.in_order(k) {} }
        assert forall|k: NodeKey, l: NodeKey| #[trigger] self.in_order(k) && #[trigger] self.in_order(l) && k != l && self.nodes@[k].ugen is Live && self.nodes@[l].ugen is Live implies self.nodes@[k].ugen->Live_0 != self.nodes@[l].ugen->Live_0 by {
            assert(g.in_order(k) && g.in_order(l));
        }
    }
    /// the tasks of the nodes, in order
    spec fn tasks_are(self, t: Seq<Task>) -> bool { t.len() == self.len() && forall|i: int| 0 <= i < t.len() ==> self.nodes@[self.key(i)].task_is(#[trigger] t[i]) }
    /// they fit what is on the audio thread
    proof fn tasks_fit(self, t: Seq<Task>, n: int)
        requires self.tasks_are(t), self.placed(n), self.node_order@.no_duplicates()
        ensures fits(t, n)
    {
        assert forall|i: int| 0 <= i < t.len() implies self.in_order(#[trigger] self.key(i)) by {}
        assert forall|i: int| 0 <= i < t.len() implies (match (#[trigger] t[i]).ugen { UGenEnum::TakeFromTask(j) => j < n, UGenEnum::Dyn(_) => true, UGenEnum::None => false }) by { assert(self.in_order(self.key(i))); assert(self.nodes@[self.key(i)].task_is(t[i])); }
        assert forall|i: int, j: int| 0 <= i < j < t.len() && (#[trigger] t[i]).ugen is TakeFromTask && (#[trigger] t[j]).ugen is TakeFromTask implies t[i].ugen->TakeFromTask_0 != t[j].ugen->TakeFromTask_0 by {
            assert(self.in_order(self.key(i)) && self.in_order(self.key(j))); assert(self.key(i) != self.key(j)); assert(self.nodes@[self.key(i)].task_is(t[i])); assert(self.nodes@[self.key(j)].task_is(t[j]));
        }
    }
    proof fn offset(self, k: NodeKey, c: int)
        requires self.wired(k), 0 <= c < self.outs(k), self.block_size > 0, forall|a: int| #[trigger] room(a) <= usize::MAX
        ensures 0 <= c * self.block_size <= usize::MAX, at(self.out_ptr(k)) + c * self.block_size < room(of(self.out_ptr(k))), self.block_size * c == c * self.block_size
    {
        assert(0 <= c * self.block_size < self.outs(k) * self.block_size) by (nonlinear_arith) requires 0 <= c < self.outs(k), self.block_size > 0;
        assert(self.block_size * c == c * self.block_size) by (nonlinear_arith);
    }
    /*@extract knaster_graph/src/graph.rs | impl<F: Float> Graph<F> | generate_tasks | ret=r
    requires old(self).ready(),
    ensures old(self).tasks_are(r@), final(self).same_but_ugens(*old(self)), final(self).settled(),
        forall|k: NodeKey| old(self).nodes.has(k) && !old(self).in_order(k) ==> #[trigger] final(self).nodes@[k] == old(self).nodes@[k],
    @sub? /let nodes = unsafe \{ &mut \*self\.nodes\.get\(\) \};/ =>
    @sub? /for \(i, &node_key\) in self\.node_order\.iter\(\)\.enumerate\(\) \{/ => for i in 0..self.node_order.len() { let node_key = self.node_order[i];
    @sub? /let mut tasks = vec!\[\];/ => let mut tasks: Vec<Task> = Vec::new();
    @sub? /&mut nodes\[(\w+)\]/ => self.nodes.at_mut(\1)
    @start
        let ghost g = *self;
    @loop 0
        invariant
            g == *old(self), g.ready(), self.same_but_ugens(g), tasks@.len() == i,
            forall|j: int| 0 <= j < i ==> g.nodes@[g.key(j)].task_is(#[trigger] tasks@[j]),
            forall|j: int| 0 <= j < i ==> (self.nodes@[#[trigger] g.node_order@[j]].ugen matches NodeUGen::Live(x) && x == j),
            forall|j: int| i <= j < g.len() ==> self.nodes@[#[trigger] g.node_order@[j]] == g.nodes@[g.node_order@[j]],
            forall|k: NodeKey| g.nodes.has(k) && !g.in_order(k) ==> #[trigger] self.nodes@[k] == g.nodes@[k],
    @loopstart 0
        proof { assert(g.nodes.has(g.key(i as int)) && g.wired(g.key(i as int))); assert(g.in_order(g.key(i as int))); }
    @sig /Task<F>/ => Task
    @*/
    /// what an output of the graph is to be read from
    spec fn output_is(self, e: Option<Edge>, c: Option<BlockOrGraphInput>) -> bool {
        match e {
            Some(e) => match e.source { NodeKeyOrGraph::Node(k) => c matches Some(BlockOrGraphInput::Block(p)) && self.is_channel(k, e.channel_in_source as int, p), NodeKeyOrGraph::Graph => c == Some(BlockOrGraphInput::GraphInput(e.channel_in_source as usize)) },
            None => c is None,
        }
    }
    /*@extract knaster_graph/src/graph.rs | impl<F: Float> Graph<F> | generate_output_tasks | ret=r
    requires old(self).ready(),
    ensures *final(self) == *old(self), r.channels@.len() == old(self).num_outputs, forall|i: int| 0 <= i < r.channels@.len() ==> old(self).output_is(old(self).output_edges@[i], #[trigger] r.channels@[i]),
    @unfold 0 si
    @sub? /vec!\[None; ([^\]]*)\]\.into_boxed_slice\(\)/ => nones(\1)
    @sub? /&self\.get_nodes\(\)\[(\w+)\]/ => self.nodes.at(\1)
    @sub? /\.expect\("[^"]*"\)/ => .unwrap()
    @sub? /assert!\(/ => check(
    @sub? /unsafe \{/ => {
    @loop 0
        invariant
            si_it.iter.end == self.output_edges@.len(), si_it.snapshot.end == self.output_edges@.len(), self.ready(), *self == *old(self), output_task.channels@.len() == self.num_outputs, block_size == self.block_size, si_s@ == self.output_edges@,
            forall|i: int| 0 <= i < si ==> self.output_is(self.output_edges@[i], #[trigger] output_task.channels@[i]),
            forall|i: int| si <= i < self.num_outputs ==> (#[trigger] output_task.channels@[i]) is None,
    @loopstart 0
        proof {
            let e = self.output_edges@[si as int]; assert(self.output_ok(e));
            if e is Some && e->0.source is Node { self.offset(e->0.source->Node_0, e->0.channel_in_source as int); }
        }
    @sig /OutputTask<F>/ => OutputTask
    @*/
    /// this change lets the parameter of a node follow an edge
    spec fn follows(self, c: ArParameterChange, k: NodeKey, j: int) -> bool {
        let e = self.node_parameter_edges@[k]@[j];
        self.node_parameter_edges.has(k) && 0 <= j < self.node_parameter_edges@[k]@.len() && c.node < self.len() && self.key(c.node as int) == k && c.parameter_index == e.parameter_index && self.is_channel(e.source, e.channel_in_source as int, c.buffer)
    }
    /// this change lets a parameter follow silence
    spec fn silences(self, c: ArParameterChange, d: (NodeKey, u16)) -> bool { c.node < self.len() && self.key(c.node as int) == d.0 && c.parameter_index == d.1 && of(c.buffer) == alloc(self.buffer_allocator.buffer) && at(c.buffer) == 0 && !null(c.buffer) }
    spec fn all_silenced(self, c: Seq<ArParameterChange>, d: Seq<(NodeKey, u16)>) -> bool {
        self.silenced_to(c, d, d.len() as int)
    }
    spec fn edge_followed(self, c: Seq<ArParameterChange>, n: int, k: NodeKey, j: int) -> bool { exists|m: int| n <= m < c.len() && self.follows(#[trigger] c[m], k, j) }
    /// the changes from n on follow edges
    spec fn only_edges(self, c: Seq<ArParameterChange>, n: int) -> bool { forall|m: int| n <= m < c.len() ==> self.some_edge(#[trigger] c[m]) }
    spec fn some_edge(self, c: ArParameterChange) -> bool { exists|k: NodeKey, j: int| self.follows(c, k, j) }
    /// First the parameters which were disconnected and have no edge, then those which have one: every edge has its change, and there are no others.
    spec fn changes_are(self, c: Seq<ArParameterChange>, n: int) -> bool {
        &&& 0 <= n <= c.len() && self.all_silenced(c.take(n), self.disconnected_parameters@)
        &&& self.only_edges(c, n)
        &&& forall|k: NodeKey, j: int| self.node_parameter_edges.has(k) && 0 <= j < self.node_parameter_edges@[k]@.len() && self.in_order(k) ==> #[trigger] self.edge_followed(c, n, k, j)
    }
    spec fn all_changes(self, c: Seq<ArParameterChange>) -> bool { exists|n: int| self.changes_are(c, n) }
    /*@extract knaster_graph/src/graph.rs | impl<F: Float> Graph<F> | generate_ar_parameter_changes | ret=r
    requires old(self).ready(),
    ensures
        final(self).disconnected_parameters@ == remaining(old(self).node_parameter_edges, old(self).disconnected_parameters@, old(self).disconnected_parameters@.len() as int),
        *final(self) == (Graph { disconnected_parameters: final(self).disconnected_parameters, ..*old(self) }),
        final(self).all_changes(r@),
        forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).node < old(self).len(),
    @sub? /self\.disconnected_parameters\.retain\(\|\((\w+), (\w+)\)\| \{(.*?)\n\s*\}\);/ => let mut kept: Vec<(NodeKey, u16)> = Vec::new(); for ri in 0..self.disconnected_parameters.len() { let \1 = &self.disconnected_parameters[ri].0; let \2 = &self.disconnected_parameters[ri].1; let keep = \3; if keep { kept.push(self.disconnected_parameters[ri]); } } self.disconnected_parameters = kept;
    @sub? /parameter_edges\s*\.get\((\*\w+)\)\s*\.is_some_and\(\|edges\| edges\.iter\(\)\.all\(\|e\| ([^;]*?)\)\)/ => match parameter_edges.get(\1) { Some(edges) => all_edges(edges, |e: &ParameterEdge| -> (b: bool) ensures b == (\2) { \2 }), None => false }
    @sub? /for \((\w+), (\w+)\) in &self\.disconnected_parameters \{/ => let ghost d = self.disconnected_parameters@; proof { self.ready_same(g); } for di in 0..self.disconnected_parameters.len() { let \1 = &self.disconnected_parameters[di].0; let \2 = &self.disconnected_parameters[di].1;
    @sub? /for \(node_key, edges\) in &self\.node_parameter_edges \{/ => let ghost n1 = apc@.len() as int; let ghost silenced = apc@; let m2 = self.node_parameter_edges.entries(); for mi in 0..m2.len() { let node_key = m2[mi].0; let edges = m2[mi].1;
    @sub? /for edge in edges \{/ => for ei in 0..edges.len() { let edge = &edges[ei];
    @sub? /let ParameterEdge \{\s*source,\s*channel_in_source,\s*parameter_index,\s*\} = \*edge;/ => let source = edge.source; let channel_in_source = edge.channel_in_source; let parameter_index = edge.parameter_index;
    @sub? /self\.node_order\.iter\(\)\.position\(\|k\| ([^()]*)\)/ => position(&self.node_order, |k: &NodeKey| -> (b: bool) ensures b == (\1) { \1 })
    @sub? /&self\.get_nodes\(\)\[(\w+)\]/ => self.nodes.at(\1)
    @sub? /let mut apc = Vec::new\(\);/ => let mut apc: Vec<ArParameterChange> = Vec::new();
    @sub? /\.expect\("[^"]*"\)/ => .unwrap()
    @sub? /assert!\(/ => check(
    @sub? /unsafe \{/ => {
    @start
        let ghost g = *self;
    @loop 0
        invariant
            *self == g, g == *old(self), parameter_edges == g.node_parameter_edges, kept@ == remaining(g.node_parameter_edges, g.disconnected_parameters@, ri as int),
    @loop 1
        invariant
            self.ready(), d == self.disconnected_parameters@, self.silenced_to(apc@, d, di as int),
            forall|i: int| 0 <= i < apc@.len() ==> (#[trigger] apc@[i]).node < self.len(),
    @loopstart 1
        let ghost a0 = apc@;
    @loopend 1
        proof { self.one_silenced(a0, apc@, d, di as int); }
    @loop 2
        invariant
            self.ready(), silenced.len() == n1, n1 <= apc@.len(), apc@.take(n1) =~= silenced, self.only_edges(apc@, n1),
            forall|i: int| 0 <= i < apc@.len() ==> (#[trigger] apc@[i]).node < self.len(),
            forall|i: int| 0 <= i < m2@.len() ==> self.node_parameter_edges.has((#[trigger] m2@[i]).0) && *m2@[i].1 == self.node_parameter_edges@[m2@[i].0],
            forall|i: int, j: int| 0 <= i < mi && 0 <= j < m2@[i].1@.len() && self.in_order(m2@[i].0) ==> #[trigger] self.edge_followed(apc@, n1, m2@[i].0, j),
    @loop 3
        invariant
            self.ready(), silenced.len() == n1, n1 <= apc@.len(), apc@.take(n1) =~= silenced, self.only_edges(apc@, n1), 0 <= mi < m2@.len(), node_key == m2@[mi as int].0, edges == m2@[mi as int].1,
            forall|i: int| 0 <= i < apc@.len() ==> (#[trigger] apc@[i]).node < self.len(),
            forall|i: int| 0 <= i < m2@.len() ==> self.node_parameter_edges.has((#[trigger] m2@[i]).0) && *m2@[i].1 == self.node_parameter_edges@[m2@[i].0],
            forall|i: int, j: int| 0 <= i < mi && 0 <= j < m2@[i].1@.len() && self.in_order(m2@[i].0) ==> #[trigger] self.edge_followed(apc@, n1, m2@[i].0, j),
            forall|j: int| 0 <= j < ei && self.in_order(node_key) ==> #[trigger] self.edge_followed(apc@, n1, node_key, j),
    @loopstart 3
        let ghost a0 = apc@;
        proof {
            assert(self.node_parameter_edges.has(m2@[mi as int].0));
            assert(self.edge_ok(self.node_parameter_edges@[node_key]@[ei as int]));
            self.offset(edge_at(edges@, ei as int).source, edge_at(edges@, ei as int).channel_in_source as int);
        }
    @loopend 3
        proof {
            if self.in_order(node_key) { assert(self.follows(apc@[apc@.len() - 1], node_key, ei as int)); }
            self.one_followed(a0, apc@, n1, node_key, ei as int);
        }
    @afterloop 2
        proof {
            assert forall|k: NodeKey, j: int| self.node_parameter_edges.has(k) && 0 <= j < self.node_parameter_edges@[k]@.len() && self.in_order(k) implies #[trigger] self.edge_followed(apc@, n1, k, j) by { let i = choose|i: int| 0 <= i < m2@.len() && (#[trigger] m2@[i]).0 == k; assert(self.edge_followed(apc@, n1, m2@[i].0, j)); }
            assert(self.changes_are(apc@, n1));
        }
    @sig /ArParameterChange<F>/ => ArParameterChange
    @*/
    proof fn ready_same(self, g: Graph)
        requires g.ready(), self == (Graph { disconnected_parameters: self.disconnected_parameters, graph_gen_communicator: self.graph_gen_communicator, recalculation_required: self.recalculation_required, ..g })
        ensures self.ready(), forall|l: Seq<(usize, Vec<(usize, usize)>)>| g.list_ok(l) ==> #[trigger] self.list_ok(l)
    {
        assert forall|i: int| 0 <= i < self.len() implies self.nodes.has(#[trigger] self.key(i)) && self.wired(self.key(i)) by { assert(g.nodes.has(g.key(i)) && g.wired(g.key(i))); }
        assert forall|i: int| 0 <= i < self.output_edges@.len() implies self.output_ok(#[trigger] self.output_edges@[i]) by { assert(g.output_ok(g.output_edges@[i])); }
        assert forall|k: NodeKey, j: int| self.node_parameter_edges.has(k) && 0 <= j < self.node_parameter_edges@[k]@.len() implies self.edge_ok(#[trigger] self.node_parameter_edges@[k]@[j]) by { assert(g.edge_ok(g.node_parameter_edges@[k]@[j])); }
        assert forall|l: Seq<(usize, Vec<(usize, usize)>)>| g.list_ok(l) implies #[trigger] self.list_ok(l) by { assert forall|i: int| 0 <= i < l.len() implies self.entry_ok(#[trigger] l[i]) by { assert(g.entry_ok(l[i])); } }
    }
    proof fn one_silenced(self, a: Seq<ArParameterChange>, b: Seq<ArParameterChange>, d: Seq<(NodeKey, u16)>, n: int)
        requires self.silenced_to(a, d, n), 0 <= n < d.len(), if self.in_order(d[n].0) { b.len() == a.len() + 1 && b.drop_last() =~= a && self.silences(b.last(), d[n]) } else { b =~= a }
        ensures self.silenced_to(b, d, n + 1)
    {
        assert forall|m: int| 0 <= m < b.len() implies self.some_silenced(#[trigger] b[m], d, n + 1) by {
            if m < a.len() { assert(b[m] == a[m]); assert(self.some_silenced(a[m], d, n)); let i = choose|i: int| 0 <= i < n && self.silences(a[m], #[trigger] d[i]); assert(self.silences(b[m], d[i])); } else { assert(self.silences(b[m], d[n])); }
        }
        assert forall|i: int| 0 <= i < n + 1 && self.in_order((#[trigger] d[i]).0) implies self.is_silenced(b, d[i]) by {
            if i < n { assert(self.is_silenced(a, d[i])); let m = choose|m: int| 0 <= m < a.len() && self.silences(#[trigger] a[m], d[i]); assert(b[m] == a[m]); } else { assert(self.silences(b[b.len() - 1], d[n])); }
        }
    }
    /// one change more: what was followed still is
    proof fn one_followed(self, a: Seq<ArParameterChange>, b: Seq<ArParameterChange>, n: int, k: NodeKey, e: int)
        requires 0 <= n <= a.len(), self.only_edges(a, n), if self.in_order(k) { b.len() == a.len() + 1 && b.drop_last() =~= a && self.follows(b.last(), k, e) } else { b =~= a }
        ensures self.only_edges(b, n), forall|l: NodeKey, j: int| self.edge_followed(a, n, l, j) ==> #[trigger] self.edge_followed(b, n, l, j), self.in_order(k) ==> self.edge_followed(b, n, k, e)
    {
        assert forall|m: int| n <= m < b.len() implies self.some_edge(#[trigger] b[m]) by { if m < a.len() { assert(b[m] == a[m]); assert(self.some_edge(a[m])); } else { assert(self.follows(b[m], k, e)); } }
        assert forall|l: NodeKey, j: int| self.edge_followed(a, n, l, j) implies #[trigger] self.edge_followed(b, n, l, j) by { let m = choose|m: int| n <= m < a.len() && self.follows(#[trigger] a[m], l, j); assert(b[m] == a[m]); }
        if self.in_order(k) { assert(self.follows(b[b.len() - 1], k, e)); }
    }
    spec fn silenced_to(self, c: Seq<ArParameterChange>, d: Seq<(NodeKey, u16)>, n: int) -> bool {
        &&& forall|m: int| 0 <= m < c.len() ==> self.some_silenced(#[trigger] c[m], d, n)
        &&& forall|i: int| 0 <= i < n && self.in_order((#[trigger] d[i]).0) ==> self.is_silenced(c, d[i])
    }
    spec fn some_silenced(self, c: ArParameterChange, d: Seq<(NodeKey, u16)>, n: int) -> bool { exists|i: int| 0 <= i < n && self.silences(c, #[trigger] d[i]) }
    spec fn is_silenced(self, c: Seq<ArParameterChange>, d: (NodeKey, u16)) -> bool { exists|m: int| 0 <= m < c.len() && self.silences(#[trigger] c[m], d) }
    proof fn ready_ugens(self, g: Graph)
        requires g.ready(), self.same_but_ugens(g)
        ensures self.ready(), forall|k: NodeKey, c: int, p: Ptr| self.nodes.has(k) ==> g.is_channel(k, c, p) == #[trigger] self.is_channel(k, c, p)
    {
        assert forall|k: NodeKey| g.nodes.has(k) implies #[trigger] self.nodes@[k].node_output == g.nodes@[k].node_output && self.nodes@[k].data == g.nodes@[k].data by {}
        assert forall|i: int| 0 <= i < self.len() implies self.nodes.has(#[trigger] self.key(i)) && self.wired(self.key(i)) by { assert(g.nodes.has(g.key(i)) && g.wired(g.key(i))); }
        assert forall|i: int| 0 <= i < self.output_edges@.len() implies self.output_ok(#[trigger] self.output_edges@[i]) by { assert(g.output_ok(g.output_edges@[i])); }
        assert forall|k: NodeKey, j: int| self.node_parameter_edges.has(k) && 0 <= j < self.node_parameter_edges@[k]@.len() implies self.edge_ok(#[trigger] self.node_parameter_edges@[k]@[j]) by { assert(g.edge_ok(g.node_parameter_edges@[k]@[j])); }
    }
    /// the inputs of nodes which are inputs of the graph: in range (buffers.vrs proves which they are)
    spec fn list_ok(self, l: Seq<(usize, Vec<(usize, usize)>)>) -> bool { forall|i: int| 0 <= i < l.len() ==> self.entry_ok(#[trigger] l[i]) }
    spec fn entry_ok(self, e: (usize, Vec<(usize, usize)>)) -> bool {
        e.0 < self.len() && forall|j: int| 0 <= j < e.1@.len() ==> (#[trigger] e.1@[j]).0 < self.num_inputs && e.1@[j].1 < self.nodes@[self.key(e.0 as int)].node_inputs@.len()
    }
    /// what is sent to the audio thread for g: this graph
    spec fn data_is(self, g: Graph, t: TaskData) -> bool {
        &&& g.tasks_are(t.tasks@) && t.node_task_order@ == g.node_order@
        &&& t.output_task.channels@.len() == g.num_outputs && forall|i: int| 0 <= i < t.output_task.channels@.len() ==> g.output_is(g.output_edges@[i], #[trigger] t.output_task.channels@[i])
        &&& self.all_changes(t.ar_parameter_changes@)
        &&& t.current_buffer_allocation == Some(g.buffer_allocator.buffer)
    }
    /*@extract knaster_graph/src/graph.rs | impl<F: Float> Graph<F> | generate_task_data | ret=r
    requires old(self).ready(), old(self).list_ok(graph_input_channels_to_nodes@),
    ensures
        final(self).data_is(*old(self), r), r.applied == applied_flag, r.graph_input_channels_to_nodes == graph_input_channels_to_nodes,
        fine(r, old(self).num_inputs as nat, old(self).num_outputs as nat),
        forall|n: int| #[trigger] old(self).placed(n) ==> fits(r.tasks@, n),
        final(self).same_but_ugens(Graph { disconnected_parameters: final(self).disconnected_parameters, ..*old(self) }),
        final(self).settled(),
        *final(self) == (Graph { nodes: final(self).nodes, disconnected_parameters: final(self).disconnected_parameters, ..*old(self) }),
        final(self).disconnected_parameters@ == remaining(old(self).node_parameter_edges, old(self).disconnected_parameters@, old(self).disconnected_parameters@.len() as int),
    @start
        let ghost g = *self;
    @sub? /self\.generate_tasks\(\)\.into_boxed_slice\(\);/ => self.generate_tasks(); proof { self.ready_ugens(g); } let ghost g1 = *self;
    @sub? /let ar_parameter_changes = self\.generate_ar_parameter_changes\(\);/ => let ar_parameter_changes = self.generate_ar_parameter_changes(); proof { g.data_fine(g1, tasks@, output_task, graph_input_channels_to_nodes@); }
    @sub? /self\.node_order\.clone\(\)/ => cloned(&self.node_order)
    @sig /TaskData<F>/ => TaskData
    @sig /Arc<AtomicBool>/ => Opaque
    @*/
    // ------------------------------------------------------------------ a commit
    /// the last TaskData which was sent has so many tasks
    spec fn last_len(self) -> int { let s = self.graph_gen_communicator.new_task_data_producer.sent(); if s.len() == 0 { 0 } else { s.last().tasks@.len() as int } }
    /// of every node which is not to be removed, the UGen is where it belongs: with the node, or at its own place in the last TaskData
    spec fn held(self) -> bool {
        &&& forall|k: NodeKey| #[trigger] self.node_input_edges.has(k) ==> match self.nodes@[k].ugen { NodeUGen::Local(u) => u is Dyn, NodeUGen::Live(i) => i < self.last_len() }
        &&& forall|k: NodeKey, l: NodeKey| #[trigger] self.node_input_edges.has(k) && #[trigger] self.node_input_edges.has(l) && k != l && self.nodes@[k].ugen is Live && self.nodes@[l].ugen is Live ==> self.nodes@[k].ugen->Live_0 != self.nodes@[l].ugen->Live_0
    }
    proof fn placed_now(self, g: Graph, n: int)
        requires g.held(), n == g.last_len(), forall|k: NodeKey| #[trigger] self.in_order(k) ==> g.node_input_edges.has(k) && self.nodes@[k].ugen == g.nodes@[k].ugen
        ensures self.placed(n)
    {
        assert forall|k: NodeKey, l: NodeKey| #[trigger] self.in_order(k) && #[trigger] self.in_order(l) && k != l && self.nodes@[k].ugen is Live && self.nodes@[l].ugen is Live implies self.nodes@[k].ugen->Live_0 != self.nodes@[l].ugen->Live_0 by { assert(g.node_input_edges.has(k) && g.node_input_edges.has(l)); }
    }
    spec fn same_ugens(self, g: Graph) -> bool { forall|k: NodeKey| #[trigger] self.node_input_edges.has(k) ==> self.nodes@[k].ugen == g.nodes@[k].ugen }
    proof fn held_still(self, g: Graph)
        requires g.held(), self.same_ugens(g), self.last_len() == g.last_len(), forall|k: NodeKey| #[trigger] self.node_input_edges.has(k) ==> g.node_input_edges.has(k)
        ensures self.held()
    {
        assert forall|k: NodeKey, l: NodeKey| #[trigger] self.node_input_edges.has(k) && #[trigger] self.node_input_edges.has(l) && k != l && self.nodes@[k].ugen is Live && self.nodes@[l].ugen is Live implies self.nodes@[k].ugen->Live_0 != self.nodes@[l].ugen->Live_0 by { assert(g.node_input_edges.has(k) && g.node_input_edges.has(l)); }
    }
    /// A node which is added, with a UGen of its own
    proof fn held_with_one_more(self, g: Graph, n: NodeKey)
        requires g.held(), self.last_len() == g.last_len(), self.nodes@[n].ugen matches NodeUGen::Local(u) && u is Dyn,
            forall|k: NodeKey| #[trigger] self.node_input_edges.has(k) ==> k == n || g.node_input_edges.has(k) && self.nodes@[k].ugen == g.nodes@[k].ugen
        ensures self.held()
    {
        assert forall|k: NodeKey, l: NodeKey| #[trigger] self.node_input_edges.has(k) && #[trigger] self.node_input_edges.has(l) && k != l && self.nodes@[k].ugen is Live && self.nodes@[l].ugen is Live implies self.nodes@[k].ugen->Live_0 != self.nodes@[l].ugen->Live_0 by { assert(k != n && l != n); assert(g.node_input_edges.has(k) && g.node_input_edges.has(l)); }
    }
    /// Nodes are marked for removal, which takes their edges and asks for a new TaskData, or removed when they had no edges any more (connect.vrs has it)
    #[verifier::external_body]
    fn free_old(&mut self)
        ensures
            final(self).same_ugens(*old(self)), final(self).graph_gen_communicator == old(self).graph_gen_communicator,
            forall|k: NodeKey| #[trigger] final(self).node_input_edges.has(k) ==> old(self).node_input_edges.has(k),
            old(self).recalculation_required ==> final(self).recalculation_required,
    { unimplemented!() }
    /// order.vrs has it
    #[verifier::external_body]
    fn calculate_node_order(&mut self)
        ensures
            final(self).node_order@.no_duplicates(), forall|k: NodeKey| #[trigger] final(self).in_order(k) <==> old(self).node_input_edges.has(k),
            *final(self) == (Graph { node_order: final(self).node_order, rest: final(self).rest, ..*old(self) }),
    { unimplemented!() }
    /// buffers.vrs has it
    #[verifier::external_body]
    fn allocate_node_buffers(&mut self) -> (r: Vec<(usize, Vec<(usize, usize)>)>)
        requires old(self).node_order@.no_duplicates()
        ensures
            final(self).ready(), final(self).list_ok(r@), final(self).same_ugens(*old(self)),
            *final(self) == (Graph { nodes: final(self).nodes, buffer_allocator: final(self).buffer_allocator, rest: final(self).rest, ..*old(self) }),
    { unimplemented!() }
    /// t is this graph, and fits what was sent before it
    spec fn is_next(self, g: Graph, h: Graph, t: TaskData, before: int) -> bool {
        // g and h are this graph before and after it was made, but for what goes on with the channel to the audio thread
        &&& h == (Graph { graph_gen_communicator: h.graph_gen_communicator, recalculation_required: h.recalculation_required, ..self })
        &&& g.ready() && h.data_is(g, t) && self.same_but_ugens(Graph { disconnected_parameters: self.disconnected_parameters, graph_gen_communicator: self.graph_gen_communicator, recalculation_required: false, ..g })
        &&& forall|k: NodeKey| #[trigger] self.in_order(k) <==> self.node_input_edges.has(k)
        &&& fits(t.tasks@, before) && fine(t, self.num_inputs as nat, self.num_outputs as nat)
    }
    spec fn sent_next(self, t: TaskData, before: int) -> bool { exists|g: Graph, h: Graph| self.is_next(g, h, t, before) }
    /*@extract knaster_graph/src/graph.rs | impl<F: Float> Graph<F> | commit_changes | ret=r
    requires old(self).held(),
    ensures
        final(self).held(),
        // nothing is sent, and the changes wait for the next commit
        r is Err ==> final(self).recalculation_required && final(self).idle(*old(self)),
        // all of them are sent, at once, with the flag the changes of parameters before it carry
        r is Ok ==> !final(self).recalculation_required || final(self).idle(*old(self)) && !old(self).recalculation_required,
        r is Ok && old(self).recalculation_required ==> final(self).sent_one(*old(self)),
        r is Ok && !old(self).recalculation_required ==> final(self).sent_one(*old(self)) || final(self).idle(*old(self)),
    @start
        let ghost g0 = *self;
    @sub? /(?:std|crate::core|core)::mem::replace/ => replace
    @sub? /Arc::new\(AtomicBool::new\(false\)\)/ => new_flag()
    @sub? /GraphError::SendToGraphGen\(\s*"[^"]*"\.into\(\),?\s*\)/ => GraphError::SendToGraphGen
    @sub? /self\.free_old\(\);/ => self.free_old(); let ghost g1 = *self; proof { g1.held_still(g0); }
    @sub? /self\.calculate_node_order\(\);/ => self.calculate_node_order(); let ghost g2 = *self;
    @sub? /(let \w+ = self\.allocate_node_buffers\(\);)/ => \1 let ghost g3 = *self; proof { g3.held_still(g1); }
    @sub? /(let (\w+)\s*=\s*self\.generate_task_data\([^;]*;)/ => let ghost g4 = *self; proof { self.ready_same(g3); assert forall|k: NodeKey| #[trigger] g4.in_order(k) implies g1.node_input_edges.has(k) && g4.nodes@[k].ugen == g1.nodes@[k].ugen by { assert(g2.in_order(k)); assert(g3.node_input_edges.has(k)); } g4.placed_now(g1, g0.last_len()); } \1 let ghost t4 = \2; let ghost g5 = *self;
    @sub? /self\.recalculation_required = false;/ => self.recalculation_required = false; proof { assert forall|k: NodeKey| #[trigger] self.in_order(k) <==> self.node_input_edges.has(k) by { assert(g2.in_order(k) <==> g1.node_input_edges.has(k)); } self.was_sent(g4, g5, t4, g0.last_len()); assert(self.graph_gen_communicator.new_task_data_producer.sent().drop_last() =~= g0.graph_gen_communicator.new_task_data_producer.sent()); }
    @*/
    spec fn sent_one(self, g: Graph) -> bool {
        let s = self.graph_gen_communicator.new_task_data_producer.sent();
        &&& s.len() > 0 && s.drop_last() == g.graph_gen_communicator.new_task_data_producer.sent()
        &&& self.sent_next(s.last(), g.last_len())
        &&& s.last().applied == g.graph_gen_communicator.next_change_flag && fresh(self.graph_gen_communicator.next_change_flag)
    }
    spec fn idle(self, g: Graph) -> bool { self.graph_gen_communicator.new_task_data_producer == g.graph_gen_communicator.new_task_data_producer && self.graph_gen_communicator.next_change_flag == g.graph_gen_communicator.next_change_flag }
    proof fn was_sent(self, g: Graph, h: Graph, t: TaskData, before: int)
        requires g.ready(), h.data_is(g, t), h == (Graph { graph_gen_communicator: h.graph_gen_communicator, recalculation_required: h.recalculation_required, ..self }), g.placed(before), fine(t, self.num_inputs as nat, self.num_outputs as nat), g.placed(before) ==> fits(t.tasks@, before), self.settled(), self.node_order@.no_duplicates(),
            self.same_but_ugens(Graph { disconnected_parameters: self.disconnected_parameters, graph_gen_communicator: self.graph_gen_communicator, recalculation_required: false, ..g }),
            forall|k: NodeKey| #[trigger] self.in_order(k) <==> self.node_input_edges.has(k), self.last_len() == t.tasks@.len(),
        ensures self.sent_next(t, before), self.held()
    {
        assert(self.is_next(g, h, t, before));
        self.settled_is_placed(self);
        assert(self.placed(self.len()));
        assert forall|k: NodeKey| #[trigger] self.node_input_edges.has(k) implies (match self.nodes@[k].ugen { NodeUGen::Local(u) => u is Dyn, NodeUGen::Live(i) => i < self.last_len() }) by { assert(self.in_order(k)); }
        assert forall|k: NodeKey, l: NodeKey| #[trigger] self.node_input_edges.has(k) && #[trigger] self.node_input_edges.has(l) && k != l && self.nodes@[k].ugen is Live && self.nodes@[l].ugen is Live implies self.nodes@[k].ugen->Live_0 != self.nodes@[l].ugen->Live_0 by { assert(self.in_order(k) && self.in_order(l)); }
    }
    proof fn data_fine(self, g1: Graph, t: Seq<Task>, o: OutputTask, l: Seq<(usize, Vec<(usize, usize)>)>)
        requires self.ready(), self.list_ok(l), self.tasks_are(t), g1.same_but_ugens(self), o.channels@.len() == self.num_outputs, forall|i: int| 0 <= i < o.channels@.len() ==> g1.output_is(self.output_edges@[i], #[trigger] o.channels@[i]),
        ensures
            forall|i: int| 0 <= i < o.channels@.len() ==> self.output_is(self.output_edges@[i], #[trigger] o.channels@[i]) && match o.channels@[i] { Some(BlockOrGraphInput::GraphInput(c)) => c < self.num_inputs, _ => true },
            forall|i: int| 0 <= i < l.len() ==> inputs_fine(t, #[trigger] l[i], self.num_inputs as nat),
            forall|n: int| #[trigger] self.placed(n) ==> fits(t, n),
    {
        g1.ready_ugens(self);
        assert forall|i: int| 0 <= i < o.channels@.len() implies self.output_is(self.output_edges@[i], #[trigger] o.channels@[i]) && (match o.channels@[i] { Some(BlockOrGraphInput::GraphInput(c)) => c < self.num_inputs, _ => true }) by { assert(self.output_ok(self.output_edges@[i])); assert(g1.output_is(self.output_edges@[i], o.channels@[i])); }
        assert forall|i: int| 0 <= i < l.len() implies inputs_fine(t, #[trigger] l[i], self.num_inputs as nat) by { assert(self.entry_ok(l[i])); assert(self.nodes@[self.key(l[i].0 as int)].task_is(t[l[i].0 as int])); }
        assert forall|n: int| #[trigger] self.placed(n) implies fits(t, n) by { self.tasks_fit(t, n); }
    }
}
}
fn main() {}
