/// HashSet<NodeKey>
#[verifier::external_body]
pub struct KeySet { x: Vec<u64> }
impl KeySet {
    pub uninterp spec fn view(&self) -> Set<NodeKey>;
    #[verifier::external_body]
    fn new() -> (r: Self) ensures r@ == Set::<NodeKey>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn contains(&self, k: &NodeKey) -> (r: bool) ensures r == self@.contains(*k) { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, k: NodeKey) -> (r: bool) ensures r == !old(self)@.contains(k), final(self)@ == old(self)@.insert(k) { unimplemented!() }
}
/// `v.iter().any(|(key, _)| key == k)`
#[verifier::external_body]
fn has_key(v: &Vec<(NodeKey, Opaque)>, k: &NodeKey) -> (r: bool) ensures r == exists|i: int| 0 <= i < v@.len() && (#[trigger] v@[i]).0 == *k { unimplemented!() }
/// a clone of the flag of the next change
#[verifier::external_body]
fn next_change_flag() -> Opaque { unimplemented!() }
/// an AtomicBool which is only ever set
uninterp spec fn flag_set(flag: Opaque) -> bool;
#[verifier::external_body]
fn load_flag(flag: &Opaque) -> (r: bool) ensures r ==> flag_set(*flag) { unimplemented!() }
/// Arc::strong_count == 1
uninterp spec fn sole(b: Opaque) -> bool;
#[verifier::external_body]
fn only_owner(b: &Opaque) -> (r: bool) ensures r == sole(*b) { unimplemented!() }
/*@struct knaster_graph/src/edge.rs | Edge @*/
impl Copy for Edge {}
impl Clone for Edge { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
/*@enum knaster_graph/src/edge.rs | NodeKeyOrGraph @*/
impl Copy for NodeKeyOrGraph {}
impl Clone for NodeKeyOrGraph { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
/*@struct knaster_graph/src/edge.rs | ParameterEdge @*/
pub type GraphId = u64;
pub struct NodeId { key: NodeKey, graph: GraphId }
impl Copy for NodeId {}
impl Clone for NodeId { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl NodeId {
    /*@extract knaster_graph/src/graph.rs | impl NodeId | key | ret=r
    ensures r == self.key,
    @*/
}
/// of Node and NodeData, what is used here
struct NodeData { inputs: u16, outputs: u16, parameters: u16 }
struct Node { data: NodeData, auto_math_node: bool, auto_free_when_unconnected: bool, strong_dependent: Option<NodeKey>, remove_me: Option<Opaque>, rest: Opaque }
/// of Graph, the fields which are used here; `nodes` is inside an Arc<UnsafeCell>
struct Graph {
    graph_id: GraphId,
    nodes: SlotMap<Node>,
    node_keys_to_free_when_safe: Vec<(NodeKey, Opaque)>,
    node_input_edges: SlotMap<Vec<Option<Edge>>>,
    node_parameter_edges: SlotMap<Vec<ParameterEdge>>,
    disconnected_parameters: Vec<(NodeKey, u16)>,
    node_mortality: SlotMap<bool>,
    node_order: Vec<NodeKey>,
    disconnected_nodes: Vec<NodeKey>,
    output_edges: Vec<Option<Edge>>,
    recalculation_required: bool,
    num_inputs: u16,
    num_outputs: u16,
    buffers_to_free_when_safe: Vec<Opaque>,
}
impl Graph {
    spec fn ins(self, k: NodeKey) -> Seq<Option<Edge>> { self.node_input_edges@[k]@ }
    spec fn pars(self, k: NodeKey) -> Seq<ParameterEdge> { self.node_parameter_edges@[k]@ }
    spec fn nodes_with_edges(self) -> Set<NodeKey> { self.node_input_edges@.dom() }
    spec fn in_edge(self, s: NodeKey, k: NodeKey, j: int) -> bool { 0 <= j < self.ins(k).len() && self.ins(k)[j] is Some && self.ins(k)[j]->0.source == NodeKeyOrGraph::Node(s) }
    spec fn par_edge(self, s: NodeKey, k: NodeKey, j: int) -> bool { 0 <= j < self.pars(k).len() && self.pars(k)[j].source == s }
    /// k reads the output of s
    spec fn reads(self, k: NodeKey, s: NodeKey) -> bool { (exists|j: int| self.in_edge(s, k, j)) || (exists|j: int| self.par_edge(s, k, j)) }
    /// every node has its edges, and they lead to nodes which are there
    spec fn wf(self) -> bool {
        &&& forall|k: NodeKey| #![trigger self.node_input_edges.has(k)] #![trigger self.node_parameter_edges.has(k)] self.node_input_edges.has(k) <==> self.node_parameter_edges.has(k)
        &&& forall|k: NodeKey, s: NodeKey| #[trigger] self.dep(k, s) ==> self.node_input_edges.has(s)
    }
    /// k is in the graph and reads the output of s
    spec fn dep(self, k: NodeKey, s: NodeKey) -> bool { self.node_input_edges.has(k) && self.reads(k, s) }
    /// a rank which grows along every edge, so that there is no cycle
    spec fn ranked(self, r: spec_fn(NodeKey) -> nat) -> bool { forall|k: NodeKey, s: NodeKey| #[trigger] self.dep(k, s) ==> r(s) < r(k) }
    spec fn acyclic(self) -> bool { exists|r: spec_fn(NodeKey) -> nat| self.ranked(r) }
    spec fn pending(self, k: NodeKey) -> bool { exists|i: int| 0 <= i < self.node_keys_to_free_when_safe@.len() && (#[trigger] self.node_keys_to_free_when_safe@[i]).0 == k }
    /// the nodes which are not about to be removed are those with edges, and the outputs lead to those
    spec fn all_nodes(self) -> bool {
        &&& forall|k: NodeKey| #![trigger self.node_input_edges.has(k)] #![trigger self.nodes.has(k)] self.node_input_edges.has(k) <==> self.nodes.has(k) && !self.pending(k)
        &&& forall|j: int| 0 <= j < self.output_edges@.len() && (#[trigger] self.output_edges@[j]) is Some && self.output_edges@[j]->0.source is Node ==> self.node_input_edges.has(self.output_edges@[j]->0.source->Node_0)
    }
}
