use vstd::prelude::*;
verus! {
/*@include gr.inc @*/
/*@include gg.inc @*/
pub struct ParameterError { x: u8 }
pub struct Text { x: u8 }
/*@enum knaster_graph/src/graph.rs | FreeError @*/
/*@enum knaster_graph/src/graph.rs | GraphError | /\bString\b/ => Text @*/
/*@enum knaster_graph/src/graph.rs | NodeOrGraph @*/
/*@enum knaster_core/src/parameters.rs | Param | /&'static str/ => Text @*/
spec fn key_of(n: NodeOrGraph) -> NodeKeyOrGraph { match n { NodeOrGraph::Node(s) => NodeKeyOrGraph::Node(s.key), NodeOrGraph::Graph => NodeKeyOrGraph::Graph } }
impl NodeKeyOrGraph {
    /*@extract knaster_graph/src/edge.rs | impl From<NodeOrGraph> for NodeKeyOrGraph | from | ret=r
    ensures r == key_of(value),
    @*/
}
/// the derived `==`
fn same_source(a: &NodeKeyOrGraph, b: &NodeKeyOrGraph) -> (r: bool) ensures r == (*a == *b) { match (a, b) { (NodeKeyOrGraph::Node(a), NodeKeyOrGraph::Node(b)) => *a == *b, (NodeKeyOrGraph::Graph, NodeKeyOrGraph::Graph) => true, _ => false } }
fn check_eq(a: u16, b: u16) requires a == b {}
#[verifier::external_body]
fn unreached<T>() -> (r: T) requires false { unimplemented!() }
/// `a.iter().flatten().peekable().peek().is_some()`
fn some_edge(a: &Vec<Option<Edge>>) -> (r: bool) ensures r == Graph::any_edge(a@) { for i in 0..a.len() invariant forall|j: int| 0 <= j < i ==> (#[trigger] a@[j]) is None { if a[i].is_some() { assert(a@[i as int] is Some); return true; } } false }
/// a UGen type, by its numbers of channels
trait Gen { spec fn inputs() -> u16; spec fn outputs() -> u16; }
/// MathUGen::<F, U1, Add>
struct MathAdd { x: u8 }
impl Gen for MathAdd { spec fn inputs() -> u16 { 2 } spec fn outputs() -> u16 { 1 } }
struct FeedbackSink { x: u8 }
impl Gen for FeedbackSink { spec fn inputs() -> u16 { 1 } spec fn outputs() -> u16 { 0 } }
struct FeedbackSource { x: u8 }
impl Gen for FeedbackSource { spec fn inputs() -> u16 { 0 } spec fn outputs() -> u16 { 1 } }
impl Node {
    spec fn same_node(self, n: Node) -> bool { self.data == n.data && self.auto_math_node == n.auto_math_node && self.auto_free_when_unconnected == n.auto_free_when_unconnected && self.strong_dependent == n.strong_dependent }
    #[verifier::external_body]
    fn new<T: Gen>(ugen: T) -> (r: Self) ensures r.data.inputs == T::inputs(), r.data.outputs == T::outputs(), !r.auto_math_node, !r.auto_free_when_unconnected, r.strong_dependent is None { unimplemented!() }
    #[verifier::external_body]
    fn init(self) -> (r: Self) ensures r.same_node(self) { unimplemented!() }
}
struct RawHandle { node: NodeId }
impl RawHandle { fn new(node: NodeId) -> (r: Self) ensures r.node == node { RawHandle { node } } }
struct Handle { raw_handle: RawHandle }
impl Handle { fn new(raw_handle: RawHandle) -> (r: Self) ensures r.raw_handle == raw_handle { Handle { raw_handle } } }
/// `vec![None; n]`
fn no_edges(n: usize) -> (r: Vec<Option<Edge>>) ensures r@ == Seq::new(n as nat, |i: int| None::<Edge>)
{
    let mut r = Vec::new();
    for i in 0..n invariant r@ == Seq::new(i as nat, |i: int| None::<Edge>) { r.push(None); proof { assert(r@ =~= Seq::new((i + 1) as nat, |i: int| None::<Edge>)); } }
    r
}
fn push_sources(a: &mut Vec<NodeKey>, b: &Vec<ParameterEdge>) ensures final(a)@ == old(a)@ + Seq::new(b@.len(), |i: int| b@[i].source)
{
    for i in 0..b.len() invariant a@ == old(a)@ + Seq::new(i as nat, |i: int| b@[i].source) { a.push(b[i].source); proof { assert(a@ =~= old(a)@ + Seq::new((i + 1) as nat, |i: int| b@[i].source)); } }
}
spec fn is_path(g: Graph, p: Seq<NodeKey>) -> bool { p.len() > 0 && forall|i: int| 0 <= i < p.len() - 1 ==> g.dep(#[trigger] p[i], p[i + 1]) }
proof fn grown(a: Seq<NodeKey>, x: NodeKey)
    ensures a.push(x).contains(x), forall|k: NodeKey| #[trigger] a.contains(k) ==> a.push(x).contains(k)
{
    assert(a.push(x)[a.len() as int] == x);
    assert forall|k: NodeKey| #[trigger] a.contains(k) implies a.push(x).contains(k) by { let i = choose|i: int| 0 <= i < a.len() && a[i] == k; assert(a.push(x)[i] == k); }
}
impl Graph {
    /// the output of `from` can reach `to` without feedback
    spec fn path(self, from: NodeKey, to: NodeKey) -> bool { exists|p: Seq<NodeKey>| #[trigger] is_path(self, p) && p[0] == to && p.last() == from }
    /// what is in v reads only from v
    spec fn closed(self, v: spec_fn(NodeKey) -> bool) -> bool { forall|k: NodeKey, s: NodeKey| #[trigger] self.dep(k, s) && v(k) ==> v(s) }
    /// there is a set of nodes with `to`, and everything it depends on, which does not have `from`
    spec fn separated(self, from: NodeKey, to: NodeKey) -> bool { exists|v: spec_fn(NodeKey) -> bool| #[trigger] self.closed(v) && v(to) && !v(from) }
    proof fn no_path(self, from: NodeKey, to: NodeKey)
        requires self.separated(from, to)
        ensures !self.path(from, to)
    {
        if self.path(from, to) {
            let v = choose|v: spec_fn(NodeKey) -> bool| #[trigger] self.closed(v) && v(to) && !v(from);
            let p = choose|p: Seq<NodeKey>| #[trigger] is_path(self, p) && p[0] == to && p.last() == from;
            self.stays(v, p, p.len() - 1);
        }
    }
    proof fn stays(self, v: spec_fn(NodeKey) -> bool, p: Seq<NodeKey>, i: int)
        requires self.closed(v), is_path(self, p), v(p[0]), 0 <= i < p.len()
        ensures v(p[i])
        decreases i
    {
        if i > 0 { self.stays(v, p, i - 1); assert(self.dep(p[i - 1], p[i - 1 + 1])); }
    }
    proof fn longer(self, s: NodeKey, k: NodeKey, to: NodeKey)
        requires self.path(k, to), self.dep(k, s)
        ensures self.path(s, to)
    {
        let p = choose|p: Seq<NodeKey>| #[trigger] is_path(self, p) && p[0] == to && p.last() == k;
        let q = p.push(s);
        assert forall|i: int| 0 <= i < q.len() - 1 implies self.dep(#[trigger] q[i], q[i + 1]) by { if i < p.len() - 1 { assert(self.dep(p[i], p[i + 1])); } }
        assert(is_path(self, q) && q[0] == to && q.last() == s);
    }
    proof fn appended(self, a: Seq<NodeKey>, b: Seq<NodeKey>, node: NodeKey, to: NodeKey)
        requires self.wf(), self.node_input_edges.has(node), self.path(node, to), b == a + Seq::new(self.pars(node).len(), |i: int| self.pars(node)[i].source),
            forall|i: int| 0 <= i < a.len() ==> self.node_input_edges.has(#[trigger] a[i]) && self.path(a[i], to),
        ensures
            forall|i: int| 0 <= i < b.len() ==> self.node_input_edges.has(#[trigger] b[i]) && self.path(b[i], to),
            forall|k: NodeKey| #[trigger] a.contains(k) ==> b.contains(k),
            forall|s: NodeKey, j: int| #[trigger] self.par_edge(s, node, j) ==> b.contains(s),
    {
        assert forall|i: int| 0 <= i < b.len() implies self.node_input_edges.has(#[trigger] b[i]) && self.path(b[i], to) by {
            if i < a.len() { assert(b[i] == a[i]); } else { let j = i - a.len(); assert(self.par_edge(b[i], node, j)); assert(self.dep(node, b[i])); self.longer(b[i], node, to); }
        }
        assert forall|k: NodeKey| #[trigger] a.contains(k) implies b.contains(k) by { let i = choose|i: int| 0 <= i < a.len() && a[i] == k; assert(b[i] == k); }
        assert forall|s: NodeKey, j: int| #[trigger] self.par_edge(s, node, j) implies b.contains(s) by { assert(b[a.len() + j] == s); }
    }
    proof fn step(self, st0: Seq<NodeKey>, st: Seq<NodeKey>, v0: Set<NodeKey>, v: Set<NodeKey>, node: NodeKey, to: NodeKey)
        requires
            st0.len() > 0, node == st0.last(), v == v0.insert(node), forall|k: NodeKey| #[trigger] st0.drop_last().contains(k) ==> st.contains(k),
            v0.contains(to) || st0.contains(to),
            forall|k: NodeKey, s: NodeKey| #[trigger] self.dep(k, s) && v0.contains(k) ==> v0.contains(s) || st0.contains(s),
            v0.contains(node) || forall|s: NodeKey| #[trigger] self.dep(node, s) ==> st.contains(s),
        ensures
            v.contains(to) || st.contains(to),
            forall|k: NodeKey, s: NodeKey| #[trigger] self.dep(k, s) && v.contains(k) ==> v.contains(s) || st.contains(s),
    {
        assert forall|k: NodeKey| #[trigger] st0.contains(k) implies st.contains(k) || v.contains(k) by {
            let i = choose|i: int| 0 <= i < st0.len() && st0[i] == k;
            if i < st0.len() - 1 { let d = st0.drop_last(); assert(d.len() == st0.len() - 1 && d[i] == k); assert(d.contains(k)); assert(st.contains(k)); } else { assert(v.contains(node)); }
        }
    }
    proof fn done(self, v: Set<NodeKey>, from: NodeKey, to: NodeKey)
        requires !v.contains(from), v.contains(to), forall|k: NodeKey, s: NodeKey| #[trigger] self.dep(k, s) && v.contains(k) ==> v.contains(s)
        ensures self.separated(from, to), !self.path(from, to)
    {
        let f = |k: NodeKey| v.contains(k);
        assert(self.closed(f) && f(to) && !f(from));
        self.no_path(from, to);
    }
    /*@extract knaster_graph/src/graph.rs | impl<F: Float> Graph<F> | has_path | ret=r
    requires self.wf(), self.node_input_edges.has(to.key),
    ensures
        r == self.path(from.key, to.key),
        !r ==> self.separated(from.key, to.key),
    @sig /^/ => #[verifier::loop_isolation(false)]\n
    @sub? /HashSet::new\(\)/ => KeySet::new()
    @sub? /while let Some\(node\) = stack\.pop\(\) \{/ => while stack.len() > 0 { let node = stack.pop().unwrap();
    @sub? /stack\.extend\(edges\.iter\(\)\.map\(\|edge\| edge\.source\)\)/ => push_sources(&mut stack, edges)
    @sub? /let from = from\.key;/ => let from = from.key; proof { let p = seq![to.key]; assert(is_path(*self, p) && p[0] == to.key && p.last() == to.key); }
    @loop 0
        invariant
            self.wf(), self.node_input_edges.has(to.key),
            forall|i: int| 0 <= i < stack@.len() ==> self.node_input_edges.has(#[trigger] stack@[i]) && self.path(stack@[i], to.key),
            visited@.subset_of(self.nodes_with_edges()), !visited@.contains(from),
            visited@.contains(to.key) || stack@.contains(to.key),
            forall|k: NodeKey, s: NodeKey| #[trigger] self.dep(k, s) && visited@.contains(k) ==> visited@.contains(s) || stack@.contains(s),
        decreases self.nodes_with_edges().difference(visited@).len(), stack@.len(),
    @loopstart 0
        let ghost v0 = visited@;
        let ghost st0 = stack@;
    @unfold 1 ai
    @loop 1
        invariant
            ai_it.iter.end == self.ins(node).len(), ai_it.snapshot.end == self.ins(node).len(), ai_s@ == self.ins(node), self.wf(), self.node_input_edges.has(node), self.path(node, to.key),
            forall|i: int| 0 <= i < stack@.len() ==> self.node_input_edges.has(#[trigger] stack@[i]) && self.path(stack@[i], to.key),
            forall|k: NodeKey| #[trigger] st0.drop_last().contains(k) ==> stack@.contains(k),
            forall|s: NodeKey, j: int| 0 <= j < ai && #[trigger] self.in_edge(s, node, j) ==> stack@.contains(s),
    @sub? /stack\.push\(parent\);/ => let ghost sp = stack@; proof { assert(self.in_edge(parent, node, ai as int)); assert(self.dep(node, parent)); self.longer(parent, node, to.key); } stack.push(parent); proof { grown(sp, parent); assert(sp.push(parent) == stack@); }
    @sub? /push_sources\(&mut stack, edges\)/ => let ghost sq = stack@; push_sources(&mut stack, edges); proof { self.appended(sq, stack@, node, to.key); }
    @loopend 0
        proof {
            if !v0.contains(node) {
                let d = self.nodes_with_edges();
                assert(d.difference(visited@) =~= d.difference(v0).remove(node));
                assert(d.difference(v0).contains(node));
            } else { assert(visited@ =~= v0); }
            self.step(st0, stack@, v0, visited@, node, to.key);
        }
    @afterloop 0
        proof { self.done(visited@, from, to.key); }
    @*/

    // ---- what a graph must keep
    spec fn edge_ok(self, e: Edge) -> bool {
        match e.source {
            NodeKeyOrGraph::Node(s) => self.node_input_edges.has(s) && e.channel_in_source < self.nodes@[s].data.outputs,
            NodeKeyOrGraph::Graph => e.channel_in_source < self.num_inputs,
        }
    }
    spec fn ins_ok(self, k: NodeKey) -> bool {
        &&& self.ins(k).len() == self.nodes@[k].data.inputs
        &&& forall|j: int| 0 <= j < self.ins(k).len() && (#[trigger] self.ins(k)[j]) is Some ==> self.edge_ok(self.ins(k)[j]->0)
    }
    spec fn par_ok(self, k: NodeKey, e: ParameterEdge) -> bool { self.node_input_edges.has(e.source) && e.channel_in_source < self.nodes@[e.source].data.outputs && e.parameter_index < self.nodes@[k].data.parameters }
    spec fn pars_ok(self, k: NodeKey) -> bool {
        &&& forall|j: int| 0 <= j < self.pars(k).len() ==> self.par_ok(k, #[trigger] self.pars(k)[j])
        &&& distinct(self.pars(k))
    }
    /// every edge leads to something which is there
    spec fn edges_ok(self) -> bool {
        &&& forall|k: NodeKey| #[trigger] self.node_input_edges.has(k) ==> self.ins_ok(k) && self.pars_ok(k)
        &&& self.output_edges@.len() == self.num_outputs
        &&& forall|j: int| 0 <= j < self.output_edges@.len() && (#[trigger] self.output_edges@[j]) is Some ==> self.edge_ok(self.output_edges@[j]->0)
    }
    spec fn nodes_ok(self) -> bool {
        &&& forall|k: NodeKey| #[trigger] self.nodes.has(k) ==> self.node_mortality.has(k)
        &&& forall|k: NodeKey| #[trigger] self.nodes.has(k) && self.nodes@[k].auto_math_node ==> self.nodes@[k].data.inputs == 2 && self.nodes@[k].data.outputs == 1
        &&& forall|k: NodeKey| #[trigger] self.pending(k) ==> self.nodes.has(k)
        &&& self.pending_once()
    }
    spec fn pending_once(self) -> bool { forall|i: int, j: int| 0 <= i < j < self.node_keys_to_free_when_safe@.len() ==> (#[trigger] self.node_keys_to_free_when_safe@[i]).0 != (#[trigger] self.node_keys_to_free_when_safe@[j]).0 }
    spec fn inv(self) -> bool { self.wf() && self.acyclic() && self.all_nodes() && self.edges_ok() && self.nodes_ok() }

    // ---- what the edits do
    spec fn same_rest(self, g: Graph) -> bool {
        self.graph_id == g.graph_id && self.node_keys_to_free_when_safe == g.node_keys_to_free_when_safe && self.disconnected_parameters == g.disconnected_parameters && self.node_order == g.node_order
            && self.disconnected_nodes == g.disconnected_nodes && self.num_inputs == g.num_inputs && self.num_outputs == g.num_outputs
    }
    /// the node k is new and not connected to anything
    spec fn added(self, g: Graph, k: NodeKey, inputs: u16, outputs: u16) -> bool {
        &&& self.same_rest(g) && self.output_edges == g.output_edges && self.recalculation_required
        &&& !g.nodes.has(k) && self.nodes@ == g.nodes@.insert(k, self.nodes@[k]) && self.nodes@[k].data.inputs == inputs && self.nodes@[k].data.outputs == outputs
        &&& self.node_mortality@ == g.node_mortality@.insert(k, true)
        &&& self.node_input_edges@ == g.node_input_edges@.insert(k, self.node_input_edges@[k]) && self.ins(k) == Seq::new(inputs as nat, |i: int| None::<Edge>)
        &&& self.node_parameter_edges@ == g.node_parameter_edges@.insert(k, self.node_parameter_edges@[k]) && self.pars(k).len() == 0
    }
    /// input j of k is e, and nothing else has changed
    spec fn set_in(self, g: Graph, k: NodeKey, j: int, e: Option<Edge>) -> bool {
        &&& self.same_rest(g) && self.output_edges == g.output_edges && self.nodes == g.nodes && self.node_mortality == g.node_mortality && self.node_parameter_edges == g.node_parameter_edges
        &&& self.node_input_edges@ == g.node_input_edges@.insert(k, self.node_input_edges@[k]) && self.ins(k) == g.ins(k).update(j, e)
    }
    proof fn fewer(self, g: Graph)
        requires g.acyclic(), forall|x: NodeKey, y: NodeKey| #[trigger] self.dep(x, y) ==> g.dep(x, y)
        ensures self.acyclic()
    { let r = choose|r: spec_fn(NodeKey) -> nat| g.ranked(r); assert(self.ranked(r)); }
    /// with the new dependency of k on s there is still no cycle
    proof fn one_more(self, g: Graph, k: NodeKey, s: NodeKey)
        requires g.acyclic(), g.separated(k, s), forall|x: NodeKey, y: NodeKey| #[trigger] self.dep(x, y) ==> g.dep(x, y) || (x == k && y == s)
        ensures self.acyclic()
    {
        let r = choose|r: spec_fn(NodeKey) -> nat| g.ranked(r);
        let v = choose|v: spec_fn(NodeKey) -> bool| #[trigger] g.closed(v) && v(s) && !v(k);
        let r2 = |x: NodeKey| if v(x) { r(x) } else { (r(x) + r(s) + 1) as nat };
        assert forall|x: NodeKey, y: NodeKey| #[trigger] self.dep(x, y) implies r2(y) < r2(x) by { if g.dep(x, y) { assert(r(y) < r(x)); } }
        assert(self.ranked(r2));
    }
    proof fn added_inv(self, g: Graph, k: NodeKey, inputs: u16, outputs: u16)
        requires g.inv(), self.added(g, k, inputs, outputs), self.nodes@[k].auto_math_node ==> inputs == 2 && outputs == 1
        ensures self.inv(), self.isolated(k), forall|x: NodeKey, y: NodeKey| #[trigger] self.dep(x, y) == g.dep(x, y),
    {
        assert(!g.node_input_edges.has(k));
        assert forall|x: NodeKey, y: NodeKey| #[trigger] self.dep(x, y) == g.dep(x, y) by { self.same_reads(g, x, y); if x != k { assert(self.ins(x) == g.ins(x) && self.pars(x) == g.pars(x)); } else { assert(!self.reads(x, y)); } }
        self.fewer(g);
        assert forall|x: NodeKey| #[trigger] self.node_input_edges.has(x) implies self.ins_ok(x) && self.pars_ok(x) by { if x != k { assert(g.node_input_edges.has(x)); assert(g.ins_ok(x) && g.pars_ok(x)); assert(self.ins(x) == g.ins(x) && self.pars(x) == g.pars(x)); } }
        assert forall|x: NodeKey| #[trigger] self.pending(x) == g.pending(x) by {}
        assert(!self.pending(k)) by { if g.pending(k) { let i = choose|i: int| 0 <= i < g.node_keys_to_free_when_safe@.len() && (#[trigger] g.node_keys_to_free_when_safe@[i]).0 == k; assert(g.nodes.has(k)); } }
        assert forall|x: NodeKey, y: NodeKey| #[trigger] self.dep(x, y) implies self.node_input_edges.has(y) by { assert(g.dep(x, y)); }
        assert forall|x: NodeKey| !#[trigger] self.dep(x, k) by { if self.dep(x, k) { assert(g.dep(x, k)); } }
        assert(forall|x: NodeKey| self.node_input_edges.has(x) <==> g.node_input_edges.has(x) || x == k);
        assert(forall|x: NodeKey| self.node_parameter_edges.has(x) <==> g.node_parameter_edges.has(x) || x == k);
        assert(forall|x: NodeKey| self.nodes.has(x) <==> g.nodes.has(x) || x == k);
        assert(self.wf()); assert(self.all_nodes()); assert(self.nodes_ok());
    }
    /// nothing reads k
    spec fn isolated(self, k: NodeKey) -> bool { forall|x: NodeKey| !#[trigger] self.dep(x, k) }
    proof fn same_reads(self, g: Graph, x: NodeKey, y: NodeKey)
        requires self.ins(x) == g.ins(x) || forall|j: int| 0 <= j < self.ins(x).len() ==> (#[trigger] self.ins(x)[j]) is None, self.pars(x) == g.pars(x) || self.pars(x).len() == 0
        ensures self.reads(x, y) ==> g.reads(x, y), self.ins(x) == g.ins(x) && self.pars(x) == g.pars(x) ==> (g.reads(x, y) ==> self.reads(x, y)),
    {
        if exists|j: int| self.in_edge(y, x, j) { let j = choose|j: int| self.in_edge(y, x, j); assert(g.in_edge(y, x, j)); }
        if exists|j: int| self.par_edge(y, x, j) { let j = choose|j: int| self.par_edge(y, x, j); assert(g.par_edge(y, x, j)); }
        if exists|j: int| g.in_edge(y, x, j) { let j = choose|j: int| g.in_edge(y, x, j); if self.ins(x) == g.ins(x) { assert(self.in_edge(y, x, j)); } }
        if exists|j: int| g.par_edge(y, x, j) { let j = choose|j: int| g.par_edge(y, x, j); if self.pars(x) == g.pars(x) { assert(self.par_edge(y, x, j)); } }
    }
    proof fn set_deps(self, g: Graph, k: NodeKey, j: int, e: Option<Edge>)
        requires g.node_input_edges.has(k), self.set_in(g, k, j, e), 0 <= j < g.ins(k).len()
        ensures forall|x: NodeKey, y: NodeKey| #[trigger] self.dep(x, y) ==> g.dep(x, y) || (x == k && e is Some && e->0.source == NodeKeyOrGraph::Node(y)),
    {
        assert forall|x: NodeKey, y: NodeKey| #[trigger] self.dep(x, y) implies g.dep(x, y) || (x == k && e is Some && e->0.source == NodeKeyOrGraph::Node(y)) by {
            if x != k { assert(self.ins(x) == g.ins(x)); self.same_reads(g, x, y); }
            else {
                if exists|i: int| self.in_edge(y, x, i) { let i = choose|i: int| self.in_edge(y, x, i); if i != j { assert(g.in_edge(y, x, i)); } }
                if exists|i: int| self.par_edge(y, x, i) { let i = choose|i: int| self.par_edge(y, x, i); assert(g.par_edge(y, x, i)); }
            }
        }
    }
    proof fn set_inv(self, g: Graph, k: NodeKey, j: int, e: Option<Edge>)
        requires g.inv(), g.node_input_edges.has(k), self.set_in(g, k, j, e), 0 <= j < g.ins(k).len(), e is Some ==> g.edge_ok(e->0), e is Some && e->0.source is Node ==> g.separated(k, e->0.source->Node_0)
        ensures self.inv(),
    {
        self.set_deps(g, k, j, e);
        if e is Some && e->0.source is Node { self.one_more(g, k, e->0.source->Node_0); } else { self.fewer(g); }
        assert(forall|x: NodeKey| #[trigger] self.pending(x) == g.pending(x));
        assert forall|x: NodeKey| #[trigger] self.node_input_edges.has(x) implies self.ins_ok(x) && self.pars_ok(x) by {
            assert(g.node_input_edges.has(x)); assert(g.ins_ok(x) && g.pars_ok(x)); assert(self.pars(x) == g.pars(x));
            assert forall|i: int| 0 <= i < self.ins(x).len() && (#[trigger] self.ins(x)[i]) is Some implies self.edge_ok(self.ins(x)[i]->0) by { if x != k || i != j { assert(g.ins(x)[i] is Some); assert(g.edge_ok(g.ins(x)[i]->0)); } }
        }
        assert forall|x: NodeKey, y: NodeKey| #[trigger] self.dep(x, y) implies self.node_input_edges.has(y) by { if g.dep(x, y) { assert(g.node_input_edges.has(y)); } }
 assert(self.wf()); assert(self.all_nodes()); assert(self.edges_ok()); assert(self.nodes_ok());
    }
    /// changes of flags of nodes are of no consequence to edges
    proof fn flags_inv(self, g: Graph)
        requires
            g.inv(), self.same_rest(g), self.output_edges == g.output_edges, self.node_input_edges == g.node_input_edges, self.node_parameter_edges == g.node_parameter_edges, self.node_mortality == g.node_mortality,
            forall|k: NodeKey| #[trigger] self.nodes.has(k) <==> g.nodes.has(k), forall|k: NodeKey| #[trigger] self.nodes.has(k) ==> self.nodes@[k].data == g.nodes@[k].data && self.nodes@[k].auto_math_node == g.nodes@[k].auto_math_node,
        ensures self.inv(), forall|x: NodeKey, y: NodeKey| #[trigger] self.dep(x, y) == g.dep(x, y),
    {
        assert forall|x: NodeKey, y: NodeKey| #[trigger] self.dep(x, y) == g.dep(x, y) by { self.same_reads(g, x, y); }
        self.fewer(g);
        assert(forall|x: NodeKey| #[trigger] self.pending(x) == g.pending(x));
        assert forall|x: NodeKey| #[trigger] self.node_input_edges.has(x) implies self.ins_ok(x) && self.pars_ok(x) by {
            assert(g.node_input_edges.has(x)); assert(g.ins_ok(x) && g.pars_ok(x)); assert(self.ins(x) == g.ins(x) && self.pars(x) == g.pars(x)); assert(self.nodes.has(x));
            assert forall|j: int| 0 <= j < self.ins(x).len() && (#[trigger] self.ins(x)[j]) is Some implies self.edge_ok(self.ins(x)[j]->0) by { let e = g.ins(x)[j]->0; assert(g.edge_ok(e)); if e.source is Node { assert(self.nodes.has(e.source->Node_0)); } }
            assert forall|j: int| 0 <= j < self.pars(x).len() implies self.par_ok(x, #[trigger] self.pars(x)[j]) by { let e = g.pars(x)[j]; assert(g.par_ok(x, e)); assert(self.nodes.has(e.source)); }
        }
        assert forall|j: int| 0 <= j < self.output_edges@.len() && (#[trigger] self.output_edges@[j]) is Some implies self.edge_ok(self.output_edges@[j]->0) by { let e = g.output_edges@[j]->0; assert(g.edge_ok(e)); if e.source is Node { assert(self.nodes.has(e.source->Node_0)); } }
        assert(self.wf()) by { assert forall|x: NodeKey, y: NodeKey| #[trigger] self.dep(x, y) implies self.node_input_edges.has(y) by { assert(g.dep(x, y)); } }
        assert(self.all_nodes());
        assert(self.nodes_ok());
    }
    proof fn isolated_separated(self, k: NodeKey, s: NodeKey)
        requires self.isolated(k), s != k
        ensures self.separated(k, s)
    {
        let v = |x: NodeKey| x != k;
        assert(self.closed(v)) by { assert forall|x: NodeKey, y: NodeKey| #[trigger] self.dep(x, y) && v(x) implies v(y) by { } }
        assert(v(s) && !v(k));
    }

    // ---- new nodes
    /*@extract knaster_graph/src/graph.rs | impl<F: Float> Graph<F> | contains_node | ret=r
    ensures r == self.node_input_edges.has(key),
    @*/
    /*@extract knaster_graph/src/graph.rs | impl<F: Float> Graph<F> | push_node | ret=key
    ensures final(self).added(*old(self), key, node.data.inputs, node.data.outputs), final(self).nodes@[key].same_node(node),
    @sig /mut node: Node<F>/ => node: Node
    @sub? /node\.init\(self\.sample_rate, self\.block_size\);/ => let node = node.init();
    @sub? /self\.get_nodes_mut\(\)\.insert\(/ => self.nodes.insert_new(
    @sub? /vec!\[None; node_inputs as usize\]\.into_boxed_slice\(\)/ => no_edges(node_inputs as usize)
    @*/
    /*@extract knaster_graph/src/graph.rs | impl<F: Float> Graph<F> | push_internal | ret=r
    ensures ({ let k = r.raw_handle.node.key; final(self).added(*old(self), k, T::inputs(), T::outputs()) && !final(self).nodes@[k].auto_math_node }),
    @sig /UGen<Sample = F> \+ 'static/ => Gen
    @sig /Handle<T>/ => Handle
    @sub? /let name = [^;]*;/ =>  
    @sub? /Node::new\(name, ugen\)/ => Node::new(ugen)
    @sub? /self\.graph_gen_communicator[\s\S]*?\.clone\(\),/ =>  
    @*/
    /*@extract knaster_graph/src/graph.rs | impl<F: Float> Graph<F> | new_additive_node | ret=k
    requires old(self).inv(),
    ensures
        final(self).added(*old(self), k, 2, 1), final(self).nodes@[k].auto_math_node, final(self).inv(), final(self).isolated(k),
        forall|x: NodeKey, y: NodeKey| #[trigger] final(self).dep(x, y) == old(self).dep(x, y),
    @sub? /MathUGen::<F, U1, Add>::new\(\)/ => MathAdd { x: 0 }
    @sub? /self\.get_nodes_mut\(\)\[(\w+)\]/ => self.nodes.at_mut(\1)
    @sub? /\n\s*add_node\n\s*\}$/ => \n        proof { assert(self.nodes@ =~= old(self).nodes@.insert(add_node, self.nodes@[add_node])); self.added_inv(*old(self), add_node, 2, 1); }\n        add_node\n    }
    @*/
    /*@extract knaster_graph/src/graph.rs | impl<F: Float> Graph<F> | new_feedback_nodes | ret=r
    requires old(self).inv(),
    ensures
        final(self).two_added(*old(self), r.0, r.1), final(self).inv(), final(self).isolated(r.0), final(self).isolated(r.1),
        forall|x: NodeKey, y: NodeKey| #[trigger] final(self).dep(x, y) == old(self).dep(x, y),
    @sub? /let buffers = Arc::new\(\[[\s\S]*?\]\);/ =>  
    @sub? /(FeedbackSink|FeedbackSource) \{[^}]*\}/ => \1 { x: 0 }
    @sub? /self\.get_nodes_mut\(\)\[(\w+)\]/ => self.nodes.at_mut(\1)
    @sub? /let source_handle =/ => let ghost g1 = *self; proof { self.added_inv(*old(self), sink_node, 1, 0); } let source_handle =
    @sub? /(let source_node = [^;]*;)/ => \1 let ghost g2 = *self; proof { self.added_inv(g1, source_node, 0, 1); }
    @sub? /\n\s*\(source_node, sink_node\)\n\s*\}$/ => \n        proof { self.flags_inv(g2); assert(self.nodes@ =~= old(self).nodes@.insert(sink_node, self.nodes@[sink_node]).insert(source_node, self.nodes@[source_node])); assert(self.node_input_edges@ =~= old(self).node_input_edges@.insert(sink_node, self.node_input_edges@[sink_node]).insert(source_node, self.node_input_edges@[source_node])); assert(self.node_parameter_edges@ =~= old(self).node_parameter_edges@.insert(sink_node, self.node_parameter_edges@[sink_node]).insert(source_node, self.node_parameter_edges@[source_node])); }\n        (source_node, sink_node)\n    }
    @*/
    spec fn two_added(self, g: Graph, source: NodeKey, sink: NodeKey) -> bool {
        &&& self.same_rest(g) && self.output_edges == g.output_edges && self.recalculation_required
        &&& !g.nodes.has(source) && !g.nodes.has(sink) && source != sink && self.nodes@ == g.nodes@.insert(sink, self.nodes@[sink]).insert(source, self.nodes@[source])
        &&& self.nodes@[sink].data.inputs == 1 && self.nodes@[sink].data.outputs == 0 && self.nodes@[source].data.inputs == 0 && self.nodes@[source].data.outputs == 1
        // they live and die together
        &&& self.nodes@[sink].strong_dependent == Some(source) && self.nodes@[source].strong_dependent == Some(sink) && self.nodes@[sink].auto_free_when_unconnected && self.nodes@[source].auto_free_when_unconnected
        &&& !self.nodes@[sink].auto_math_node && !self.nodes@[source].auto_math_node
        &&& self.node_mortality@ == g.node_mortality@.insert(sink, true).insert(source, true)
        &&& self.node_input_edges@ == g.node_input_edges@.insert(sink, self.node_input_edges@[sink]).insert(source, self.node_input_edges@[source]) && self.ins(sink) == Seq::new(1, |i: int| None::<Edge>) && self.ins(source).len() == 0
        &&& self.node_parameter_edges@ == g.node_parameter_edges@.insert(sink, self.node_parameter_edges@[sink]).insert(source, self.node_parameter_edges@[source]) && self.pars(sink).len() == 0 && self.pars(source).len() == 0
    }

    // ---- connections to inputs of nodes
    /// `self.node_input_edges[k][j] = e`
    fn put(&mut self, k: NodeKey, j: usize, e: Option<Edge>)
        requires old(self).inv(), old(self).node_input_edges.has(k), j < old(self).ins(k).len(), e is Some ==> old(self).edge_ok(e->0), e is Some && e->0.source is Node ==> old(self).separated(k, e->0.source->Node_0)
        ensures
            final(self).set_in(*old(self), k, j as int, e), final(self).inv(), final(self).recalculation_required == old(self).recalculation_required,
            forall|x: NodeKey, y: NodeKey| #[trigger] final(self).dep(x, y) ==> old(self).dep(x, y) || (x == k && e is Some && e->0.source == NodeKeyOrGraph::Node(y)),
            e is Some && e->0.source is Node ==> e->0.source->Node_0 != k,
    {
        proof { if e is Some && e->0.source is Node { let v = choose|v: spec_fn(NodeKey) -> bool| #[trigger] self.closed(v) && v(e->0.source->Node_0) && !v(k); assert(e->0.source->Node_0 != k); } }
        let es = self.node_input_edges.at_mut(k);
        es[j] = e;
        proof { assert(self.set_in(*old(self), k, j as int, e)); self.set_deps(*old(self), k, j as int, e); self.set_inv(*old(self), k, j as int, e); }
    }
    /// an add node a is put before input j of k: it reads what the input read, and e
    spec fn spliced(self, g: Graph, a: NodeKey, k: NodeKey, j: int, e: Edge) -> bool {
        &&& self.same_rest(g) && self.output_edges == g.output_edges
        &&& !g.nodes.has(a) && self.nodes@ == g.nodes@.insert(a, self.nodes@[a]) && self.nodes@[a].auto_math_node && self.nodes@[a].data.inputs == 2 && self.nodes@[a].data.outputs == 1
        &&& self.node_mortality@ == g.node_mortality@.insert(a, true)
        &&& self.node_parameter_edges@ == g.node_parameter_edges@.insert(a, self.node_parameter_edges@[a]) && self.pars(a).len() == 0
        &&& self.node_input_edges@ == g.node_input_edges@.insert(a, self.node_input_edges@[a]).insert(k, self.node_input_edges@[k])
        &&& self.ins(a) == seq![g.ins(k)[j], Some(e)]
        &&& self.ins(k) == g.ins(k).update(j, Some(Edge { source: NodeKeyOrGraph::Node(a), channel_in_source: 0, is_feedback: false }))
    }
    /// input j of k reads e, and also what it read before if additive
    spec fn linked(self, g: Graph, k: NodeKey, j: int, e: Edge, additive: bool) -> bool {
        if additive && g.ins(k)[j] is Some { exists|a: NodeKey| #[trigger] self.spliced(g, a, k, j, e) } else { self.set_in(g, k, j, Some(e)) }
    }
    /// a pair of feedback nodes, of which the sink reads e
    spec fn fed(self, g: Graph, source: NodeKey, sink: NodeKey, e: Edge) -> bool {
        exists|m: Graph| #[trigger] m.two_added(g, source, sink) && self.set_in(m, sink, 0, Some(e))
    }
    spec fn connected(self, g: Graph, k: NodeKey, j: int, source: NodeKeyOrGraph, channel: u16, additive: bool, feedback: bool) -> bool {
        if feedback {
            exists|m: Graph, fs: NodeKey, fk: NodeKey| #[trigger] m.fed(g, fs, fk, Edge { source, channel_in_source: channel, is_feedback: true })
                && self.linked(m, k, j, Edge { source: NodeKeyOrGraph::Node(fs), channel_in_source: 0, is_feedback: false }, additive)
        } else { self.linked(g, k, j, Edge { source, channel_in_source: channel, is_feedback: false }, additive) }
    }
    proof fn no_deps_separated(self, k: NodeKey, s: NodeKey)
        requires self.ins(s).len() == 0, self.pars(s).len() == 0, s != k
        ensures self.separated(k, s)
    {
        let v = |x: NodeKey| x == s;
        assert(self.closed(v)) by { assert forall|x: NodeKey, y: NodeKey| #[trigger] self.dep(x, y) && v(x) implies v(y) by { } }
        assert(v(s) && !v(k));
    }
    proof fn same_separated(self, g: Graph, k: NodeKey, s: NodeKey)
        requires g.separated(k, s), forall|x: NodeKey, y: NodeKey| #[trigger] self.dep(x, y) ==> g.dep(x, y)
        ensures self.separated(k, s)
    {
        let v = choose|v: spec_fn(NodeKey) -> bool| #[trigger] g.closed(v) && v(s) && !v(k);
        assert(self.closed(v)) by { assert forall|x: NodeKey, y: NodeKey| #[trigger] self.dep(x, y) && v(x) implies v(y) by { assert(g.dep(x, y)); } }
    }
    /// an add node which reads src and what k reads can be put before k
    proof fn add_separated(self, g: Graph, a: NodeKey, k: NodeKey, src: Option<NodeKey>, old_src: Option<NodeKey>)
        requires
            g.acyclic(), g.isolated(a), a != k, src is Some ==> g.separated(k, src->0), old_src is Some ==> g.dep(k, old_src->0),
            forall|x: NodeKey, y: NodeKey| #[trigger] self.dep(x, y) ==> (x != a && g.dep(x, y)) || (x == a && (Some(y) == src || Some(y) == old_src)),
        ensures self.separated(k, a)
    {
        let r = choose|r: spec_fn(NodeKey) -> nat| g.ranked(r);
        let w = choose|v: spec_fn(NodeKey) -> bool| #[trigger] g.closed(v) && v(src->0) && !v(k);
        let v = |x: NodeKey| x == a || r(x) < r(k) || (src is Some && w(x));
        assert(self.closed(v)) by {
            assert forall|x: NodeKey, y: NodeKey| #[trigger] self.dep(x, y) && v(x) implies v(y) by {
                if x == a { if Some(y) == old_src { assert(g.dep(k, y)); } } else { assert(g.dep(x, y)); assert(r(y) < r(x)); }
            }
        }
        assert(v(a) && !v(k));
    }
    /*@extract knaster_graph/src/graph.rs | impl<F: Float> Graph<F> | connect_to_node_internal
    requires
        old(self).inv(), old(self).node_input_edges.has(sink), si_channel < old(self).ins(sink).len(),
        old(self).edge_ok(Edge { source, channel_in_source: so_channel, is_feedback: false }),
        source is Node && !feedback ==> old(self).separated(sink, source->Node_0),
    ensures
        final(self).inv(), final(self).recalculation_required,
        final(self).connected(*old(self), sink, si_channel as int, source, so_channel, additive, feedback),
    @sig /mut source: NodeKeyOrGraph/ => source: NodeKeyOrGraph
    @sig /mut so_channel: u16/ => so_channel: u16
    @sub? /self\.node_input_edges\[(\w+)\]\[([^\]]+)\] = (Some\(Edge \{[^}]*\}\)|Some\(\w+\));/ => self.put(\1, \2, \3);
    @sub? /if let Some\(existing_edge\) = self\.node_input_edges\[sink\]\[si_channel as usize\]/ => if let Some(existing_edge) = self.node_input_edges.at(sink)[si_channel as usize]
    @start
        let ghost source0 = source; let ghost channel0 = so_channel;
        let mut source = source; let mut so_channel = so_channel;
        let ghost mut m = *self;
        let ghost mut fs = sink; let ghost mut fk = sink;
    @sub? /self\.recalculation_required = true;/ => self.recalculation_required = true; proof { self.flags_inv(*old(self)); m = *self; if source is Node && !feedback { self.same_separated(*old(self), sink, source->Node_0); } }
    @sub? /(let \(fb_source, fb_sink\) = [^;]*;)/ => let ghost g0 = *self; \1 let ghost g1 = *self; proof { fs = fb_source; fk = fb_sink; if source is Node { self.isolated_separated(fb_sink, source->Node_0); } assert(self.two_added(g0, fb_source, fb_sink)); assert(self.two_added(*old(self), fb_source, fb_sink)); }
    @sub? /source = NodeKeyOrGraph::Node\(fb_source\);/ => source = NodeKeyOrGraph::Node(fb_source); proof { m = *self; assert(m.fed(*old(self), fs, fk, Edge { source: source0, channel_in_source: channel0, is_feedback: true })); self.no_deps_separated(sink, fb_source); }
    @sub? /(let add_node = self\.new_additive_node\(\);)/ => let ghost ga = *self; \1 let ghost gb = *self; proof { if existing_edge.source is Node { self.isolated_separated(add_node, existing_edge.source->Node_0); } }
    @sub? /\} else \{/ => proof { let e = Edge { source, channel_in_source: so_channel, is_feedback: false }; assert(self.ins(add_node) =~= seq![Some(existing_edge), Some(e)]); assert(self.node_input_edges@ =~= m.node_input_edges@.insert(add_node, self.node_input_edges@[add_node]).insert(sink, self.node_input_edges@[sink])); assert(self.spliced(m, add_node, sink, si_channel as int, e)); assert(self.linked(m, sink, si_channel as int, e, additive)); if feedback { assert(so_channel == 0 && source == NodeKeyOrGraph::Node(fs)); assert(self.connected(*old(self), sink, si_channel as int, source0, channel0, additive, feedback)); } else { assert(self.spliced(*old(self), add_node, sink, si_channel as int, e)); } } } else {
    @sub? /self\.put\(add_node, 1,/ => proof { assert(self.isolated(add_node)); if source is Node { assert(self.node_input_edges.has(source->Node_0)); self.isolated_separated(add_node, source->Node_0); } } self.put(add_node, 1,
    @sub? /self\.put\(sink, si_channel as usize, Some\(Edge \{\s*source: NodeKeyOrGraph::Node\(add_node\)/ => proof { let src = if source is Node { Some(source->Node_0) } else { None }; let old_src = if existing_edge.source is Node { Some(existing_edge.source->Node_0) } else { None }; if old_src is Some { assert(ga.in_edge(old_src->0, sink, si_channel as int)); assert(ga.dep(sink, old_src->0)); } assert(gb.isolated(add_node)); assert(!ga.node_input_edges.has(add_node)); if src is Some { gb.same_separated(ga, sink, src->0); } self.add_separated(gb, add_node, sink, src, old_src); } self.put(sink, si_channel as usize, Some(Edge { source: NodeKeyOrGraph::Node(add_node)
    @*/

    // ---- the edits, with what they check
    fn get_nodes(&self) -> (r: &SlotMap<Node>) ensures *r == self.nodes { &self.nodes }
    spec fn has_output(self, n: NodeId, channel: u16) -> bool { n.graph == self.graph_id && self.node_input_edges.has(n.key) && channel < self.nodes@[n.key].data.outputs }
    spec fn has_input(self, n: NodeId, channel: u16) -> bool { n.graph == self.graph_id && self.node_input_edges.has(n.key) && channel < self.nodes@[n.key].data.inputs }
    /// the error says what is wrong
    spec fn source_error(self, e: GraphError, n: NodeId, channel: u16) -> bool {
        match e {
            GraphError::WrongSourceNodeGraph { expected_graph, found_graph } => n.graph != self.graph_id && found_graph == n.graph && expected_graph == self.graph_id,
            GraphError::NodeNotFound => n.graph == self.graph_id && !self.node_input_edges.has(n.key),
            GraphError::OutputOutOfBounds(c) => c == channel && n.graph == self.graph_id && self.node_input_edges.has(n.key) && channel >= self.nodes@[n.key].data.outputs,
            _ => false,
        }
    }
    spec fn sink_error(self, e: GraphError, n: NodeId, channel: u16) -> bool {
        match e {
            GraphError::WrongSinkNodeGraph { expected_graph, found_graph } => n.graph != self.graph_id && found_graph == n.graph && expected_graph == self.graph_id,
            GraphError::NodeNotFound => n.graph == self.graph_id && !self.node_input_edges.has(n.key),
            GraphError::InputOutOfBounds(c) => c == channel && n.graph == self.graph_id && self.node_input_edges.has(n.key) && channel >= self.nodes@[n.key].data.inputs,
            _ => false,
        }
    }
    spec fn graph_source_error(self, e: GraphError, channel: u16) -> bool { e == GraphError::GraphInputOutOfBounds(channel) && channel >= self.num_inputs }
    spec fn graph_sink_error(self, e: GraphError, channel: u16) -> bool { e == GraphError::GraphOutputOutOfBounds(channel) && channel >= self.num_outputs }
    /*@extract knaster_graph/src/graph.rs | impl<F: Float> Graph<F> | connect_nodes_internal | ret=r
    requires old(self).inv(),
    ensures
        final(self).inv(),
        match r {
            Ok(()) => old(self).has_output(source, source_channel) && old(self).has_input(sink, sink_channel) && (feedback || !old(self).path(sink.key, source.key))
                && final(self).recalculation_required && final(self).connected(*old(self), sink.key, sink_channel as int, NodeKeyOrGraph::Node(source.key), source_channel, additive, feedback),
            Err(e) => *final(self) == *old(self) && (old(self).source_error(e, source, source_channel) || old(self).sink_error(e, sink, sink_channel)
                || (e == GraphError::CircularConnection && !feedback && old(self).path(sink.key, source.key))),
        },
    @sig /impl Into<NodeId>/ => NodeId
    @sub? /let (source|sink) = (source|sink)\.into\(\);/ =>  
    @sub? /nodes\[(\w+)\.key\(\)\]/ => nodes.at(\1.key())
    @*/
    /*@extract knaster_graph/src/graph.rs | impl<F: Float> Graph<F> | connect_input_to_node | ret=r
    requires old(self).inv(),
    ensures
        final(self).inv(),
        match r {
            Ok(()) => source_channel < old(self).num_inputs && old(self).has_input(sink, sink_channel)
                && final(self).recalculation_required && final(self).connected(*old(self), sink.key, sink_channel as int, NodeKeyOrGraph::Graph, source_channel, additive, false),
            Err(e) => *final(self) == *old(self) && (old(self).graph_source_error(e, source_channel) || old(self).sink_error(e, sink, sink_channel)),
        },
    @sig /impl Into<NodeId>/ => NodeId
    @sub? /let (source|sink) = (source|sink)\.into\(\);/ =>  
    @sub? /nodes\[(\w+)\.key\(\)\]/ => nodes.at(\1.key())
    @*/
    /// output j is e, and nothing else has changed
    spec fn set_out(self, g: Graph, j: int, e: Option<Edge>) -> bool {
        self.same_rest(g) && self.nodes == g.nodes && self.node_mortality == g.node_mortality && self.node_parameter_edges == g.node_parameter_edges && self.node_input_edges == g.node_input_edges && self.output_edges@ == g.output_edges@.update(j, e)
    }
    spec fn linked_out(self, g: Graph, j: int, e: Edge, additive: bool) -> bool {
        if additive && g.output_edges@[j] is Some { exists|a: NodeKey| #[trigger] self.spliced_out(g, a, j, e) } else { self.set_out(g, j, Some(e)) }
    }
    spec fn spliced_out(self, g: Graph, a: NodeKey, j: int, e: Edge) -> bool {
        &&& self.same_rest(g)
        &&& !g.nodes.has(a) && self.nodes@ == g.nodes@.insert(a, self.nodes@[a]) && self.nodes@[a].auto_math_node && self.nodes@[a].data.inputs == 2 && self.nodes@[a].data.outputs == 1
        &&& self.node_mortality@ == g.node_mortality@.insert(a, true)
        &&& self.node_parameter_edges@ == g.node_parameter_edges@.insert(a, self.node_parameter_edges@[a]) && self.pars(a).len() == 0
        &&& self.node_input_edges@ == g.node_input_edges@.insert(a, self.node_input_edges@[a])
        &&& self.ins(a) == seq![g.output_edges@[j], Some(e)]
        &&& self.output_edges@ == g.output_edges@.update(j, Some(Edge { source: NodeKeyOrGraph::Node(a), channel_in_source: 0, is_feedback: false }))
    }
    /// `self.output_edges[j] = e`
    fn put_out(&mut self, j: usize, e: Option<Edge>)
        requires old(self).inv(), j < old(self).num_outputs, e is Some ==> old(self).edge_ok(e->0)
        ensures final(self).set_out(*old(self), j as int, e), final(self).inv(), final(self).recalculation_required == old(self).recalculation_required,
    {
        self.output_edges[j] = e;
        proof {
            let g = *old(self);
            assert forall|x: NodeKey, y: NodeKey| #[trigger] self.dep(x, y) == g.dep(x, y) by { self.same_reads(g, x, y); }
            self.fewer(g);
            assert(forall|x: NodeKey| #[trigger] self.pending(x) == g.pending(x));
            assert forall|x: NodeKey| #[trigger] self.node_input_edges.has(x) implies self.ins_ok(x) && self.pars_ok(x) by {
                assert(g.node_input_edges.has(x)); assert(g.ins_ok(x) && g.pars_ok(x)); assert(self.ins(x) == g.ins(x) && self.pars(x) == g.pars(x));
            }
            assert forall|i: int| 0 <= i < self.output_edges@.len() && (#[trigger] self.output_edges@[i]) is Some implies self.edge_ok(self.output_edges@[i]->0) by { if i != j { assert(g.output_edges@[i] is Some); assert(g.edge_ok(g.output_edges@[i]->0)); } }
            assert(self.wf()) by { assert forall|x: NodeKey, y: NodeKey| #[trigger] self.dep(x, y) implies self.node_input_edges.has(y) by { assert(g.dep(x, y)); } }
        }
    }
    /*@extract knaster_graph/src/graph.rs | impl<F: Float> Graph<F> | connect_to_output_internal
    requires old(self).inv(), si_channel < old(self).num_outputs, old(self).edge_ok(Edge { source, channel_in_source: so_channel, is_feedback: false }),
    ensures
        final(self).inv(), final(self).recalculation_required,
        final(self).linked_out(*old(self), si_channel as int, Edge { source, channel_in_source: so_channel, is_feedback: false }, additive),
    @sub? /self\.node_input_edges\[(\w+)\]\[([^\]]+)\] = (Some\(Edge \{[^}]*\}\)|Some\(\w+\));/ => self.put(\1, \2, \3);
    @sub? /self\.output_edges\[si_channel as usize\] = (Some\(Edge \{[^}]*\}\));/ => self.put_out(si_channel as usize, \1);
    @sub? /self\.recalculation_required = true;/ => self.recalculation_required = true; proof { self.flags_inv(*old(self)); }
    @sub? /(let add_node = self\.new_additive_node\(\);)/ => let ghost ga = *self; \1 proof { if existing_edge.source is Node { self.isolated_separated(add_node, existing_edge.source->Node_0); } }
    @sub? /self\.put\(add_node, 1,/ => proof { assert(self.isolated(add_node)); if source is Node { assert(self.node_input_edges.has(source->Node_0)); self.isolated_separated(add_node, source->Node_0); } } self.put(add_node, 1,
    @sub? /\} else \{/ => proof { let e = Edge { source, channel_in_source: so_channel, is_feedback: false }; assert(self.ins(add_node) =~= seq![Some(existing_edge), Some(e)]); assert(self.node_input_edges@ =~= old(self).node_input_edges@.insert(add_node, self.node_input_edges@[add_node])); assert(self.spliced_out(*old(self), add_node, si_channel as int, e)); } } else {
    @*/
    /*@extract knaster_graph/src/graph.rs | impl<F: Float> Graph<F> | connect_input_to_output | ret=r
    requires old(self).inv(),
    ensures
        final(self).inv(),
        match r {
            Ok(()) => source_channel < old(self).num_inputs && sink_channel < old(self).num_outputs
                && final(self).recalculation_required && final(self).linked_out(*old(self), sink_channel as int, Edge { source: NodeKeyOrGraph::Graph, channel_in_source: source_channel, is_feedback: false }, additive),
            Err(e) => *final(self) == *old(self) && (old(self).graph_source_error(e, source_channel) || old(self).graph_sink_error(e, sink_channel)),
        },
    @*/
    /*@extract knaster_graph/src/graph.rs | impl<F: Float> Graph<F> | connect_node_to_output | ret=r
    requires old(self).inv(),
    ensures
        final(self).inv(),
        match r {
            Ok(()) => old(self).has_output(source, source_channel) && sink_channel < old(self).num_outputs
                && final(self).recalculation_required && final(self).linked_out(*old(self), sink_channel as int, Edge { source: NodeKeyOrGraph::Node(source.key), channel_in_source: source_channel, is_feedback: false }, additive),
            Err(e) => *final(self) == *old(self) && (old(self).source_error(e, source, source_channel) || old(self).graph_sink_error(e, sink_channel)),
        },
    @sig /impl Into<NodeId>/ => NodeId
    @sub? /let (source|sink) = (source|sink)\.into\(\);/ =>  
    @sub? /nodes\[(\w+)\.key\(\)\]/ => nodes.at(\1.key())
    @*/

    // ---- connections to parameters
    spec fn param_index(self, k: NodeKey, p: Param) -> Option<u16> {
        match p { Param::Index(i) => if i < self.nodes@[k].data.parameters { Some(i as u16) } else { None }, Param::Desc(d) => desc_index(self.nodes@[k], d) }
    }
    spec fn param_error(self, e: GraphError, n: NodeId, p: Param) -> bool {
        n.graph == self.graph_id && self.node_input_edges.has(n.key) && self.param_index(n.key, p) is None && match p {
            Param::Index(i) => e == GraphError::ParameterIndexOutOfBounds(i),
            Param::Desc(d) => e == GraphError::ParameterDescriptionNotFound(d),
        }
    }
    /// of the sources of parameters of k, the one of parameter e.parameter_index is e, and nothing else has changed
    spec fn set_par(self, g: Graph, k: NodeKey, e: ParameterEdge) -> bool {
        &&& self.same_rest(g) && self.output_edges == g.output_edges && self.nodes == g.nodes && self.node_mortality == g.node_mortality && self.node_input_edges == g.node_input_edges
        &&& self.node_parameter_edges@ == g.node_parameter_edges@.insert(k, self.node_parameter_edges@[k]) && par_replaced(self.pars(k), g.pars(k), e)
    }
    spec fn spliced_par(self, g: Graph, a: NodeKey, k: NodeKey, e: ParameterEdge, i: int) -> bool {
        &&& self.same_rest(g) && self.output_edges == g.output_edges
        &&& !g.nodes.has(a) && self.nodes@ == g.nodes@.insert(a, self.nodes@[a]) && self.nodes@[a].auto_math_node && self.nodes@[a].data.inputs == 2 && self.nodes@[a].data.outputs == 1
        &&& self.node_mortality@ == g.node_mortality@.insert(a, true)
        &&& self.node_parameter_edges@ == g.node_parameter_edges@.insert(a, self.node_parameter_edges@[a]).insert(k, self.node_parameter_edges@[k]) && self.pars(a).len() == 0
        &&& self.node_input_edges@ == g.node_input_edges@.insert(a, self.node_input_edges@[a])
        &&& 0 <= i < g.pars(k).len() && g.pars(k)[i].parameter_index == e.parameter_index && self.ins(a) == seq![Some(as_edge(g.pars(k)[i])), Some(as_edge(e))]
        &&& par_replaced(self.pars(k), g.pars(k), ParameterEdge { source: a, channel_in_source: 0, parameter_index: e.parameter_index })
    }
    spec fn has_par(self, k: NodeKey, p: u16) -> bool { exists|i: int| 0 <= i < self.pars(k).len() && (#[trigger] self.pars(k)[i]).parameter_index == p }
    spec fn linked_par(self, g: Graph, k: NodeKey, e: ParameterEdge, additive: bool) -> bool {
        if additive && g.has_par(k, e.parameter_index) { exists|a: NodeKey, i: int| #[trigger] self.spliced_par(g, a, k, e, i) } else { self.set_par(g, k, e) }
    }
    /// only the sources of the parameters of k have changed, to ones which it had or which it may read
    proof fn pars_inv(self, g: Graph, k: NodeKey, src: Option<NodeKey>)
        requires
            g.inv(), g.node_input_edges.has(k), self.same_rest(g), self.output_edges == g.output_edges, self.nodes == g.nodes, self.node_mortality == g.node_mortality, self.node_input_edges == g.node_input_edges,
            self.node_parameter_edges@ == g.node_parameter_edges@.insert(k, self.node_parameter_edges@[k]), distinct(self.pars(k)), src is Some ==> g.separated(k, src->0),
            forall|j: int| 0 <= j < self.pars(k).len() ==> (Some((#[trigger] self.pars(k)[j]).source) == src && g.par_ok(k, self.pars(k)[j])) || g.pars(k).contains(self.pars(k)[j]),
        ensures self.inv(), forall|x: NodeKey, y: NodeKey| #[trigger] self.dep(x, y) ==> g.dep(x, y) || (x == k && Some(y) == src),
    {
        assert forall|x: NodeKey, y: NodeKey| #[trigger] self.dep(x, y) implies g.dep(x, y) || (x == k && Some(y) == src) by {
            if x != k { assert(self.pars(x) == g.pars(x)); self.same_reads(g, x, y); }
            else {
                if exists|i: int| self.in_edge(y, x, i) { let i = choose|i: int| self.in_edge(y, x, i); assert(g.in_edge(y, x, i)); }
                if exists|i: int| self.par_edge(y, x, i) { let i = choose|i: int| self.par_edge(y, x, i); if g.pars(k).contains(self.pars(k)[i]) { let l = choose|l: int| 0 <= l < g.pars(k).len() && g.pars(k)[l] == self.pars(k)[i]; assert(g.par_edge(y, x, l)); } }
            }
        }
        if src is Some { self.one_more(g, k, src->0); } else { self.fewer(g); }
        assert(g.ins_ok(k) && g.pars_ok(k));
        assert(self.pars_ok(k)) by { assert forall|j: int| 0 <= j < self.pars(k).len() implies self.par_ok(k, #[trigger] self.pars(k)[j]) by { let e = self.pars(k)[j]; if g.pars(k).contains(e) { let l = choose|l: int| 0 <= l < g.pars(k).len() && g.pars(k)[l] == e; assert(g.par_ok(k, g.pars(k)[l])); } } }
        assert(forall|x: NodeKey| #[trigger] self.pending(x) == g.pending(x));
        assert forall|x: NodeKey| #[trigger] self.node_input_edges.has(x) implies self.ins_ok(x) && self.pars_ok(x) by {
            assert(g.node_input_edges.has(x)); assert(g.ins_ok(x) && g.pars_ok(x)); assert(self.ins(x) == g.ins(x)); if x != k { assert(self.pars(x) == g.pars(x)); }
        }
        assert(forall|x: NodeKey| self.node_parameter_edges.has(x) <==> g.node_parameter_edges.has(x)) by { assert(g.node_parameter_edges.has(k)); }
        assert(self.wf()) by { assert forall|x: NodeKey, y: NodeKey| #[trigger] self.dep(x, y) implies self.node_input_edges.has(y) by { if g.dep(x, y) { assert(g.node_input_edges.has(y)); } else { let j = choose|j: int| self.par_edge(y, x, j) || self.in_edge(y, x, j); if self.par_edge(y, x, j) { assert(self.par_ok(k, self.pars(k)[j])); } else { assert(g.in_edge(y, x, j)); assert(g.dep(x, y)); } } } }
    }
}
spec fn distinct(a: Seq<ParameterEdge>) -> bool { forall|i: int, j: int| 0 <= i < j < a.len() ==> (#[trigger] a[i]).parameter_index != (#[trigger] a[j]).parameter_index }
spec fn without(a: Seq<ParameterEdge>, p: u16) -> Seq<ParameterEdge> { a.filter(|x: ParameterEdge| x.parameter_index != p) }
spec fn as_edge(e: ParameterEdge) -> Edge { Edge { source: NodeKeyOrGraph::Node(e.source), channel_in_source: e.channel_in_source, is_feedback: false } }
spec fn par_replaced(a: Seq<ParameterEdge>, b: Seq<ParameterEdge>, e: ParameterEdge) -> bool { forall|x: ParameterEdge| #[trigger] a.contains(x) <==> x == e || (x.parameter_index != e.parameter_index && b.contains(x)) }
uninterp spec fn desc_index(n: Node, d: Text) -> Option<u16>;
/// `e.iter().position(|pe| pe.parameter_index == p)`
fn position_of(e: &Vec<ParameterEdge>, p: u16) -> (r: Option<usize>)
    ensures match r { Some(i) => i < e@.len() && e@[i as int].parameter_index == p, None => forall|i: int| 0 <= i < e@.len() ==> (#[trigger] e@[i]).parameter_index != p },
{
    for i in 0..e.len() invariant forall|j: int| 0 <= j < i ==> (#[trigger] e@[j]).parameter_index != p { if e[i].parameter_index == p { return Some(i); } }
    None
}
/// `e.retain(|pe| pe.parameter_index != p)`
#[verifier::external_body]
fn retain_other(e: &mut Vec<ParameterEdge>, p: u16) ensures final(e)@ == without(old(e)@, p) { unimplemented!() }
impl Node {
    /// `self.parameter_descriptions().position(|s| s == desc)`
    #[verifier::external_body]
    fn position_of(&self, d: &Text) -> (r: Option<usize>) ensures match desc_index(*self, *d) { Some(i) => r == Some(i as usize) && i < self.data.parameters, None => r is None } { unimplemented!() }
}
impl Graph {
    proof fn swap_removed(a: Seq<ParameterEdge>, b: Seq<ParameterEdge>, i: int)
        requires 0 <= i < b.len(), a == b.update(i, b.last()).drop_last(), distinct(b)
        ensures forall|x: ParameterEdge| #[trigger] a.contains(x) <==> b.contains(x) && x.parameter_index != b[i].parameter_index, distinct(a),
    {
        assert forall|x: ParameterEdge| #[trigger] a.contains(x) <==> b.contains(x) && x.parameter_index != b[i].parameter_index by {
            if a.contains(x) { let j = choose|j: int| 0 <= j < a.len() && a[j] == x; let q = if j == i { b.len() - 1 } else { j }; assert(b[q] == x); assert(b[i].parameter_index != b[q].parameter_index); }
            if b.contains(x) && x.parameter_index != b[i].parameter_index { let j = choose|j: int| 0 <= j < b.len() && b[j] == x; let q = if j == b.len() - 1 { i } else { j }; assert(a[q] == x); }
        }
        assert forall|p: int, q: int| 0 <= p < q < a.len() implies (#[trigger] a[p]).parameter_index != (#[trigger] a[q]).parameter_index by { let p2 = if p == i { b.len() - 1 } else { p }; let q2 = if q == i { b.len() - 1 } else { q }; assert(a[p] == b[p2] && a[q] == b[q2]); if p2 < q2 { assert(b[p2].parameter_index != b[q2].parameter_index); } else { assert(b[q2].parameter_index != b[p2].parameter_index); } }
    }
    proof fn pushed_par(a: Seq<ParameterEdge>, e: ParameterEdge)
        requires distinct(a), forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).parameter_index != e.parameter_index
        ensures ({ let b = a.push(e); (forall|x: ParameterEdge| #[trigger] b.contains(x) <==> x == e || a.contains(x)) && distinct(b) }),
    {
        let b = a.push(e);
        assert forall|x: ParameterEdge| #[trigger] b.contains(x) <==> x == e || a.contains(x) by {
            assert(b[a.len() as int] == e);
            if a.contains(x) { let i = choose|i: int| 0 <= i < a.len() && a[i] == x; assert(b[i] == x); }
            if b.contains(x) { let i = choose|i: int| 0 <= i < b.len() && b[i] == x; if i < a.len() { assert(a[i] == x); } }
        }
    }
    proof fn retained(b: Seq<ParameterEdge>, p: u16)
        requires distinct(b)
        ensures ({ let a = without(b, p); (forall|x: ParameterEdge| #[trigger] a.contains(x) <==> b.contains(x) && x.parameter_index != p) && distinct(a) }),
        decreases b.len()
    {
        let f = |x: ParameterEdge| x.parameter_index != p;
        reveal(Seq::filter);
        if b.len() > 0 {
            let c = b.drop_last();
            Self::retained(c, p);
            let a0 = without(c, p);
            assert forall|x: ParameterEdge| #[trigger] b.contains(x) <==> c.contains(x) || x == b.last() by {
                if c.contains(x) { let i = choose|i: int| 0 <= i < c.len() && c[i] == x; assert(b[i] == x); }
                if b.contains(x) { let i = choose|i: int| 0 <= i < b.len() && b[i] == x; if i < c.len() { assert(c[i] == x); } }
                assert(b[b.len() - 1] == b.last());
            }
            if f(b.last()) {
                assert forall|i: int| 0 <= i < a0.len() implies (#[trigger] a0[i]).parameter_index != b.last().parameter_index by {
                    assert(a0.contains(a0[i])); let j = choose|j: int| 0 <= j < c.len() && c[j] == a0[i]; assert(b[j].parameter_index != b[b.len() - 1].parameter_index);
                }
                Self::pushed_par(a0, b.last());
            }
        }
    }
    proof fn plain_par(self, g: Graph, k: NodeKey, base: Seq<ParameterEdge>, e: ParameterEdge)
        requires
            g.inv(), g.node_input_edges.has(k), self.same_rest(g), self.output_edges == g.output_edges, self.nodes == g.nodes, self.node_mortality == g.node_mortality, self.node_input_edges == g.node_input_edges,
            self.node_parameter_edges@ == g.node_parameter_edges@.insert(k, self.node_parameter_edges@[k]), self.pars(k) == base.push(e), g.separated(k, e.source), g.par_ok(k, e),
            distinct(base), forall|x: ParameterEdge| #[trigger] base.contains(x) <==> g.pars(k).contains(x) && x.parameter_index != e.parameter_index,
        ensures self.inv(), self.set_par(g, k, e),
    {
        assert forall|i: int| 0 <= i < base.len() implies (#[trigger] base[i]).parameter_index != e.parameter_index by { assert(base.contains(base[i])); }
        Self::pushed_par(base, e);
        assert forall|j: int| 0 <= j < self.pars(k).len() implies self.pars(k)[j] == e || g.pars(k).contains(#[trigger] self.pars(k)[j]) by { assert(self.pars(k).contains(self.pars(k)[j])); }
        self.pars_inv(g, k, Some(e.source));
    }
    /*@extract knaster_graph/src/graph.rs | impl<F: Float> Graph<F> | connect_node_to_parameter | ret=r
    requires old(self).inv(),
    ensures final(self).inv(), match r { Ok(()) => final(self).made_par(*old(self), source, source_channel, parameter, sink, additive), Err(e) => *final(self) == *old(self) && old(self).par_edit_error(e, source, source_channel, parameter, sink) },
    @sig /impl Into<Param>/ => Param
    @sig /impl Into<NodeId>/ => NodeId
    @sub? /let (source|sink) = (source|sink)\.into\(\);/ =>  
    @sub? /nodes\[(\w+)\.key\(\)\]/ => nodes.at(\1.key())
    @sub? /parameter\.into\(\)/ => parameter
    @sub? /sink_node\.parameter_descriptions\(\)\.position\(\|s\| s == desc\)/ => sink_node.position_of(&desc)
    @sub? /desc\.to_string\(\)/ => desc
    @sub? /log::error!\([\s\S]*?\n\s*\);/ =>  
    @sub? /self\s*\.node_parameter_edges\s*\.get_mut\(sink\.key\(\)\)\s*\.expect\([^)]*\)/ => self.node_parameter_edges.at_mut(sink.key())
    @sub? /edges\s*\.iter\(\)\s*\.position\(\|pe\| pe\.parameter_index == param_index\)/ => position_of(edges, param_index)
    @sub? /edges\.retain\(\|pe\| pe\.parameter_index != param_index\)/ => retain_other(edges, param_index)
    @sub? /(\w+)\.source\.into\(\)/ => NodeKeyOrGraph::Node(\1.source)
    @sub? /(\w+)\.key\(\)\.into\(\)/ => NodeKeyOrGraph::Node(\1.key())
    @sub? /self\.node_input_edges\[(\w+)\]\[([^\]]+)\] = (Some\(Edge \{[^}]*\}\)|Some\(\w+\));/ => self.put(\1, \2, \3);
    @sub? /self\.recalculation_required = true;/ => self.recalculation_required = true; let ghost k = sink.key; let ghost g0 = *self; let ghost p0 = self.pars(k); proof { self.flags_inv(*old(self)); self.same_separated(*old(self), k, source.key); assert(self.ins_ok(k) && self.pars_ok(k)); assert(old(self).param_index(k, parameter) == Some(param_index)); }
    @sub? /(let existing_edge = [^;]*;)\s*(let add_node = [^;]*;)/ => \1 proof { Self::swap_removed(self.pars(k), p0, pos as int); assert(p0.contains(existing_edge)); assert(p0[pos as int] == existing_edge); assert(self.node_parameter_edges@ =~= g0.node_parameter_edges@.insert(k, self.node_parameter_edges@[k])); assert forall|j: int| 0 <= j < self.pars(k).len() implies p0.contains(#[trigger] self.pars(k)[j]) by { assert(self.pars(k).contains(self.pars(k)[j])); } self.pars_inv(g0, k, None); assert(g0.par_ok(k, g0.pars(k)[pos as int])); } let ghost ga = *self; \2 let ghost gb = *self; proof { self.isolated_separated(add_node, existing_edge.source); }
    @sub? /self\.put\(add_node, 1,/ => proof { assert(self.isolated(add_node)); self.isolated_separated(add_node, source.key); } self.put(add_node, 1,
    @sub? /(let edges = self\.node_parameter_edges\.at_mut\(sink\.key\(\)\);\s*edges\.push\([^)]*\);)/ => let ghost gc = *self; proof { assert(g0.par_edge(existing_edge.source, k, pos as int)); assert(g0.dep(k, existing_edge.source)); assert(!g0.node_input_edges.has(add_node)); self.add_separated(g0, add_node, k, Some(source.key), Some(existing_edge.source)); assert(gc.pars(k) == ga.pars(k)); } \1 proof { let e = ParameterEdge { source: add_node, channel_in_source: 0, parameter_index: param_index }; assert forall|i: int| 0 <= i < gc.pars(k).len() implies (#[trigger] gc.pars(k)[i]).parameter_index != param_index by { assert(gc.pars(k).contains(gc.pars(k)[i])); } Self::pushed_par(gc.pars(k), e); assert(self.pars(k) == gc.pars(k).push(e)); assert(self.node_parameter_edges@ =~= gc.node_parameter_edges@.insert(k, self.node_parameter_edges@[k])); assert(gc.par_ok(k, e)); assert forall|j: int| 0 <= j < self.pars(k).len() implies self.pars(k)[j] == e || gc.pars(k).contains(#[trigger] self.pars(k)[j]) by { assert(self.pars(k).contains(self.pars(k)[j])); } self.pars_inv(gc, k, Some(add_node)); let e2 = ParameterEdge { source: source.key, channel_in_source: source_channel, parameter_index: param_index }; assert(self.ins(add_node) =~= seq![Some(as_edge(existing_edge)), Some(as_edge(e2))]); assert(self.node_parameter_edges@ =~= g0.node_parameter_edges@.insert(add_node, self.node_parameter_edges@[add_node]).insert(k, self.node_parameter_edges@[k])); assert(self.node_input_edges@ =~= g0.node_input_edges@.insert(add_node, self.node_input_edges@[add_node])); assert(self.spliced_par(*old(self), add_node, k, e2, pos as int)); }
    @sub? /(edges\.push\(ParameterEdge \{\s*source: source\.key\(\),[^)]*\}\);)/ => \1 proof { let e2 = ParameterEdge { source: source.key, channel_in_source: source_channel, parameter_index: param_index }; let base = self.pars(k).drop_last(); assert(self.pars(k) =~= base.push(e2)); Self::retained(p0, param_index); assert(base =~= p0 || base =~= without(p0, param_index)); if base =~= p0 { assert forall|x: ParameterEdge| #[trigger] base.contains(x) implies x.parameter_index != param_index by { let i = choose|i: int| 0 <= i < p0.len() && p0[i] == x; assert(p0[i].parameter_index != param_index); } } assert(self.node_parameter_edges@ =~= g0.node_parameter_edges@.insert(k, self.node_parameter_edges@[k])); assert(g0.pars_ok(k)); self.plain_par(g0, k, base, e2); }
    @*/

    // ---- the public functions
    spec fn made(self, g: Graph, source: NodeOrGraph, source_channel: u16, sink: NodeOrGraph, sink_channel: u16, additive: bool, feedback: bool) -> bool {
        match (source, sink) {
            (NodeOrGraph::Graph, NodeOrGraph::Node(k)) => source_channel < g.num_inputs && g.has_input(k, sink_channel) && self.connected(g, k.key, sink_channel as int, NodeKeyOrGraph::Graph, source_channel, additive, false),
            (NodeOrGraph::Node(s), NodeOrGraph::Node(k)) => g.has_output(s, source_channel) && g.has_input(k, sink_channel) && (feedback || !g.path(k.key, s.key)) && self.connected(g, k.key, sink_channel as int, NodeKeyOrGraph::Node(s.key), source_channel, additive, feedback),
            (NodeOrGraph::Node(s), NodeOrGraph::Graph) => g.has_output(s, source_channel) && sink_channel < g.num_outputs && self.linked_out(g, sink_channel as int, Edge { source: NodeKeyOrGraph::Node(s.key), channel_in_source: source_channel, is_feedback: false }, additive),
            (NodeOrGraph::Graph, NodeOrGraph::Graph) => source_channel < g.num_inputs && sink_channel < g.num_outputs && self.linked_out(g, sink_channel as int, Edge { source: NodeKeyOrGraph::Graph, channel_in_source: source_channel, is_feedback: false }, additive),
        }
    }
    spec fn edit_error(self, e: GraphError, source: NodeOrGraph, source_channel: u16, sink: NodeOrGraph, sink_channel: u16, feedback: bool) -> bool {
        (match source { NodeOrGraph::Node(s) => self.source_error(e, s, source_channel), NodeOrGraph::Graph => self.graph_source_error(e, source_channel) })
        || (match sink { NodeOrGraph::Node(k) => self.sink_error(e, k, sink_channel), NodeOrGraph::Graph => self.graph_sink_error(e, sink_channel) })
        || (e == GraphError::CircularConnection && !feedback && source is Node && sink is Node && self.path(sink->Node_0.key, source->Node_0.key))
    }
    /*@extract knaster_graph/src/graph.rs | impl<F: Float> Graph<F> | connect2 | ret=r
    requires old(self).inv(),
    ensures final(self).inv(), match r { Ok(()) => final(self).recalculation_required && final(self).made(*old(self), source, source_channel, sink, sink_channel, true, false), Err(e) => *final(self) == *old(self) && old(self).edit_error(e, source, source_channel, sink, sink_channel, false) },
    @sig /impl Into<NodeOrGraph>/ => NodeOrGraph
    @sub? /(source|sink)\.into\(\)/ => \1
    @sub? /log::error!\([\s\S]*?\n\s*\);/ =>  
    @*/
    /*@extract knaster_graph/src/graph.rs | impl<F: Float> Graph<F> | connect2_replace | ret=r
    requires old(self).inv(),
    ensures final(self).inv(), match r { Ok(()) => final(self).recalculation_required && final(self).made(*old(self), source, source_channel, sink, sink_channel, false, false), Err(e) => *final(self) == *old(self) && old(self).edit_error(e, source, source_channel, sink, sink_channel, false) },
    @sub? /log::error!\([\s\S]*?\n\s*\);/ =>  
    @*/
    /*@extract knaster_graph/src/graph.rs | impl<F: Float> Graph<F> | connect2_feedback | ret=r
    requires old(self).inv(),
    ensures final(self).inv(), match r { Ok(()) => final(self).recalculation_required && final(self).made(*old(self), source, source_channel, sink, sink_channel, true, true), Err(e) => *final(self) == *old(self) && old(self).edit_error(e, source, source_channel, sink, sink_channel, true) },
    @sub? /log::error!\([\s\S]*?\n\s*\);/ =>  
    @*/
    /*@extract knaster_graph/src/graph.rs | impl<F: Float> Graph<F> | connect2_feedback_replace | ret=r
    requires old(self).inv(),
    ensures final(self).inv(), match r { Ok(()) => final(self).recalculation_required && final(self).made(*old(self), source, source_channel, sink, sink_channel, false, true), Err(e) => *final(self) == *old(self) && old(self).edit_error(e, source, source_channel, sink, sink_channel, true) },
    @sub? /log::error!\([\s\S]*?\n\s*\);/ =>  
    @*/

    /*@extract knaster_graph/src/graph.rs | impl<F: Float> Graph<F> | connect_to_parameter | ret=r
    requires old(self).inv(),
    ensures final(self).inv(), match r { Ok(()) => final(self).made_par(*old(self), source, source_channel, parameter, sink, true), Err(e) => *final(self) == *old(self) && old(self).par_edit_error(e, source, source_channel, parameter, sink) },
    @sig /impl Into<NodeId>/ => NodeId
    @sig /impl Into<Param>/ => Param
    @*/
    /*@extract knaster_graph/src/graph.rs | impl<F: Float> Graph<F> | connect_replace_to_parameter | ret=r
    requires old(self).inv(),
    ensures final(self).inv(), match r { Ok(()) => final(self).made_par(*old(self), source, source_channel, parameter, sink, false), Err(e) => *final(self) == *old(self) && old(self).par_edit_error(e, source, source_channel, parameter, sink) },
    @sig /impl Into<NodeId>/ => NodeId
    @sig /impl Into<Param>/ => Param
    @*/
    spec fn made_par(self, g: Graph, source: NodeId, source_channel: u16, parameter: Param, sink: NodeId, additive: bool) -> bool {
        g.has_output(source, source_channel) && sink.graph == g.graph_id && g.node_input_edges.has(sink.key) && g.param_index(sink.key, parameter) is Some && !g.path(sink.key, source.key)
            && self.recalculation_required && self.linked_par(g, sink.key, ParameterEdge { source: source.key, channel_in_source: source_channel, parameter_index: g.param_index(sink.key, parameter)->0 }, additive)
    }
    spec fn par_edit_error(self, e: GraphError, source: NodeId, source_channel: u16, parameter: Param, sink: NodeId) -> bool {
        self.source_error(e, source, source_channel) || self.sink_error(e, sink, 0) || self.param_error(e, sink, parameter) || (e == GraphError::CircularConnection && self.path(sink.key, source.key))
    }

    // ---- removing
    spec fn hit(e: ParameterEdge, source: NodeKey, channel: Option<u16>) -> bool { e.source == source && (channel is None || channel->0 == e.channel_in_source) }
    spec fn kept(a: Seq<ParameterEdge>, source: NodeKey, channel: Option<u16>) -> Seq<ParameterEdge> { a.filter(|e: ParameterEdge| !Self::hit(e, source, channel)) }
    /// the parameter edges of `source` are gone, and noted
    spec fn pars_removed(self, g: Graph, source: NodeKey, channel: Option<u16>) -> bool {
        &&& self.node_parameter_edges@.dom() == g.node_parameter_edges@.dom()
        &&& forall|k: NodeKey| #[trigger] g.node_parameter_edges.has(k) ==> self.pars(k) == Self::kept(g.pars(k), source, channel)
        &&& forall|k: NodeKey, j: int| g.node_parameter_edges.has(k) && 0 <= j < g.pars(k).len() && Self::hit(#[trigger] g.pars(k)[j], source, channel) ==> self.disconnected_parameters@.contains((k, g.pars(k)[j].parameter_index))
        &&& forall|x: (NodeKey, u16)| g.disconnected_parameters@.contains(x) ==> #[trigger] self.disconnected_parameters@.contains(x)
    }
    spec fn same_but_pars(self, g: Graph) -> bool {
        self.graph_id == g.graph_id && self.nodes == g.nodes && self.node_keys_to_free_when_safe == g.node_keys_to_free_when_safe && self.node_input_edges == g.node_input_edges && self.node_mortality == g.node_mortality && self.node_order == g.node_order
            && self.disconnected_nodes == g.disconnected_nodes && self.output_edges == g.output_edges && self.recalculation_required == g.recalculation_required && self.num_inputs == g.num_inputs && self.num_outputs == g.num_outputs
    }
    proof fn kept_step(p0: Seq<ParameterEdge>, c: int, source: NodeKey, channel: Option<u16>)
        requires 0 <= c < p0.len()
        ensures Self::kept(p0.take(c + 1), source, channel) == (if Self::hit(p0[c], source, channel) { Self::kept(p0.take(c), source, channel) } else { Self::kept(p0.take(c), source, channel).push(p0[c]) })
    {
        reveal(Seq::filter);
        assert(p0.take(c + 1).drop_last() =~= p0.take(c));
    }
    /*@extract knaster_graph/src/graph.rs | impl<F: Float> Graph<F> | remove_parameter_edges_from
    ensures final(self).same_but_pars(*old(self)), final(self).pars_removed(*old(self), source, source_channel),
    @sig /^/ => #[verifier::loop_isolation(false)]\n
    @sub? /for \((\w+), (\w+)\) in &mut self\.(\w+) \{/ => let ks = self.\3.keys(); for ki in ki_it: 0..ks.len() { let \1 = ks[ki]; let \2 = self.\3.at_mut(ks[ki]);
    @sub? /edges\.retain\(\|edge\| \{([\s\S]*?)!remove\s*\}\);/ => let mut ri: usize = 0; while ri < edges.len() { let keep = { let edge = &edges[ri]; \1!remove }; if keep { ri += 1; } else { edges.remove(ri); } }
    @sub? /source_channel\.is_none_or\(\|channel\| channel == edge\.channel_in_source\)/ => (match source_channel { None => true, Some(channel) => channel == edge.channel_in_source })
    @loop 0
        invariant
            ki_it.iter.end == ks@.len(), ki_it.snapshot.end == ks@.len(), ks@.no_duplicates(), forall|k: NodeKey| old(self).node_parameter_edges.has(k) <==> ks@.contains(k),
            self.same_but_pars(*old(self)), self.node_parameter_edges@.dom() == old(self).node_parameter_edges@.dom(),
            forall|i: int| 0 <= i < ks@.len() ==> self.pars(#[trigger] ks@[i]) == (if i < ki { Self::kept(old(self).pars(ks@[i]), source, source_channel) } else { old(self).pars(ks@[i]) }),
            forall|i: int, j: int| 0 <= i < ki && 0 <= j < old(self).pars(ks@[i]).len() && Self::hit(#[trigger] old(self).pars(ks@[i])[j], source, source_channel) ==> self.disconnected_parameters@.contains((ks@[i], old(self).pars(ks@[i])[j].parameter_index)),
            forall|x: (NodeKey, u16)| old(self).disconnected_parameters@.contains(x) ==> #[trigger] self.disconnected_parameters@.contains(x),
    @loopstart 0
        let ghost p0 = self.pars(ks@[ki as int]);
        let ghost d0 = self.disconnected_parameters@;
        let ghost mut c: int = 0;
        proof { assert(ks@.contains(ks@[ki as int])); reveal(Seq::filter); assert(Self::kept(p0.take(0), source, source_channel) =~= Seq::empty()); assert(p0.skip(0) =~= p0); assert(Self::kept(p0.take(0), source, source_channel) + p0.skip(0) =~= p0); }
    @loop 1
        invariant
            0 <= c <= p0.len(), edges@ == Self::kept(p0.take(c), source, source_channel) + p0.skip(c), ri == Self::kept(p0.take(c), source, source_channel).len(),
            forall|x: (NodeKey, u16)| d0.contains(x) ==> #[trigger] self.disconnected_parameters@.contains(x),
            forall|j: int| 0 <= j < c && Self::hit(#[trigger] p0[j], source, source_channel) ==> self.disconnected_parameters@.contains((node_key, p0[j].parameter_index)),
        decreases p0.len() - c,
    @loopstart 1
        let ghost d1 = self.disconnected_parameters@;
        proof { Self::kept_step(p0, c, source, source_channel); assert(edges@[ri as int] == p0[c]); }
    @loopend 1
        proof {
            let x = (node_key, p0[c].parameter_index);
            if Self::hit(p0[c], source, source_channel) { assert(self.disconnected_parameters@ == d1.push(x)); assert(self.disconnected_parameters@[d1.len() as int] == x); assert forall|y: (NodeKey, u16)| d1.contains(y) implies #[trigger] self.disconnected_parameters@.contains(y) by { let i = choose|i: int| 0 <= i < d1.len() && d1[i] == y; assert(self.disconnected_parameters@[i] == y); } }
            c = c + 1;
            assert(edges@ =~= Self::kept(p0.take(c), source, source_channel) + p0.skip(c));
        }
    @loopend 0
        proof {
            assert(p0.take(p0.len() as int) =~= p0); assert(edges@ =~= Self::kept(p0, source, source_channel));
            assert forall|i: int| 0 <= i < ks@.len() && i != ki implies #[trigger] ks@[i] != ks@[ki as int] by {}
        }
    @*/

    spec fn alive(self, e: Option<Edge>) -> Option<Edge> { if e is Some && e->0.source is Node && !self.node_input_edges.has(e->0.source->Node_0) { None } else { e } }
    /// some nodes are gone, with the edges from them, and nothing else has changed
    spec fn shrunk(self, g: Graph) -> bool {
        &&& self.graph_id == g.graph_id && self.nodes == g.nodes && self.node_mortality == g.node_mortality && self.node_order == g.node_order && self.disconnected_nodes == g.disconnected_nodes && self.num_inputs == g.num_inputs && self.num_outputs == g.num_outputs
        &&& self.node_input_edges@.dom().subset_of(g.node_input_edges@.dom())
        &&& forall|x: NodeKey| #![trigger self.node_input_edges.has(x)] #![trigger self.node_parameter_edges.has(x)] self.node_input_edges.has(x) <==> self.node_parameter_edges.has(x)
        &&& forall|x: NodeKey| #[trigger] self.node_input_edges.has(x) ==> self.ins(x).len() == g.ins(x).len() && distinct(self.pars(x))
        &&& forall|x: NodeKey, j: int| self.node_input_edges.has(x) && 0 <= j < self.ins(x).len() ==> #[trigger] self.ins(x)[j] == self.alive(g.ins(x)[j])
        &&& forall|x: NodeKey, e: ParameterEdge| self.node_input_edges.has(x) ==> (#[trigger] self.pars(x).contains(e) <==> g.pars(x).contains(e) && self.node_input_edges.has(e.source))
        &&& self.output_edges@.len() == g.output_edges@.len() && forall|j: int| 0 <= j < self.output_edges@.len() ==> #[trigger] self.output_edges@[j] == self.alive(g.output_edges@[j])
        &&& forall|x: NodeKey| #[trigger] self.pending(x) <==> g.pending(x) || (g.node_input_edges.has(x) && !self.node_input_edges.has(x))
        // the parameters which have lost their source are noted
        &&& forall|x: NodeKey, e: ParameterEdge| self.node_input_edges.has(x) && #[trigger] g.pars(x).contains(e) && !self.node_input_edges.has(e.source) ==> self.disconnected_parameters@.contains((x, e.parameter_index))
        &&& forall|x: (NodeKey, u16)| g.disconnected_parameters@.contains(x) ==> #[trigger] self.disconnected_parameters@.contains(x)
        &&& g.pending_once() ==> self.pending_once()
    }
    proof fn shrunk_inv(self, g: Graph)
        requires g.inv(), self.shrunk(g)
        ensures self.inv()
    {
        assert forall|x: NodeKey, y: NodeKey| #[trigger] self.dep(x, y) implies g.dep(x, y) && self.node_input_edges.has(y) by {
            assert(g.node_input_edges.has(x));
            if exists|j: int| self.in_edge(y, x, j) { let j = choose|j: int| self.in_edge(y, x, j); assert(self.ins(x)[j] == self.alive(g.ins(x)[j])); assert(g.in_edge(y, x, j)); }
            else { let j = choose|j: int| self.par_edge(y, x, j); let e = self.pars(x)[j]; assert(self.pars(x).contains(e)); assert(g.pars(x).contains(e)); let l = choose|l: int| 0 <= l < g.pars(x).len() && g.pars(x)[l] == e; assert(g.par_edge(y, x, l)); }
        }
        self.fewer(g);
        assert forall|x: NodeKey| #[trigger] self.node_input_edges.has(x) implies self.ins_ok(x) && self.pars_ok(x) by {
            assert(g.node_input_edges.has(x)); assert(g.ins_ok(x) && g.pars_ok(x));
            assert forall|j: int| 0 <= j < self.ins(x).len() && (#[trigger] self.ins(x)[j]) is Some implies self.edge_ok(self.ins(x)[j]->0) by { assert(self.ins(x)[j] == self.alive(g.ins(x)[j])); assert(g.edge_ok(g.ins(x)[j]->0)); }
            assert forall|j: int| 0 <= j < self.pars(x).len() implies self.par_ok(x, #[trigger] self.pars(x)[j]) by { let e = self.pars(x)[j]; assert(self.pars(x).contains(e)); assert(g.pars(x).contains(e)); let l = choose|l: int| 0 <= l < g.pars(x).len() && g.pars(x)[l] == e; assert(g.par_ok(x, g.pars(x)[l])); }
        }
        assert forall|j: int| 0 <= j < self.output_edges@.len() && (#[trigger] self.output_edges@[j]) is Some implies self.edge_ok(self.output_edges@[j]->0) by { assert(self.output_edges@[j] == self.alive(g.output_edges@[j])); assert(g.edge_ok(g.output_edges@[j]->0)); }
        assert forall|k: NodeKey| #![trigger self.node_input_edges.has(k)] #![trigger self.nodes.has(k)] self.node_input_edges.has(k) <==> self.nodes.has(k) && !self.pending(k) by { assert(self.pending(k) <==> g.pending(k) || (g.node_input_edges.has(k) && !self.node_input_edges.has(k))); assert(g.node_input_edges.has(k) <==> g.nodes.has(k) && !g.pending(k)); }
        assert(self.wf()); assert(self.all_nodes());
        assert(self.nodes_ok());
    }
    proof fn shrunk_trans(self, m: Graph, g: Graph)
        requires g.inv(), self.shrunk(m), m.shrunk(g)
        ensures self.shrunk(g)
    {
        m.shrunk_inv(g);
        assert forall|x: NodeKey, j: int| self.node_input_edges.has(x) && 0 <= j < self.ins(x).len() implies #[trigger] self.ins(x)[j] == self.alive(g.ins(x)[j]) by { assert(m.node_input_edges.has(x)); assert(self.ins(x)[j] == self.alive(m.ins(x)[j])); assert(m.ins(x)[j] == m.alive(g.ins(x)[j])); }
        assert forall|x: NodeKey, e: ParameterEdge| self.node_input_edges.has(x) implies (#[trigger] self.pars(x).contains(e) <==> g.pars(x).contains(e) && self.node_input_edges.has(e.source)) by { assert(m.node_input_edges.has(x)); assert(self.pars(x).contains(e) <==> m.pars(x).contains(e) && self.node_input_edges.has(e.source)); assert(m.pars(x).contains(e) <==> g.pars(x).contains(e) && m.node_input_edges.has(e.source)); }
        assert forall|j: int| 0 <= j < self.output_edges@.len() implies #[trigger] self.output_edges@[j] == self.alive(g.output_edges@[j]) by { assert(self.output_edges@[j] == self.alive(m.output_edges@[j])); assert(m.output_edges@[j] == m.alive(g.output_edges@[j])); }
        assert forall|x: NodeKey| #[trigger] self.pending(x) <==> g.pending(x) || (g.node_input_edges.has(x) && !self.node_input_edges.has(x)) by { assert(m.pending(x) <==> g.pending(x) || (g.node_input_edges.has(x) && !m.node_input_edges.has(x))); }
        assert forall|x: NodeKey, e: ParameterEdge| self.node_input_edges.has(x) && #[trigger] g.pars(x).contains(e) && !self.node_input_edges.has(e.source) implies self.disconnected_parameters@.contains((x, e.parameter_index)) by {
            assert(m.node_input_edges.has(x));
            if m.node_input_edges.has(e.source) { assert(m.pars(x).contains(e)); } else { assert(m.disconnected_parameters@.contains((x, e.parameter_index))); }
        }
        assert forall|x: NodeKey| #[trigger] self.node_input_edges.has(x) implies self.ins(x).len() == g.ins(x).len() && distinct(self.pars(x)) by { assert(m.node_input_edges.has(x)); }
    }
    proof fn shrunk_self(self)
        requires self.inv()
        ensures self.shrunk(self)
    {
        assert forall|x: NodeKey| #[trigger] self.node_input_edges.has(x) implies distinct(self.pars(x)) by { assert(self.pars_ok(x)); }
        assert forall|x: NodeKey, j: int| self.node_input_edges.has(x) && 0 <= j < self.ins(x).len() implies #[trigger] self.ins(x)[j] == self.alive(self.ins(x)[j]) by { assert(self.ins_ok(x)); if self.ins(x)[j] is Some { assert(self.edge_ok(self.ins(x)[j]->0)); } }
        assert forall|x: NodeKey, e: ParameterEdge| self.node_input_edges.has(x) && #[trigger] self.pars(x).contains(e) implies self.node_input_edges.has(e.source) by { assert(self.pars_ok(x)); let l = choose|l: int| 0 <= l < self.pars(x).len() && self.pars(x)[l] == e; assert(self.par_ok(x, self.pars(x)[l])); }
        assert forall|j: int| 0 <= j < self.output_edges@.len() implies #[trigger] self.output_edges@[j] == self.alive(self.output_edges@[j]) by { if self.output_edges@[j] is Some { assert(self.edge_ok(self.output_edges@[j]->0)); } }
    }

    spec fn from_node(e: Option<Edge>, k: NodeKey) -> bool { e is Some && e->0.source == NodeKeyOrGraph::Node(k) }
    spec fn cleared(e: Option<Edge>, k: NodeKey) -> Option<Edge> { if Self::from_node(e, k) { None } else { e } }
    spec fn cleared_all(a: Seq<Option<Edge>>, k: NodeKey) -> Seq<Option<Edge>> { Seq::new(a.len(), |j: int| Self::cleared(a[j], k)) }
    /// the edges to and from k are gone, and k waits to be removed
    spec fn dropped(self, g: Graph, k: NodeKey) -> bool {
        &&& self.graph_id == g.graph_id && self.nodes == g.nodes && self.node_mortality == g.node_mortality && self.node_order == g.node_order && self.disconnected_nodes == g.disconnected_nodes && self.num_inputs == g.num_inputs && self.num_outputs == g.num_outputs
        &&& self.node_input_edges@.dom() == g.node_input_edges@.dom().remove(k)
        &&& self.node_parameter_edges@.dom() == g.node_parameter_edges@.dom().remove(k)
        &&& forall|x: NodeKey| #[trigger] self.node_input_edges.has(x) ==> self.ins(x) == Self::cleared_all(g.ins(x), k) && self.pars(x) == Self::kept(g.pars(x), k, None)
        &&& forall|x: NodeKey, j: int| self.node_input_edges.has(x) && 0 <= j < g.pars(x).len() && (#[trigger] g.pars(x)[j]).source == k ==> self.disconnected_parameters@.contains((x, g.pars(x)[j].parameter_index))
        &&& forall|x: (NodeKey, u16)| g.disconnected_parameters@.contains(x) ==> #[trigger] self.disconnected_parameters@.contains(x)
        &&& self.output_edges@ == Self::cleared_all(g.output_edges@, k)
        &&& self.node_keys_to_free_when_safe@.len() == g.node_keys_to_free_when_safe@.len() + 1 && self.node_keys_to_free_when_safe@.last().0 == k && self.node_keys_to_free_when_safe@.drop_last() == g.node_keys_to_free_when_safe@
    }
    proof fn dropped_shrunk(self, g: Graph, k: NodeKey)
        requires g.inv(), g.node_input_edges.has(k), self.dropped(g, k)
        ensures self.shrunk(g)
    {
        assert forall|x: NodeKey| #![trigger self.node_input_edges.has(x)] #![trigger self.node_parameter_edges.has(x)] self.node_input_edges.has(x) <==> self.node_parameter_edges.has(x) by { assert(g.node_input_edges.has(x) <==> g.node_parameter_edges.has(x)); assert(self.node_parameter_edges@.dom().contains(x) <==> g.node_parameter_edges@.dom().remove(k).contains(x)); assert(self.node_input_edges@.dom().contains(x) <==> g.node_input_edges@.dom().remove(k).contains(x)); }
        assert forall|x: NodeKey| self.node_input_edges.has(x) <==> g.node_input_edges.has(x) && x != k by { assert(self.node_input_edges@.dom().contains(x) <==> g.node_input_edges@.dom().remove(k).contains(x)); }
        assert forall|x: NodeKey, j: int| self.node_input_edges.has(x) && 0 <= j < self.ins(x).len() implies #[trigger] self.ins(x)[j] == self.alive(g.ins(x)[j]) by { assert(g.ins_ok(x)); if g.ins(x)[j] is Some { assert(g.edge_ok(g.ins(x)[j]->0)); } }
        assert forall|j: int| 0 <= j < self.output_edges@.len() implies #[trigger] self.output_edges@[j] == self.alive(g.output_edges@[j]) by { if g.output_edges@[j] is Some { assert(g.edge_ok(g.output_edges@[j]->0)); } }
        assert forall|x: NodeKey, e: ParameterEdge| self.node_input_edges.has(x) implies (#[trigger] self.pars(x).contains(e) <==> g.pars(x).contains(e) && self.node_input_edges.has(e.source)) by {
            Self::kept_contains(g.pars(x), k, None, e);
            assert(g.pars_ok(x));
            if g.pars(x).contains(e) { let l = choose|l: int| 0 <= l < g.pars(x).len() && g.pars(x)[l] == e; assert(g.par_ok(x, g.pars(x)[l])); }
        }
        assert forall|x: NodeKey| #[trigger] self.node_input_edges.has(x) implies distinct(self.pars(x)) by { assert(g.pars_ok(x)); Self::kept_distinct(g.pars(x), k, None); }
        assert(self.pending_once()) by { let (a, b) = (self.node_keys_to_free_when_safe@, g.node_keys_to_free_when_safe@); assert forall|i: int, j: int| 0 <= i < j < a.len() implies (#[trigger] a[i]).0 != (#[trigger] a[j]).0 by { assert(a.drop_last()[i] == a[i]); assert(b[i] == a[i]); if j < b.len() { assert(a.drop_last()[j] == a[j]); assert(b[j] == a[j]); } else { if a[i].0 == k { assert(g.pending(k)); assert(g.nodes.has(k)); } } } }
        assert forall|x: NodeKey| #[trigger] self.pending(x) <==> g.pending(x) || x == k by {
            let (a, b) = (self.node_keys_to_free_when_safe@, g.node_keys_to_free_when_safe@);
            if self.pending(x) { let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).0 == x; if i < b.len() { assert(a.drop_last()[i] == a[i]); assert(b[i].0 == x); } }
            if g.pending(x) { let i = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i]).0 == x; assert(a.drop_last()[i] == a[i]); assert(a[i].0 == x); }
            if x == k { assert(a[b.len() as int].0 == x); }
        }
        assert forall|x: NodeKey, e: ParameterEdge| self.node_input_edges.has(x) && #[trigger] g.pars(x).contains(e) && !self.node_input_edges.has(e.source) implies self.disconnected_parameters@.contains((x, e.parameter_index)) by {
            let l = choose|l: int| 0 <= l < g.pars(x).len() && g.pars(x)[l] == e; assert(g.pars_ok(x)); assert(g.par_ok(x, g.pars(x)[l])); assert(g.pars(x)[l].source == k);
        }
    }
    proof fn kept_contains(a: Seq<ParameterEdge>, k: NodeKey, c: Option<u16>, e: ParameterEdge)
        ensures Self::kept(a, k, c).contains(e) <==> a.contains(e) && !Self::hit(e, k, c)
        decreases a.len()
    {
        reveal(Seq::filter);
        if a.len() > 0 {
            let b = a.drop_last();
            assert(a.take(a.len() as int) =~= a); assert(a.take(a.len() - 1) =~= b);
            Self::kept_step(a, a.len() - 1, k, c);
            Self::kept_contains(b, k, c, e);
            let (x, y) = (Self::kept(a, k, c), Self::kept(b, k, c));
            if b.contains(e) { let i = choose|i: int| 0 <= i < b.len() && b[i] == e; assert(a[i] == e); }
            if a.contains(e) { let i = choose|i: int| 0 <= i < a.len() && a[i] == e; if i < b.len() { assert(b[i] == e); } }
            if a.last() == e { assert(a[a.len() - 1] == e); }
            if !Self::hit(a.last(), k, c) {
                assert(x == y.push(a.last())); assert(x[y.len() as int] == a.last());
                if y.contains(e) { let i = choose|i: int| 0 <= i < y.len() && y[i] == e; assert(x[i] == e); }
                if x.contains(e) { let i = choose|i: int| 0 <= i < x.len() && x[i] == e; if i < y.len() { assert(y[i] == e); } }
            }
        }
    }
    proof fn kept_distinct(a: Seq<ParameterEdge>, k: NodeKey, c: Option<u16>)
        requires distinct(a)
        ensures distinct(Self::kept(a, k, c))
        decreases a.len()
    {
        reveal(Seq::filter);
        if a.len() > 0 {
            let b = a.drop_last();
            assert(distinct(b)) by { assert forall|i: int, j: int| 0 <= i < j < b.len() implies (#[trigger] b[i]).parameter_index != (#[trigger] b[j]).parameter_index by { assert(a[i].parameter_index != a[j].parameter_index); } }
            Self::kept_distinct(b, k, c);
            assert(a.take(a.len() as int) =~= a); assert(a.take(a.len() - 1) =~= b);
            Self::kept_step(a, a.len() - 1, k, c);
            let (x, y) = (Self::kept(a, k, c), Self::kept(b, k, c));
            if !Self::hit(a.last(), k, c) {
                assert(x == y.push(a.last()));
                assert forall|i: int, j: int| 0 <= i < j < x.len() implies (#[trigger] x[i]).parameter_index != (#[trigger] x[j]).parameter_index by {
                    if j == y.len() { assert(y.contains(y[i])); Self::kept_contains(b, k, c, y[i]); let l = choose|l: int| 0 <= l < b.len() && b[l] == y[i]; assert(a[l].parameter_index != a[a.len() - 1].parameter_index); }
                }
            }
        }
    }
    /// `key` and the nodes which depend on it, one after the other, have been removed; nothing which is immortal
    spec fn freed(self, g: Graph, key: NodeKey) -> bool {
        &&& self.shrunk(g) && !self.node_input_edges.has(key) && self.recalculation_required
        &&& forall|x: NodeKey| g.node_input_edges.has(x) && !#[trigger] self.node_input_edges.has(x) ==> g.node_mortality@[x] && (x == key || exists|y: NodeKey| g.node_input_edges.has(y) && !#[trigger] self.node_input_edges.has(y) && g.nodes@[y].strong_dependent == Some(x))
        &&& forall|x: NodeKey, y: NodeKey| g.node_input_edges.has(y) && !#[trigger] self.node_input_edges.has(y) && g.nodes@[y].strong_dependent == Some(x) && g.node_input_edges.has(x) && g.node_mortality@[x] ==> !#[trigger] self.node_input_edges.has(x)
    }
    proof fn freed_step(self, m: Graph, g: Graph, k: NodeKey)
        requires
            g.inv(), m.inv(), m.shrunk(g), g.node_input_edges.has(k), g.node_mortality@[k], m.recalculation_required, forall|x: NodeKey| m.node_input_edges.has(x) <==> g.node_input_edges.has(x) && x != k,
            g.nodes@[k].strong_dependent is None ==> self == m,
            g.nodes@[k].strong_dependent is Some ==> ({ let d = g.nodes@[k].strong_dependent->0; (self == m && (!m.nodes.has(d) || !m.node_mortality@[d] || m.pending(d))) || self.freed(m, d) }),
        ensures self.freed(g, k)
    {
        if self == m {
            assert forall|x: NodeKey, y: NodeKey| g.node_input_edges.has(y) && !#[trigger] self.node_input_edges.has(y) && g.nodes@[y].strong_dependent == Some(x) && g.node_input_edges.has(x) && g.node_mortality@[x] implies !#[trigger] self.node_input_edges.has(x) by { assert(y == k); assert(m.node_input_edges.has(x) <==> m.nodes.has(x) && !m.pending(x)); }
        } else {
            let d = g.nodes@[k].strong_dependent->0;
            self.shrunk_trans(m, g);
            assert(!self.node_input_edges.has(k));
            assert forall|x: NodeKey| g.node_input_edges.has(x) && !#[trigger] self.node_input_edges.has(x) implies g.node_mortality@[x] && (x == k || exists|y: NodeKey| g.node_input_edges.has(y) && !#[trigger] self.node_input_edges.has(y) && g.nodes@[y].strong_dependent == Some(x)) by {
                if x != k {
                    assert(m.node_input_edges.has(x)); assert(m.node_mortality@[x]);
                    if x == d { assert(g.node_input_edges.has(k) && !self.node_input_edges.has(k)); }
                    else { let y = choose|y: NodeKey| m.node_input_edges.has(y) && !#[trigger] self.node_input_edges.has(y) && m.nodes@[y].strong_dependent == Some(x); assert(g.node_input_edges.has(y)); }
                }
            }
            assert forall|x: NodeKey, y: NodeKey| g.node_input_edges.has(y) && !#[trigger] self.node_input_edges.has(y) && g.nodes@[y].strong_dependent == Some(x) && g.node_input_edges.has(x) && g.node_mortality@[x] implies !#[trigger] self.node_input_edges.has(x) by { if y != k && x != k { assert(m.node_input_edges.has(y)); assert(m.node_input_edges.has(x)); assert(m.nodes@[y].strong_dependent == Some(x)); } }
        }
    }
    /*@extract knaster_graph/src/graph.rs | impl<F: Float> Graph<F> | free_node_from_key | ret=r
    requires old(self).inv(),
    ensures
        final(self).inv(),
        r is Err ==> *final(self) == *old(self) && (!old(self).nodes.has(node_key) && r->Err_0 == FreeError::NodeNotFound || old(self).nodes.has(node_key) && !old(self).node_mortality@[node_key] && r->Err_0 == FreeError::ImmortalNode),
        r is Ok ==> old(self).nodes.has(node_key) && old(self).node_mortality@[node_key] && final(self).pending(node_key),
        r is Ok && old(self).pending(node_key) ==> *final(self) == *old(self),
        r is Ok && !old(self).pending(node_key) ==> final(self).freed(*old(self), node_key),
    decreases old(self).node_input_edges@.dom().len(),
    @sig /^/ => #[verifier::loop_isolation(false)]\n
    @sub? /self\.get_nodes(_mut)?\(\)/ => self.nodes
    @sub? /!self\.node_mortality\[node_key\]/ => !*self.node_mortality.at(node_key)
    @sub? /self\s*\.node_keys_to_free_when_safe\s*\.iter\(\)\s*\.any\(\|\(key, _\)\| \*key == node_key\)/ => has_key(&self.node_keys_to_free_when_safe, &node_key)
    @sub? /let ggc = &mut self\.graph_gen_communicator;/ => 
    @sub? /ggc\.next_change_flag\.clone\(\)/ => next_change_flag()
    @sub? /self\.nodes\[node_key\]/ => self.nodes.at(node_key)
    @sub? /\.ok\(\);/ => ;
    @sub? /self\.remove_parameter_edges_from\(node_key, None\);/ => let ghost s0 = *self; self.remove_parameter_edges_from(node_key, None);
    @sub? /for \((\w+), (\w+)\) in &mut self\.(\w+) \{/ => let ghost s1 = *self; let ks = self.\3.keys(); for ki in ki_it: 0..ks.len() { let \1 = ks[ki]; let \2 = self.\3.at_mut(ks[ki]);
    @loop 0
        invariant
            ki_it.iter.end == ks@.len(), ki_it.snapshot.end == ks@.len(), ks@.no_duplicates(), forall|k: NodeKey| s1.node_input_edges.has(k) <==> ks@.contains(k),
            *self == (Graph { node_input_edges: self.node_input_edges, ..s1 }), self.node_input_edges@.dom() == s1.node_input_edges@.dom(),
            forall|i: int| 0 <= i < ks@.len() ==> self.ins(#[trigger] ks@[i]) == (if i < ki { Self::cleared_all(s1.ins(ks@[i]), node_key) } else { s1.ins(ks@[i]) }),
    @loopstart 0
        let ghost e0 = self.ins(ks@[ki as int]);
        proof { assert(ks@.contains(ks@[ki as int])); }
    @loop 1
        invariant
            0 <= i <= input_edges@.len(), input_edges@.len() == e0.len(),
            forall|j: int| 0 <= j < i ==> #[trigger] input_edges@[j] == Self::cleared(e0[j], node_key),
            forall|j: int| i < j < e0.len() ==> #[trigger] input_edges@[j] == e0[j],
            i < e0.len() ==> input_edges@[i as int] == e0[i as int] || (input_edges@[i as int] is None && Self::from_node(e0[i as int], node_key)),
        decreases 2 * (e0.len() - i) + (if i < e0.len() && input_edges@[i as int] is Some { 1int } else { 0int }),
    @loopend 0
        proof {
            assert(self.ins(ks@[ki as int]) =~= Self::cleared_all(e0, node_key));
            assert forall|i: int| 0 <= i < ks@.len() && i != ki implies #[trigger] ks@[i] != ks@[ki as int] by {}
        }
    @afterloop 0
        let ghost s2 = *self;
    @loop 2
        invariant
            *self == (Graph { output_edges: self.output_edges, ..s2 }),
            0 <= i <= self.output_edges@.len(), self.output_edges@.len() == s2.output_edges@.len(),
            forall|j: int| 0 <= j < i ==> #[trigger] self.output_edges@[j] == Self::cleared(s2.output_edges@[j], node_key),
            forall|j: int| i < j < s2.output_edges@.len() ==> #[trigger] self.output_edges@[j] == s2.output_edges@[j],
            i < s2.output_edges@.len() ==> self.output_edges@[i as int] == s2.output_edges@[i as int] || (self.output_edges@[i as int] is None && Self::from_node(s2.output_edges@[i as int], node_key)),
        decreases 2 * (s2.output_edges@.len() - i) + (if i < s2.output_edges@.len() && self.output_edges@[i as int] is Some { 1int } else { 0int }),
    @afterloop 2
        proof { assert(self.output_edges@ =~= Self::cleared_all(s2.output_edges@, node_key)); }
    @sub? /\n\s*Ok\(\(\)\)\s*\}$/ => \n proof { self.freed_step(s3, *old(self), node_key); }\n Ok(())\n }
    @sub? /if let Some\(dep\) = / => let ghost s3 = *self; proof { let g = *old(self); let k = node_key; assert(s3.node_input_edges@.dom() =~= g.node_input_edges@.dom().remove(k)); assert(s3.node_parameter_edges@.dom() =~= g.node_parameter_edges@.dom().remove(k)); assert forall|x: NodeKey, j: int| s3.node_input_edges.has(x) && 0 <= j < g.pars(x).len() && (#[trigger] g.pars(x)[j]).source == k implies s3.disconnected_parameters@.contains((x, g.pars(x)[j].parameter_index)) by { assert(g.node_parameter_edges.has(x)); assert(s0.node_parameter_edges.has(x)); assert(Self::hit(s0.pars(x)[j], k, None)); } assert(s3.output_edges@ =~= Self::cleared_all(g.output_edges@, k)); assert forall|x: NodeKey| #[trigger] s3.node_input_edges.has(x) implies s3.ins(x) == Self::cleared_all(g.ins(x), k) && s3.pars(x) == Self::kept(g.pars(x), k, None) by { assert(s1.node_input_edges.has(x)); assert(ks@.contains(x)); let i = choose|i: int| 0 <= i < ks@.len() && ks@[i] == x; assert(s3.ins(ks@[i]) == Self::cleared_all(s1.ins(ks@[i]), k)); assert(g.node_parameter_edges.has(x)); assert(s0.node_parameter_edges.has(x)); } assert(s3.node_keys_to_free_when_safe@.drop_last() =~= g.node_keys_to_free_when_safe@); assert(s3.dropped(g, k)); s3.dropped_shrunk(g, k); s3.shrunk_inv(g); assert(s3.pending(k)); assert(s3.nodes == g.nodes); assert(forall|x: NodeKey| s3.node_input_edges.has(x) <==> g.node_input_edges.has(x) && x != k); } if let Some(dep) =
    @*/

    // ---- disconnecting
    spec fn is_from(e: Option<Edge>, source: NodeKeyOrGraph, c: u16) -> bool { e is Some && e->0.source == source && e->0.channel_in_source == c }
    spec fn cut(a: Seq<Option<Edge>>, source: NodeKeyOrGraph, c: u16) -> Seq<Option<Edge>> { Seq::new(a.len(), |j: int| if Self::is_from(a[j], source, c) { None } else { a[j] }) }
    /// the edges from channel c of the source are gone
    spec fn cut_from(self, g: Graph, source: NodeKeyOrGraph, c: u16) -> bool {
        &&& self.graph_id == g.graph_id && self.nodes == g.nodes && self.node_keys_to_free_when_safe == g.node_keys_to_free_when_safe && self.node_mortality == g.node_mortality && self.node_order == g.node_order && self.disconnected_nodes == g.disconnected_nodes && self.num_inputs == g.num_inputs && self.num_outputs == g.num_outputs
        &&& self.node_input_edges@.dom() == g.node_input_edges@.dom()
        &&& self.node_parameter_edges@.dom() == g.node_parameter_edges@.dom()
        &&& forall|x: NodeKey| #[trigger] self.node_input_edges.has(x) ==> self.ins(x) == Self::cut(g.ins(x), source, c)
        &&& self.output_edges@ == Self::cut(g.output_edges@, source, c)
        &&& source is Graph ==> self.node_parameter_edges == g.node_parameter_edges && self.disconnected_parameters == g.disconnected_parameters
        &&& source is Node ==> {
            &&& forall|x: NodeKey| #[trigger] self.node_parameter_edges.has(x) ==> self.pars(x) == Self::kept(g.pars(x), source->Node_0, Some(c))
            &&& forall|x: NodeKey, j: int| g.node_parameter_edges.has(x) && 0 <= j < g.pars(x).len() && Self::hit(#[trigger] g.pars(x)[j], source->Node_0, Some(c)) ==> self.disconnected_parameters@.contains((x, g.pars(x)[j].parameter_index))
            &&& forall|x: (NodeKey, u16)| g.disconnected_parameters@.contains(x) ==> #[trigger] self.disconnected_parameters@.contains(x)
        }
    }
    proof fn cut_inv(self, g: Graph, source: NodeKeyOrGraph, c: u16)
        requires g.inv(), self.cut_from(g, source, c)
        ensures self.inv()
    {
        assert forall|x: NodeKey, e: ParameterEdge| g.node_input_edges.has(x) && #[trigger] self.pars(x).contains(e) implies g.pars(x).contains(e) by { assert(g.node_parameter_edges.has(x)); assert(self.node_parameter_edges.has(x)); if source is Node { Self::kept_contains(g.pars(x), source->Node_0, Some(c), e); } }
        assert forall|x: NodeKey, y: NodeKey| #[trigger] self.dep(x, y) implies g.dep(x, y) by {
            assert(g.node_input_edges.has(x));
            if exists|j: int| self.in_edge(y, x, j) { let j = choose|j: int| self.in_edge(y, x, j); assert(g.in_edge(y, x, j)); }
            else { let j = choose|j: int| self.par_edge(y, x, j); let e = self.pars(x)[j]; assert(self.pars(x).contains(e)); assert(g.pars(x).contains(e)); let l = choose|l: int| 0 <= l < g.pars(x).len() && g.pars(x)[l] == e; assert(g.par_edge(y, x, l)); }
        }
        self.fewer(g);
        assert forall|x: NodeKey| #![trigger self.node_input_edges.has(x)] #![trigger self.node_parameter_edges.has(x)] self.node_input_edges.has(x) <==> self.node_parameter_edges.has(x) by { assert(g.node_input_edges.has(x) <==> g.node_parameter_edges.has(x)); }
        assert forall|x: NodeKey| #[trigger] self.node_input_edges.has(x) implies self.ins_ok(x) && self.pars_ok(x) by {
            assert(g.node_input_edges.has(x)); assert(g.ins_ok(x) && g.pars_ok(x)); assert(self.node_parameter_edges.has(x));
            assert forall|j: int| 0 <= j < self.ins(x).len() && (#[trigger] self.ins(x)[j]) is Some implies self.edge_ok(self.ins(x)[j]->0) by { assert(g.edge_ok(g.ins(x)[j]->0)); }
            assert forall|j: int| 0 <= j < self.pars(x).len() implies self.par_ok(x, #[trigger] self.pars(x)[j]) by { let e = self.pars(x)[j]; assert(self.pars(x).contains(e)); assert(g.pars(x).contains(e)); let l = choose|l: int| 0 <= l < g.pars(x).len() && g.pars(x)[l] == e; assert(g.par_ok(x, g.pars(x)[l])); }
            if source is Node { Self::kept_distinct(g.pars(x), source->Node_0, Some(c)); }
        }
        assert forall|j: int| 0 <= j < self.output_edges@.len() && (#[trigger] self.output_edges@[j]) is Some implies self.edge_ok(self.output_edges@[j]->0) by { assert(g.edge_ok(g.output_edges@[j]->0)); }
        assert forall|k: NodeKey| #[trigger] self.pending(k) == g.pending(k) by {}
        assert(self.wf()); assert(self.all_nodes()); assert(self.nodes_ok());
    }
    /*@extract knaster_graph/src/graph.rs | impl<F: Float> Graph<F> | disconnect_output_from_source | ret=r
    requires old(self).inv(),
    ensures
        final(self).inv(),
        match r {
            Ok(()) => old(self).has_out(source, source_channel) && final(self).recalculation_required && final(self).cut_from(*old(self), key_of(source), source_channel),
            Err(e) => *final(self) == *old(self) && !old(self).has_out(source, source_channel) && match source { NodeOrGraph::Node(s) => old(self).source_error(e, s, source_channel), NodeOrGraph::Graph => e == GraphError::GraphInputOutOfBounds(source_channel) },
        },
    @sig /^/ => #[verifier::loop_isolation(false)]\n
    @sig /impl Into<NodeOrGraph>/ => NodeOrGraph
    @sub? /self\.get_nodes\(\)/ => &self.nodes
    @sub? /&nodes\[key\]/ => nodes.at(key)
    @sub? /let source: NodeKeyOrGraph = source\.into\(\);/ => let source = NodeKeyOrGraph::from(source); let ghost g = *self;
    @sub? /let source = source\.into\(\);/ => let source0 = source;
    @sub? /match source \{/ => match source0 {
    @sub? /NodeKeyOrGraph::from\(source\)/ => NodeKeyOrGraph::from(source0)
    @sub? /source == (\w+)\.source/ => same_source(&source, &\1.source)
    @sub? /for \((\w+), (\w+)\) in &mut self\.(\w+) \{/ => let ks = self.\3.keys(); for ki in ki_it: 0..ks.len() { let \1 = ks[ki]; let \2 = self.\3.at_mut(ks[ki]);
    @unfold 1 ai
    @unfold 2 bi
    @loop 0
        invariant
            ki_it.iter.end == ks@.len(), ki_it.snapshot.end == ks@.len(), ks@.no_duplicates(), forall|k: NodeKey| g.node_input_edges.has(k) <==> ks@.contains(k),
            *self == (Graph { node_input_edges: self.node_input_edges, ..g }), self.node_input_edges@.dom() == g.node_input_edges@.dom(),
            forall|i: int| 0 <= i < ks@.len() ==> self.ins(#[trigger] ks@[i]) == (if i < ki { Self::cut(g.ins(ks@[i]), source, source_channel) } else { g.ins(ks@[i]) }),
    @loopstart 0
        let ghost e0 = self.ins(ks@[ki as int]);
        proof { assert(ks@.contains(ks@[ki as int])); }
    @loop 1
        invariant
            ai_it.iter.end == e0.len(), ai_it.snapshot.end == e0.len(), input_edges@.len() == e0.len(),
            forall|j: int| 0 <= j < ai ==> #[trigger] input_edges@[j] == Self::cut(e0, source, source_channel)[j],
            forall|j: int| ai <= j < e0.len() ==> #[trigger] input_edges@[j] == e0[j],
    @loopend 0
        proof {
            assert(self.ins(ks@[ki as int]) =~= Self::cut(e0, source, source_channel));
            assert forall|i: int| 0 <= i < ks@.len() && i != ki implies #[trigger] ks@[i] != ks@[ki as int] by {}
        }
    @afterloop 0
        let ghost s2 = *self;
    @loop 2
        invariant
            *self == (Graph { output_edges: self.output_edges, ..s2 }),
            bi_it.iter.end == s2.output_edges@.len(), bi_it.snapshot.end == s2.output_edges@.len(), self.output_edges@.len() == s2.output_edges@.len(),
            forall|j: int| 0 <= j < bi ==> #[trigger] self.output_edges@[j] == Self::cut(s2.output_edges@, source, source_channel)[j],
            forall|j: int| bi <= j < s2.output_edges@.len() ==> #[trigger] self.output_edges@[j] == s2.output_edges@[j],
    @afterloop 2
        let ghost s3 = *self;
    @sub? /\n\s*Ok\(\(\)\)\s*\}$/ => \n proof { assert(self.output_edges@ =~= Self::cut(g.output_edges@, source, source_channel)); assert forall|x: NodeKey| #[trigger] self.node_input_edges.has(x) implies self.ins(x) == Self::cut(g.ins(x), source, source_channel) by { assert(ks@.contains(x)); let i = choose|i: int| 0 <= i < ks@.len() && ks@[i] == x; assert(self.ins(ks@[i]) == Self::cut(g.ins(ks@[i]), source, source_channel)); } if source is Node { assert forall|x: NodeKey| #[trigger] self.node_parameter_edges.has(x) implies self.pars(x) == Self::kept(g.pars(x), source->Node_0, Some(source_channel)) by { assert(s3.node_parameter_edges.has(x)); assert(s3.pars(x) == g.pars(x)); } assert forall|x: NodeKey, j: int| g.node_parameter_edges.has(x) && 0 <= j < g.pars(x).len() && Self::hit(#[trigger] g.pars(x)[j], source->Node_0, Some(source_channel)) implies self.disconnected_parameters@.contains((x, g.pars(x)[j].parameter_index)) by { assert(s3.node_parameter_edges.has(x)); assert(s3.pars(x) == g.pars(x)); assert(Self::hit(s3.pars(x)[j], source->Node_0, Some(source_channel))); } } assert(self.cut_from(g, source, source_channel)); self.cut_inv(g, source, source_channel); }\n Ok(())\n }
    @*/
    /*@extract knaster_graph/src/graph.rs | impl<F: Float> Graph<F> | set_mortality | ret=r
    requires old(self).inv(),
    ensures
        final(self).inv(),
        match r {
            Ok(()) => node.graph == old(self).graph_id && old(self).node_mortality.has(node.key) && *final(self) == (Graph { node_mortality: final(self).node_mortality, ..*old(self) }) && final(self).node_mortality@ == old(self).node_mortality@.insert(node.key, mortality),
            Err(e) => *final(self) == *old(self) && (node.graph != old(self).graph_id && e == GraphError::WrongSinkNodeGraph { expected_graph: old(self).graph_id, found_graph: node.graph } || node.graph == old(self).graph_id && !old(self).node_mortality.has(node.key) && e == GraphError::NodeNotFound),
        },
    @sig /impl Into<NodeId>/ => NodeId
    @sub? /let node = node\.into\(\);/ => 
    @sub? /if let Some\(m\) = self\.node_mortality\.get_mut\(node\.key\(\)\) \{/ => if self.node_mortality.contains_key(node.key()) { let m = self.node_mortality.at_mut(node.key());
    @sub? /\*m = mortality;/ => *m = mortality; proof { self.same_edges_inv(*old(self)); }
    @*/
    proof fn same_edges_inv(self, g: Graph)
        requires g.inv(), self == (Graph { node_mortality: self.node_mortality, recalculation_required: self.recalculation_required, ..g }), forall|x: NodeKey| g.node_mortality.has(x) ==> #[trigger] self.node_mortality.has(x)
        ensures self.inv()
    {
        assert forall|x: NodeKey, y: NodeKey| #[trigger] self.dep(x, y) == g.dep(x, y) by { self.same_reads(g, x, y); }
        self.fewer(g);
        assert forall|k: NodeKey| #[trigger] self.pending(k) == g.pending(k) by {}
        assert forall|x: NodeKey| #[trigger] self.node_input_edges.has(x) implies self.ins_ok(x) && self.pars_ok(x) by {
            assert(g.node_input_edges.has(x)); assert(g.ins_ok(x) && g.pars_ok(x)); assert(self.ins(x) == g.ins(x) && self.pars(x) == g.pars(x));
            assert forall|j: int| 0 <= j < self.ins(x).len() && (#[trigger] self.ins(x)[j]) is Some implies self.edge_ok(self.ins(x)[j]->0) by { assert(g.edge_ok(g.ins(x)[j]->0)); }
            assert forall|j: int| 0 <= j < self.pars(x).len() implies self.par_ok(x, #[trigger] self.pars(x)[j]) by { assert(g.par_ok(x, g.pars(x)[j])); }
        }
        assert forall|j: int| 0 <= j < self.output_edges@.len() && (#[trigger] self.output_edges@[j]) is Some implies self.edge_ok(self.output_edges@[j]->0) by { assert(g.edge_ok(g.output_edges@[j]->0)); }
    }
    spec fn has_out(self, source: NodeOrGraph, c: u16) -> bool { match source { NodeOrGraph::Node(s) => self.has_output(s, c), NodeOrGraph::Graph => c < self.num_inputs } }

    // ---- automatic removal
    spec fn rerouted(a: Seq<Option<Edge>>, k: NodeKey, e: Edge) -> Seq<Option<Edge>> { Seq::new(a.len(), |j: int| if Self::from_node(a[j], k) { Some(e) } else { a[j] }) }
    spec fn par_to(p: ParameterEdge, k: NodeKey, e: Edge) -> ParameterEdge { if e.source is Node && p.source == k { ParameterEdge { source: e.source->Node_0, channel_in_source: e.channel_in_source, parameter_index: p.parameter_index } } else { p } }
    spec fn par_rerouted(a: Seq<ParameterEdge>, k: NodeKey, e: Edge) -> Seq<ParameterEdge> { Seq::new(a.len(), |j: int| Self::par_to(a[j], k, e)) }
    /// whatever read k reads what e reads
    spec fn bypassed(self, g: Graph, k: NodeKey, e: Edge) -> bool {
        &&& self == (Graph { node_input_edges: self.node_input_edges, node_parameter_edges: self.node_parameter_edges, output_edges: self.output_edges, ..g })
        &&& self.node_input_edges@.dom() == g.node_input_edges@.dom() && self.node_parameter_edges@.dom() == g.node_parameter_edges@.dom()
        &&& forall|x: NodeKey| #[trigger] self.node_input_edges.has(x) ==> self.ins(x) == Self::rerouted(g.ins(x), k, e)
        &&& forall|x: NodeKey| #[trigger] self.node_parameter_edges.has(x) ==> self.pars(x) == Self::par_rerouted(g.pars(x), k, e)
        &&& self.output_edges@ == Self::rerouted(g.output_edges@, k, e)
    }
    spec fn in_of(self, k: NodeKey, e: Edge) -> bool { exists|j: int| 0 <= j < self.ins(k).len() && #[trigger] self.ins(k)[j] == Some(e) }
    proof fn bypassed_inv(self, g: Graph, k: NodeKey, e: Edge)
        requires g.inv(), self.bypassed(g, k, e), g.node_input_edges.has(k), g.in_of(k, e)
        ensures self.inv()
    {
        let c = choose|j: int| 0 <= j < g.ins(k).len() && #[trigger] g.ins(k)[j] == Some(e);
        assert(g.ins_ok(k)); assert(g.edge_ok(g.ins(k)[c]->0));
        if e.source is Node { assert(g.in_edge(e.source->Node_0, k, c)); assert(g.dep(k, e.source->Node_0)); }
        let r = choose|r: spec_fn(NodeKey) -> nat| g.ranked(r);
        assert forall|x: NodeKey| #![trigger self.node_input_edges.has(x)] #![trigger self.node_parameter_edges.has(x)] self.node_input_edges.has(x) <==> self.node_parameter_edges.has(x) by { assert(g.node_input_edges.has(x) <==> g.node_parameter_edges.has(x)); }
        assert forall|x: NodeKey, y: NodeKey| #[trigger] self.dep(x, y) implies (g.dep(x, y) || (g.dep(x, k) && g.dep(k, y))) by {
            assert(g.node_input_edges.has(x)); assert(self.node_parameter_edges.has(x));
            if exists|j: int| self.in_edge(y, x, j) {
                let j = choose|j: int| self.in_edge(y, x, j);
                if Self::from_node(g.ins(x)[j], k) { assert(g.in_edge(k, x, j)); assert(g.dep(x, k)); } else { assert(g.in_edge(y, x, j)); }
            } else {
                let j = choose|j: int| self.par_edge(y, x, j);
                if e.source is Node && g.pars(x)[j].source == k { assert(g.par_edge(k, x, j)); assert(g.dep(x, k)); } else { assert(g.par_edge(y, x, j)); }
            }
        }
        assert forall|x: NodeKey, y: NodeKey| #[trigger] self.dep(x, y) implies r(y) < r(x) by { if !g.dep(x, y) { assert(g.dep(x, k)); assert(g.dep(k, y)); } }
        assert(self.ranked(r));
        assert forall|x: NodeKey, y: NodeKey| #[trigger] self.dep(x, y) implies self.node_input_edges.has(y) by { if !g.dep(x, y) { assert(g.dep(k, y)); } }
        assert forall|x: NodeKey| #[trigger] self.node_input_edges.has(x) implies self.ins_ok(x) && self.pars_ok(x) by {
            assert(g.node_input_edges.has(x)); assert(g.ins_ok(x) && g.pars_ok(x)); assert(self.node_parameter_edges.has(x));
            assert forall|j: int| 0 <= j < self.ins(x).len() && (#[trigger] self.ins(x)[j]) is Some implies self.edge_ok(self.ins(x)[j]->0) by { if Self::from_node(g.ins(x)[j], k) { assert(g.edge_ok(e)); } else { assert(g.edge_ok(g.ins(x)[j]->0)); } }
            assert forall|j: int| 0 <= j < self.pars(x).len() implies self.par_ok(x, #[trigger] self.pars(x)[j]) by { assert(g.par_ok(x, g.pars(x)[j])); }
            assert forall|i: int, j: int| 0 <= i < j < self.pars(x).len() implies (#[trigger] self.pars(x)[i]).parameter_index != (#[trigger] self.pars(x)[j]).parameter_index by { assert(g.pars(x)[i].parameter_index != g.pars(x)[j].parameter_index); }
        }
        assert forall|j: int| 0 <= j < self.output_edges@.len() && (#[trigger] self.output_edges@[j]) is Some implies self.edge_ok(self.output_edges@[j]->0) by { if !Self::from_node(g.output_edges@[j], k) { assert(g.edge_ok(g.output_edges@[j]->0)); } }
        assert forall|x: NodeKey| #[trigger] self.pending(x) == g.pending(x) by {}
        assert(self.wf()); assert(self.all_nodes()); assert(self.edges_ok()); assert(self.nodes_ok());
    }
    /// the attempt to free k
    spec fn try_freed(self, g: Graph, k: NodeKey) -> bool { (self == g && (!g.nodes.has(k) || !g.node_mortality@[k] || g.pending(k))) || (g.nodes.has(k) && g.node_mortality@[k] && !g.pending(k) && self.freed(g, k)) }
    spec fn any_edge(a: Seq<Option<Edge>>) -> bool { exists|j: int| 0 <= j < a.len() && (#[trigger] a[j]) is Some }
    spec fn reads_any(a: Seq<Option<Edge>>, k: NodeKey) -> bool { exists|j: int| 0 <= j < a.len() && Self::from_node(#[trigger] a[j], k) }
    spec fn unconnected(self, k: NodeKey) -> bool { (self.node_input_edges.has(k) ==> !Self::any_edge(self.ins(k))) && self.unread(k) }
    /// a node which adds, and has lost one input or both, is replaced by what is left
    spec fn math_step(self, g: Graph, k: NodeKey) -> bool {
        if g.nodes@[k].auto_math_node && g.node_input_edges.has(k) {
            match (g.ins(k)[0], g.ins(k)[1]) {
                (Some(_), Some(_)) => self == g,
                (None, Some(e)) => exists|m: Graph| #[trigger] m.bypassed(g, k, e) && self.try_freed(m, k),
                (Some(e), None) => exists|m: Graph| #[trigger] m.bypassed(g, k, e) && self.try_freed(m, k),
                (None, None) => self.try_freed(g, k),
            }
        } else { self == g }
    }
    spec fn free_step(self, g: Graph, k: NodeKey) -> bool { if g.nodes@[k].auto_free_when_unconnected && g.unconnected(k) { self.try_freed(g, k) } else { self == g } }
    spec fn evaluated(self, g: Graph, k: NodeKey) -> bool { exists|m: Graph| #[trigger] m.math_step(g, k) && self.free_step(m, k) }
    /// nothing which the user has added is ever removed automatically
    proof fn only_automatic(self, g: Graph, k: NodeKey)
        requires self.evaluated(g, k), !g.nodes@[k].auto_math_node, !g.nodes@[k].auto_free_when_unconnected
        ensures self == g
    { let m = choose|m: Graph| #[trigger] m.math_step(g, k) && self.free_step(m, k); assert(m == g); }
    proof fn parts(self, k: NodeKey)
        requires self.inv(), self.nodes.has(k)
        ensures self.nodes@[k].auto_math_node ==> self.nodes@[k].data.inputs == 2 && self.nodes@[k].data.outputs == 1, self.node_input_edges.has(k) ==> self.ins(k).len() == self.nodes@[k].data.inputs,
    { if self.node_input_edges.has(k) { assert(self.ins_ok(k)); } }
    proof fn freed_nodes(self, g: Graph, k: NodeKey) requires self.freed(g, k) ensures self.nodes == g.nodes {}
    /*@extract knaster_graph/src/graph.rs | impl<F: Float> Graph<F> | evaluate_if_node_should_be_removed
    requires input_edge.source == NodeKeyOrGraph::Node(input),
    ensures
        *final(self) == (Graph { node_parameter_edges: final(self).node_parameter_edges, ..*old(self) }), final(self).node_parameter_edges@.dom() == old(self).node_parameter_edges@.dom(),
        forall|x: NodeKey| #[trigger] final(self).node_parameter_edges.has(x) ==> final(self).pars(x) == Self::par_rerouted(old(self).pars(x), key, input_edge),
    @cutloop 0 => #[verifier::loop_isolation(false)] fn reroute_parameters(&mut self, key: NodeKey, input: NodeKey, input_edge: Edge)
    @sub? /for \((\w+), (\w+)\) in &mut self\.node_parameter_edges \{/ => let ps = self.node_parameter_edges.keys(); for pi in pi_it: 0..ps.len() { let \1 = ps[pi]; let \2 = self.node_parameter_edges.at_mut(ps[pi]);
    @unfold 1 ai
    @loop 0
        invariant
            pi_it.iter.end == ps@.len(), pi_it.snapshot.end == ps@.len(), ps@.no_duplicates(), forall|k: NodeKey| old(self).node_parameter_edges.has(k) <==> ps@.contains(k),
            *self == (Graph { node_parameter_edges: self.node_parameter_edges, ..*old(self) }), self.node_parameter_edges@.dom() == old(self).node_parameter_edges@.dom(),
            forall|i: int| 0 <= i < ps@.len() ==> self.pars(#[trigger] ps@[i]) == (if i < pi { Self::par_rerouted(old(self).pars(ps@[i]), key, input_edge) } else { old(self).pars(ps@[i]) }),
    @loopstart 0
        let ghost p0 = self.pars(ps@[pi as int]);
        proof { assert(ps@.contains(ps@[pi as int])); }
    @loop 1
        invariant
            ai_it.iter.end == p0.len(), ai_it.snapshot.end == p0.len(), edges@.len() == p0.len(),
            forall|j: int| 0 <= j < ai ==> #[trigger] edges@[j] == Self::par_to(p0[j], key, input_edge),
            forall|j: int| ai <= j < p0.len() ==> #[trigger] edges@[j] == p0[j],
    @loopend 0
        proof {
            assert(self.pars(ps@[pi as int]) =~= Self::par_rerouted(p0, key, input_edge));
            assert forall|i: int| 0 <= i < ps@.len() && i != pi implies #[trigger] ps@[i] != ps@[pi as int] by {}
        }
    @afterloop 0
        proof { assert forall|x: NodeKey| #[trigger] self.node_parameter_edges.has(x) implies self.pars(x) == Self::par_rerouted(old(self).pars(x), key, input_edge) by { assert(ps@.contains(x)); let i = choose|i: int| 0 <= i < ps@.len() && ps@[i] == x; assert(self.pars(ps@[i]) == Self::par_rerouted(old(self).pars(ps@[i]), key, input_edge)); } }
    @*/
    /*@extract knaster_graph/src/graph.rs | impl<F: Float> Graph<F> | evaluate_if_node_should_be_removed
    ensures
        *final(self) == (Graph { node_input_edges: final(self).node_input_edges, ..*old(self) }), final(self).node_input_edges@.dom() == old(self).node_input_edges@.dom(),
        forall|x: NodeKey| #[trigger] final(self).node_input_edges.has(x) ==> final(self).ins(x) == Self::rerouted(old(self).ins(x), key, input_edge),
    @cutloop 2 => #[verifier::loop_isolation(false)] fn reroute_inputs(&mut self, key: NodeKey, input_edge: Edge)
    @sub? /let edge = edge\.as_mut\(\)\.unwrap\(\);/ => let edge = match edge { Some(x) => x, None => unreached() };
    @sub? /for \((\w+), (\w+)\) in &mut self\.(\w+) \{/ => let ks = self.\3.keys(); for ki in ki_it: 0..ks.len() { let \1 = ks[ki]; let \2 = self.\3.at_mut(ks[ki]);
    @unfold 1 bi
    @loop 0
        invariant
            ki_it.iter.end == ks@.len(), ki_it.snapshot.end == ks@.len(), ks@.no_duplicates(), forall|k: NodeKey| old(self).node_input_edges.has(k) <==> ks@.contains(k),
            *self == (Graph { node_input_edges: self.node_input_edges, ..*old(self) }), self.node_input_edges@.dom() == old(self).node_input_edges@.dom(),
            forall|i: int| 0 <= i < ks@.len() ==> self.ins(#[trigger] ks@[i]) == (if i < ki { Self::rerouted(old(self).ins(ks@[i]), key, input_edge) } else { old(self).ins(ks@[i]) }),
    @loopstart 0
        let ghost e0 = self.ins(ks@[ki as int]);
        proof { assert(ks@.contains(ks@[ki as int])); }
    @loop 1
        invariant
            bi_it.iter.end == e0.len(), bi_it.snapshot.end == e0.len(), input_edges@.len() == e0.len(),
            forall|j: int| 0 <= j < bi ==> #[trigger] input_edges@[j] == Self::rerouted(e0, key, input_edge)[j],
            forall|j: int| bi <= j < e0.len() ==> #[trigger] input_edges@[j] == e0[j],
    @loopend 0
        proof {
            assert(self.ins(ks@[ki as int]) =~= Self::rerouted(e0, key, input_edge));
            assert forall|i: int| 0 <= i < ks@.len() && i != ki implies #[trigger] ks@[i] != ks@[ki as int] by {}
        }
    @afterloop 0
        proof { assert forall|x: NodeKey| #[trigger] self.node_input_edges.has(x) implies self.ins(x) == Self::rerouted(old(self).ins(x), key, input_edge) by { assert(ks@.contains(x)); let i = choose|i: int| 0 <= i < ks@.len() && ks@[i] == x; assert(self.ins(ks@[i]) == Self::rerouted(old(self).ins(ks@[i]), key, input_edge)); } }
    @*/
    /*@extract knaster_graph/src/graph.rs | impl<F: Float> Graph<F> | evaluate_if_node_should_be_removed
    ensures *final(self) == (Graph { output_edges: final(self).output_edges, ..*old(self) }), final(self).output_edges@ == Self::rerouted(old(self).output_edges@, key, input_edge),
    @cutloop 4 => fn reroute_outputs(&mut self, key: NodeKey, input_edge: Edge)
    @unfold 0 ci
    @loop 0
        invariant
            *self == (Graph { output_edges: self.output_edges, ..*old(self) }),
            ci_it.iter.end == old(self).output_edges@.len(), ci_it.snapshot.end == old(self).output_edges@.len(), self.output_edges@.len() == old(self).output_edges@.len(),
            forall|j: int| 0 <= j < ci ==> #[trigger] self.output_edges@[j] == Self::rerouted(old(self).output_edges@, key, input_edge)[j],
            forall|j: int| ci <= j < old(self).output_edges@.len() ==> #[trigger] self.output_edges@[j] == old(self).output_edges@[j],
    @afterloop 0
        proof { assert(self.output_edges@ =~= Self::rerouted(old(self).output_edges@, key, input_edge)); }
    @*/
    /// no input of a node reads k
    spec fn unread(self, k: NodeKey) -> bool { forall|x: NodeKey| #[trigger] self.node_input_edges.has(x) ==> !Self::reads_any(self.ins(x), k) }
    /*@extract knaster_graph/src/graph.rs | impl<F: Float> Graph<F> | evaluate_if_node_should_be_removed | ret=r
    ensures r == (unconnected0 && self.unread(key)),
    @cutloop 5 => #[verifier::loop_isolation(false)] fn search_readers(&self, key: NodeKey, unconnected0: bool) -> bool
    @sub? /break 'unconnected_block;/ => 
    @sub /^\{/ => { let mut unconnected = unconnected0; 
    @sub /\}$/ => unconnected }
    @sub? /for \(_k, input_edges\) in &mut self\.node_input_edges \{/ => let us = self.node_input_edges.keys(); for ui in ui_it: 0..us.len() { let input_edges = self.node_input_edges.at(us[ui]);
    @unfold 1 di
    @loop 0
        invariant
            ui_it.iter.end == us@.len(), ui_it.snapshot.end == us@.len(), forall|k: NodeKey| self.node_input_edges.has(k) <==> us@.contains(k),
            unconnected == (unconnected0 && forall|i: int| 0 <= i < ui ==> !Self::reads_any(self.ins(#[trigger] us@[i]), key)),
    @loopstart 0
        proof { assert(us@.contains(us@[ui as int])); }
        let ghost u0 = unconnected;
    @loop 1
        invariant
            di_it.iter.end == input_edges@.len(), di_it.snapshot.end == input_edges@.len(), di_s@ == input_edges@, input_edges@ == self.ins(us@[ui as int]), 0 <= ui < us@.len(),
            unconnected == (u0 && forall|j: int| 0 <= j < di ==> !Self::from_node(#[trigger] input_edges@[j], key)),
    @loopend 0
        proof { assert(unconnected == (u0 && !Self::reads_any(self.ins(us@[ui as int]), key))); }
    @afterloop 0
        proof { assert(unconnected == (unconnected0 && self.unread(key))) by { assert forall|x: NodeKey| unconnected && #[trigger] self.node_input_edges.has(x) implies !Self::reads_any(self.ins(x), key) by { assert(us@.contains(x)); let i = choose|i: int| 0 <= i < us@.len() && us@[i] == x; assert(!Self::reads_any(self.ins(us@[i]), key)); } assert forall|i: int| 0 <= i < us@.len() && self.unread(key) implies !Self::reads_any(self.ins(#[trigger] us@[i]), key) by { assert(us@.contains(us@[i])); assert(self.node_input_edges.has(us@[i])); } } }
    @*/
    /*@extract knaster_graph/src/graph.rs | impl<F: Float> Graph<F> | evaluate_if_node_should_be_removed
    requires old(self).inv(), old(self).nodes.has(key),
    ensures final(self).inv(), final(self).evaluated(*old(self), key), final(self).nodes == old(self).nodes,
    @start
        hide(Graph::inv); hide(Graph::freed); 
        proof { old(self).parts(key); }
        let ghost g = *old(self);
    @callloop 0 => self.reroute_parameters(key, input, input_edge); 
    @callloop 2 => let ghost s1 = *self; self.reroute_inputs(key, input_edge); 
    @callloop 4 => self.reroute_outputs(key, input_edge); let ghost b1 = *self; proof { g.bypass_done(s1, b1, key, input_edge); } 
    @callloop 5 => unconnected = self.search_readers(key, unconnected);
    @sub? /let node = &mut self\.get_nodes_mut\(\)\[key\];/ => let node = self.nodes.at(key);
    @sub? /assert_eq!/ => check_eq
    @sub? /break 'unconnected_block;/ => 
    @sub? /'unconnected_block: \{/ => {
    @sub? /edges\.iter\(\)\.flatten\(\)\.peekable\(\)\.peek\(\)\.is_some\(\)/ => some_edge(edges)
    @sub? /\.ok\(\);/ => ; proof { reveal(Graph::freed); }
    @sub? /let node = self\.nodes\.at\(key\);(\s*if node\.auto_free)/ => let ghost mid = *self; proof { assert(mid.math_step(g, key)); } let node = self.nodes.at(key);\1
    @*/
    proof fn bypass_done(self, s: Graph, b: Graph, k: NodeKey, e: Edge)
        requires
            self.inv(), self.node_input_edges.has(k), self.ins(k).len() == 2, self.ins(k)[0] == Some(e) || self.ins(k)[1] == Some(e),
            e.source is Graph ==> s == self,
            s == (Graph { node_parameter_edges: s.node_parameter_edges, ..self }), s.node_parameter_edges@.dom() == self.node_parameter_edges@.dom(),
            e.source is Node ==> forall|x: NodeKey| #[trigger] s.node_parameter_edges.has(x) ==> s.pars(x) == Self::par_rerouted(self.pars(x), k, e),
            b == (Graph { node_input_edges: b.node_input_edges, output_edges: b.output_edges, ..s }), b.node_input_edges@.dom() == s.node_input_edges@.dom(),
            forall|x: NodeKey| #[trigger] b.node_input_edges.has(x) ==> b.ins(x) == Self::rerouted(s.ins(x), k, e),
            b.output_edges@ == Self::rerouted(s.output_edges@, k, e),
        ensures b.bypassed(self, k, e), b.inv()
    {
        assert forall|x: NodeKey| #[trigger] b.node_parameter_edges.has(x) implies b.pars(x) == Self::par_rerouted(self.pars(x), k, e) by { assert(s.node_parameter_edges.has(x)); if e.source is Graph { assert(b.pars(x) =~= Self::par_rerouted(self.pars(x), k, e)); } }
        assert(self.in_of(k, e));
        b.bypassed_inv(self, k, e);
    }

    spec fn marked(self) -> Graph { Graph { recalculation_required: true, ..self } }
    spec fn evaluated_source(self, g: Graph, e: Edge) -> bool { match e.source { NodeKeyOrGraph::Node(s) => self.evaluated(g, s), NodeKeyOrGraph::Graph => self == g } }
    spec fn out_gone(self, g: Graph, c: int) -> bool { self == (Graph { output_edges: self.output_edges, ..g }) && self.output_edges@ == g.output_edges@.update(c, None) }
    spec fn has_sink(self, sink: NodeOrGraph, c: u16) -> bool { match sink { NodeOrGraph::Node(s) => s.graph == self.graph_id && self.node_input_edges.has(s.key) && c < self.ins(s.key).len(), NodeOrGraph::Graph => c < self.num_outputs } }
    spec fn no_sink_error(self, e: GraphError, sink: NodeOrGraph, c: u16) -> bool {
        match sink {
            NodeOrGraph::Node(s) => self.sink_error(e, s, c),
            NodeOrGraph::Graph => c >= self.num_outputs && e == GraphError::GraphOutputOutOfBounds(c),
        }
    }
    /// the edge to that input is gone; nodes at its ends which exist only for it may be gone
    spec fn unlinked(self, g: Graph, sink: NodeOrGraph, c: u16) -> bool {
        match sink {
            NodeOrGraph::Node(s) => exists|m: Graph, n: Graph| #[trigger] m.unlinked_in(g, s.key, c) && #[trigger] n.unlinked_ends(m, g, s.key, c) && self == n.marked(),
            NodeOrGraph::Graph => exists|m: Graph, n: Graph| #[trigger] m.out_gone(g, c as int) && #[trigger] n.unlinked_out(m, g, c) && self == n.marked(),
        }
    }
    spec fn unlinked_in(self, g: Graph, k: NodeKey, c: u16) -> bool { self == (Graph { node_input_edges: self.node_input_edges, ..g }) && self.set_in(g, k, c as int, None) }
    spec fn unlinked_ends(self, m: Graph, g: Graph, k: NodeKey, c: u16) -> bool { match g.ins(k)[c as int] { None => self == m, Some(e) => exists|n: Graph| #[trigger] n.evaluated(m, k) && self.evaluated_source(n, e) } }
    spec fn unlinked_out(self, m: Graph, g: Graph, c: u16) -> bool { match g.output_edges@[c as int] { None => self == m, Some(e) => self.evaluated_source(m, e) } }
    proof fn marked_inv(self, g: Graph) requires g.inv(), self == g.marked() ensures self.inv() {
        assert forall|x: NodeKey, y: NodeKey| #[trigger] self.dep(x, y) == g.dep(x, y) by { self.same_reads(g, x, y); }
        self.same_edges_inv(g);
    }
    proof fn out_gone_inv(self, g: Graph, c: int)
        requires g.inv(), self.out_gone(g, c), 0 <= c < g.output_edges@.len()
        ensures self.inv()
    {
        assert forall|x: NodeKey, y: NodeKey| #[trigger] self.dep(x, y) == g.dep(x, y) by { self.same_reads(g, x, y); }
        self.fewer(g);
        assert forall|k: NodeKey| #[trigger] self.pending(k) == g.pending(k) by {}
        assert forall|x: NodeKey| #[trigger] self.node_input_edges.has(x) implies self.ins_ok(x) && self.pars_ok(x) by {
            assert(g.node_input_edges.has(x)); assert(g.ins_ok(x) && g.pars_ok(x)); assert(self.ins(x) == g.ins(x) && self.pars(x) == g.pars(x));
            assert forall|j: int| 0 <= j < self.ins(x).len() && (#[trigger] self.ins(x)[j]) is Some implies self.edge_ok(self.ins(x)[j]->0) by { assert(g.edge_ok(g.ins(x)[j]->0)); }
            assert forall|j: int| 0 <= j < self.pars(x).len() implies self.par_ok(x, #[trigger] self.pars(x)[j]) by { assert(g.par_ok(x, g.pars(x)[j])); }
        }
        assert forall|j: int| 0 <= j < self.output_edges@.len() && (#[trigger] self.output_edges@[j]) is Some implies self.edge_ok(self.output_edges@[j]->0) by { assert(j != c); assert(g.edge_ok(g.output_edges@[j]->0)); }
    }
    /*@extract knaster_graph/src/graph.rs | impl<F: Float> Graph<F> | disconnect_input_to_sink | ret=r
    requires old(self).inv(),
    ensures
        final(self).inv(),
        match r {
            Ok(()) => old(self).has_sink(sink, sink_channel) && final(self).recalculation_required && final(self).unlinked(*old(self), sink, sink_channel),
            Err(e) => *final(self) == *old(self) && !old(self).has_sink(sink, sink_channel) && old(self).no_sink_error(e, sink, sink_channel),
        },
    @sig /impl Into<NodeOrGraph>/ => NodeOrGraph
    @start
        hide(Graph::evaluated);
        let ghost g = *self;
        proof { match sink { NodeOrGraph::Node(s) => { if g.node_input_edges.has(s.key) { assert(g.ins_ok(s.key)); } } NodeOrGraph::Graph => {} } }
    @sub? /sink\.into\(\)/ => sink
    @sub? /if let Some\(edge\) = edges\[sink_channel as usize\]\.take\(\) \{/ => let taken = edges[sink_channel as usize].take(); let ghost m = *self; proof { m.set_inv(g, sink_node.key, sink_channel as int, None); assert(m.unlinked_in(g, sink_node.key, sink_channel)); } if let Some(edge) = taken { proof { assert(g.edge_ok(g.ins(sink_node.key)[sink_channel as int]->0)); }
    @sub? /if let Some\(edge\) = self\.output_edges\[sink_channel as usize\]\.take\(\) \{/ => let taken = self.output_edges[sink_channel as usize].take(); let ghost m = *self; proof { assert(m.out_gone(g, sink_channel as int)); m.out_gone_inv(g, sink_channel as int); } if let Some(edge) = taken { proof { assert(g.edge_ok(g.output_edges@[sink_channel as int]->0)); }
    @sub? /self\.evaluate_if_node_should_be_removed\(sink_node\.key\(\)\);/ => self.evaluate_if_node_should_be_removed(sink_node.key()); let ghost n0 = *self; proof { assert(n0.evaluated(m, sink_node.key)); }
    @sub? /self\.recalculation_required = true;(\s*\}\s*NodeOrGraph::Graph)/ => let ghost n = *self; proof { assert(n.unlinked_ends(m, g, sink_node.key, sink_channel)); } self.recalculation_required = true; proof { self.marked_inv(n); } \1
    @sub? /self\.recalculation_required = true;(\s*\}\s*\}\s*Ok)/ => let ghost n = *self; proof { assert(n.unlinked_out(m, g, sink_channel)); } self.recalculation_required = true; proof { self.marked_inv(n); } \1
    @sub? /return Err\(GraphError::InputOutOfBounds/ => proof { same_map(self.node_input_edges, g.node_input_edges); } return Err(GraphError::InputOutOfBounds
    @sub? /&mut self\.node_input_edges\[sink_node\.key\(\)\]/ => self.node_input_edges.at_mut(sink_node.key())
    @*/

    // ---- what is removed at a commit
    /// the UGen of the node has asked for its removal
    spec fn asked(n: Node) -> bool { n.remove_me is Some && flag_set(n.remove_me->0) }
    /// nothing allows the removal of k
    spec fn kept_node(self, k: NodeKey) -> bool {
        &&& self.node_input_edges.has(k) && !self.nodes@[k].auto_math_node && !self.nodes@[k].auto_free_when_unconnected && !Self::asked(self.nodes@[k])
        &&& forall|y: NodeKey| #[trigger] self.nodes.has(y) ==> self.nodes@[y].strong_dependent != Some(k)
    }
    spec fn keeps_nodes(self, g: Graph) -> bool { self.nodes == g.nodes && self.node_mortality == g.node_mortality && self.graph_id == g.graph_id && self.num_inputs == g.num_inputs && self.num_outputs == g.num_outputs && forall|k: NodeKey| g.kept_node(k) ==> #[trigger] self.node_input_edges.has(k) }
    proof fn freed_keeps(self, g: Graph, key: NodeKey, k: NodeKey)
        requires g.inv(), self.try_freed(g, key), g.kept_node(k), k != key
        ensures self.kept_node(k)
    {
        if self != g && !self.node_input_edges.has(k) {
            let y = choose|y: NodeKey| g.node_input_edges.has(y) && !#[trigger] self.node_input_edges.has(y) && g.nodes@[y].strong_dependent == Some(k);
            assert(g.nodes.has(y));
        }
    }
    proof fn evaluated_keeps(self, g: Graph, key: NodeKey, k: NodeKey)
        requires g.inv(), g.nodes.has(key), self.evaluated(g, key), g.kept_node(k)
        ensures self.kept_node(k)
    {
        if k == key { self.only_automatic(g, k); }
        else {
            let m = choose|m: Graph| #[trigger] m.math_step(g, key) && self.free_step(m, key);
            if m != g { g.parts(key);
                let (a, b) = (g.ins(key)[0], g.ins(key)[1]);
                if a is None && b is None { m.freed_keeps(g, key, k); m.freed_inv(g, key); }
                else {
                    let e = if a is Some { a->0 } else { b->0 };
                    let n = choose|n: Graph| #[trigger] n.bypassed(g, key, e) && m.try_freed(n, key);
                    assert(g.in_of(key, e));
                    n.bypassed_inv(g, key, e); assert(n.kept_node(k)); m.freed_keeps(n, key, k); m.freed_inv(n, key);
                }
            }
            if self != m { self.freed_keeps(m, key, k); }
        }
    }
    proof fn freed_inv(self, g: Graph, k: NodeKey) requires g.inv(), self.try_freed(g, k) ensures self.inv() { if self != g { self.shrunk_inv(g); } }
    proof fn evaluated_nodes(self, g: Graph, key: NodeKey)
        requires self.evaluated(g, key)
        ensures self.nodes == g.nodes, self.node_mortality == g.node_mortality, self.graph_id == g.graph_id, self.num_inputs == g.num_inputs, self.num_outputs == g.num_outputs,
    {
        let m = choose|m: Graph| #[trigger] m.math_step(g, key) && self.free_step(m, key);
        if m != g && g.nodes@[key].auto_math_node && g.node_input_edges.has(key) {
            let (a, b) = (g.ins(key)[0], g.ins(key)[1]);
            if !(a is None && b is None) { let e = if a is Some { a->0 } else { b->0 }; let n = choose|n: Graph| #[trigger] n.bypassed(g, key, e) && m.try_freed(n, key); assert(n.nodes == g.nodes); }
        }
    }
    /*@extract knaster_graph/src/graph.rs | impl<F: Float> Graph<F> | free_old
    requires old(self).inv(), forall|i: int| 0 <= i < free_queue@.len() ==> old(self).nodes.has(#[trigger] free_queue@[i]) && Self::asked(old(self).nodes@[free_queue@[i]]),
    ensures final(self).inv(), final(self).keeps_nodes(*old(self)), forall|k: NodeKey| old(self).kept_node(k) ==> #[trigger] final(self).kept_node(k),
    @cutloop 1 => fn free_queued(&mut self, free_queue: Vec<NodeKey>)
    @sub? /\.ok\(\);/ => ;
    @sub? /in (free_queue|node_keys) \{/ => in \1.iter().copied() {
    @unfold 0 qi
    @loop 0
        invariant
            qi_it.iter.end == free_queue@.len(), qi_it.snapshot.end == free_queue@.len(), qi_s@ == free_queue@, self.inv(), self.keeps_nodes(*old(self)), forall|k: NodeKey| old(self).kept_node(k) ==> #[trigger] self.kept_node(k),
            forall|i: int| 0 <= i < free_queue@.len() ==> old(self).nodes.has(#[trigger] free_queue@[i]) && Self::asked(old(self).nodes@[free_queue@[i]]),
    @loopstart 0
        let ghost b = *self;
    @loopend 0
        proof { assert(old(self).nodes.has(free_queue@[qi as int])); assert(self.try_freed(b, key)); assert forall|k: NodeKey| old(self).kept_node(k) implies #[trigger] self.kept_node(k) by { assert(b.kept_node(k)); assert(k != key); self.freed_keeps(b, key, k); } }
    @*/
    /*@extract knaster_graph/src/graph.rs | impl<F: Float> Graph<F> | free_old
    requires old(self).inv(), forall|i: int| 0 <= i < node_keys@.len() ==> #[trigger] old(self).nodes.has(node_keys@[i]),
    ensures final(self).inv(), final(self).keeps_nodes(*old(self)), forall|k: NodeKey| old(self).kept_node(k) ==> #[trigger] final(self).kept_node(k),
    @cutloop 2 => fn evaluate_all(&mut self, node_keys: Vec<NodeKey>)
    @sub? /in (free_queue|node_keys) \{/ => in \1.iter().copied() {
    @unfold 0 qi
    @loop 0
        invariant
            qi_it.iter.end == node_keys@.len(), qi_it.snapshot.end == node_keys@.len(), qi_s@ == node_keys@, self.inv(), self.keeps_nodes(*old(self)), forall|k: NodeKey| old(self).kept_node(k) ==> #[trigger] self.kept_node(k),
            forall|i: int| 0 <= i < node_keys@.len() ==> #[trigger] old(self).nodes.has(node_keys@[i]),
    @loopstart 0
        let ghost b = *self;
        proof { assert(old(self).nodes.has(node_keys@[qi as int])); }
    @loopend 0
        proof { self.evaluated_nodes(b, key); assert forall|k: NodeKey| old(self).kept_node(k) implies #[trigger] self.kept_node(k) by { assert(b.kept_node(k)); self.evaluated_keeps(b, key, k); } }
    @*/
    /// only nodes which wait for it, and whose flag is set, are removed for good
    spec fn cleaned(self, g: Graph) -> bool {
        &&& self == (Graph { nodes: self.nodes, node_keys_to_free_when_safe: self.node_keys_to_free_when_safe, ..g })
        &&& forall|k: NodeKey| #[trigger] self.nodes.has(k) ==> g.nodes.has(k) && self.nodes@[k] == g.nodes@[k]
        &&& forall|k: NodeKey| g.nodes.has(k) && !#[trigger] self.nodes.has(k) ==> g.expired(k)
        &&& forall|k: NodeKey| #[trigger] self.pending(k) ==> g.pending(k) && self.nodes.has(k)
        &&& forall|k: NodeKey| #[trigger] g.pending(k) && self.nodes.has(k) ==> self.pending(k)
    }
    proof fn pending_parts(self)
        requires self.inv()
        ensures self.pending_once(), forall|j: int| 0 <= j < self.node_keys_to_free_when_safe@.len() ==> self.nodes.has((#[trigger] self.node_keys_to_free_when_safe@[j]).0)
    { assert forall|j: int| 0 <= j < self.node_keys_to_free_when_safe@.len() implies self.nodes.has((#[trigger] self.node_keys_to_free_when_safe@[j]).0) by { assert(self.pending(self.node_keys_to_free_when_safe@[j].0)); } }
    proof fn cleaned_inv(self, g: Graph)
        requires g.inv(), self.cleaned(g), self.pending_once()
        ensures self.inv()
    {
        assert forall|x: NodeKey, y: NodeKey| #[trigger] self.dep(x, y) == g.dep(x, y) by { self.same_reads(g, x, y); }
        self.fewer(g);
        assert forall|k: NodeKey| g.node_input_edges.has(k) implies #[trigger] self.nodes.has(k) && self.nodes@[k] == g.nodes@[k] by { assert(g.nodes.has(k) && !g.pending(k)); if !self.nodes.has(k) { let i = choose|i: int| 0 <= i < g.node_keys_to_free_when_safe@.len() && (#[trigger] g.node_keys_to_free_when_safe@[i]).0 == k && flag_set(g.node_keys_to_free_when_safe@[i].1); assert(g.pending(k)); } }
        assert forall|k: NodeKey| #![trigger self.node_input_edges.has(k)] #![trigger self.nodes.has(k)] self.node_input_edges.has(k) <==> self.nodes.has(k) && !self.pending(k) by { assert(g.node_input_edges.has(k) <==> g.nodes.has(k) && !g.pending(k)); if self.nodes.has(k) { assert(g.pending(k) <==> self.pending(k)); } }
        assert forall|x: NodeKey| #[trigger] self.node_input_edges.has(x) implies self.ins_ok(x) && self.pars_ok(x) by {
            assert(g.node_input_edges.has(x)); assert(g.ins_ok(x) && g.pars_ok(x)); assert(self.ins(x) == g.ins(x) && self.pars(x) == g.pars(x));
            assert forall|j: int| 0 <= j < self.ins(x).len() && (#[trigger] self.ins(x)[j]) is Some implies self.edge_ok(self.ins(x)[j]->0) by { assert(g.edge_ok(g.ins(x)[j]->0)); }
            assert forall|j: int| 0 <= j < self.pars(x).len() implies self.par_ok(x, #[trigger] self.pars(x)[j]) by { assert(g.par_ok(x, g.pars(x)[j])); }
        }
        assert forall|j: int| 0 <= j < self.output_edges@.len() && (#[trigger] self.output_edges@[j]) is Some implies self.edge_ok(self.output_edges@[j]->0) by { assert(g.edge_ok(g.output_edges@[j]->0)); }
    }
    /// while the removed nodes are being dropped
    spec fn dropping(self, g: Graph) -> bool {
        let w = self.node_keys_to_free_when_safe@;
        let l0 = g.node_keys_to_free_when_safe@;
        &&& self == (Graph { nodes: self.nodes, node_keys_to_free_when_safe: self.node_keys_to_free_when_safe, ..g })
        &&& self.pending_once()
        &&& forall|j: int| 0 <= j < w.len() ==> self.nodes.has((#[trigger] w[j]).0) && l0.contains(w[j])
        &&& forall|l: int| 0 <= l < l0.len() ==> !self.nodes.has((#[trigger] l0[l]).0) || w.contains(l0[l])
        &&& forall|k: NodeKey| #[trigger] self.nodes.has(k) ==> g.nodes.has(k) && self.nodes@[k] == g.nodes@[k]
        &&& forall|k: NodeKey| g.nodes.has(k) && !#[trigger] self.nodes.has(k) ==> g.expired(k)
    }
    /// k waits for its removal, and its flag is set
    spec fn expired(self, k: NodeKey) -> bool { exists|i: int| 0 <= i < self.node_keys_to_free_when_safe@.len() && (#[trigger] self.node_keys_to_free_when_safe@[i]).0 == k && flag_set(self.node_keys_to_free_when_safe@[i].1) }
    proof fn dropping_start(self)
        requires self.inv()
        ensures self.dropping(self)
    { self.pending_parts(); let w = self.node_keys_to_free_when_safe@; assert forall|j: int| 0 <= j < w.len() implies w.contains(#[trigger] w[j]) by {} }
    proof fn drop_one(self, b: Graph, g: Graph, i: int)
        requires b.dropping(g), 0 <= i < b.node_keys_to_free_when_safe@.len(), flag_set(b.node_keys_to_free_when_safe@[i].1),
            self == (Graph { nodes: self.nodes, node_keys_to_free_when_safe: self.node_keys_to_free_when_safe, ..b }),
            self.nodes@ == b.nodes@.remove(b.node_keys_to_free_when_safe@[i].0), self.node_keys_to_free_when_safe@ == b.node_keys_to_free_when_safe@.remove(i),
        ensures self.dropping(g)
    {
        let (w, v, l0) = (self.node_keys_to_free_when_safe@, b.node_keys_to_free_when_safe@, g.node_keys_to_free_when_safe@);
        let k = v[i].0;
        assert forall|x: NodeKey| #[trigger] self.nodes.has(x) <==> b.nodes.has(x) && x != k by {}
        assert forall|x: int, y: int| 0 <= x < y < w.len() implies (#[trigger] w[x]).0 != (#[trigger] w[y]).0 by { let (p, q) = (if x < i { x } else { x + 1 }, if y < i { y } else { y + 1 }); assert(v[p].0 != v[q].0); }
        assert forall|x: int| 0 <= x < w.len() implies self.nodes.has((#[trigger] w[x]).0) && l0.contains(w[x]) by { let p = if x < i { x } else { x + 1 }; assert(w[x] == v[p]); assert(b.nodes.has(v[p].0)); assert(v[p].0 != v[i].0); }
        assert forall|l: int| 0 <= l < l0.len() implies !self.nodes.has((#[trigger] l0[l]).0) || w.contains(l0[l]) by { if self.nodes.has(l0[l].0) { let p = choose|p: int| 0 <= p < v.len() && v[p] == l0[l]; assert(p != i); assert(w[if p < i { p } else { p - 1 }] == l0[l]); } }
        assert forall|x: NodeKey| #[trigger] self.nodes.has(x) implies g.nodes.has(x) && self.nodes@[x] == g.nodes@[x] by { assert(b.nodes.has(x)); }
        assert forall|x: NodeKey| g.nodes.has(x) && !#[trigger] self.nodes.has(x) implies g.expired(x) by { if b.nodes.has(x) { assert(l0.contains(v[i])); let l = choose|l: int| 0 <= l < l0.len() && l0[l] == v[i]; assert(l0[l].0 == x); } else { assert(!b.nodes.has(x)); } }
    }
    proof fn dropping_end(self, g: Graph)
        requires g.inv(), self.dropping(g)
        ensures self.cleaned(g), self.inv()
    {
        let (w, l0) = (self.node_keys_to_free_when_safe@, g.node_keys_to_free_when_safe@);
        assert forall|k: NodeKey| #[trigger] g.pending(k) && self.nodes.has(k) implies self.pending(k) by { let l = choose|l: int| 0 <= l < l0.len() && (#[trigger] l0[l]).0 == k; let j = choose|j: int| 0 <= j < w.len() && #[trigger] w[j] == l0[l]; assert(w[j].0 == k); }
        assert forall|k: NodeKey| #[trigger] self.pending(k) implies g.pending(k) && self.nodes.has(k) by { let j = choose|j: int| 0 <= j < w.len() && (#[trigger] w[j]).0 == k; assert(l0.contains(w[j])); let l = choose|l: int| 0 <= l < l0.len() && l0[l] == w[j]; assert(l0[l].0 == k); }
        self.cleaned_inv(g);
    }
    /*@extract knaster_graph/src/graph.rs | impl<F: Float> Graph<F> | free_old
    requires old(self).inv(), i0 == 0,
    ensures final(self).cleaned(*old(self)), final(self).inv(),
    @cutloop 3 => #[verifier::loop_isolation(false)] fn remove_old_nodes(&mut self, i0: usize)
    @sub /^\{/ => { hide(Graph::inv); hide(Graph::dropping); let mut i = i0; proof { self.dropping_start(); }
    @sub? /unsafe \{ self\.nodes\.get\(\)\.as_mut\(\)\.unwrap\(\)\.remove\(\*key\) \};/ => let key = *key; self.nodes.remove(key);
    @sub? /flag\.load\(Ordering::SeqCst\)/ => load_flag(flag)
    @loop 0
        invariant
            self.dropping(*old(self)), i <= self.node_keys_to_free_when_safe@.len(),
        decreases self.node_keys_to_free_when_safe@.len() - i,
    @loopstart 0
        let ghost (b, bi) = (*self, i);
    @loopend 0
        proof { if *self != b { self.drop_one(b, *old(self), bi as int); } }
    @afterloop 0
        proof { self.dropping_end(*old(self)); }
    @*/
    /*@extract knaster_graph/src/graph.rs | impl<F: Float> Graph<F> | free_old
    requires forall|i: int| 0 <= i < old(free_queue)@.len() ==> self.nodes.has(#[trigger] old(free_queue)@[i]) && Self::asked(self.nodes@[old(free_queue)@[i]]),
    ensures forall|i: int| 0 <= i < final(free_queue)@.len() ==> self.nodes.has(#[trigger] final(free_queue)@[i]) && Self::asked(self.nodes@[final(free_queue)@[i]]),
    @cutloop 0 => fn queue_asked(&self, free_queue: &mut Vec<NodeKey>)
    @sub? /for \((\w+), (\w+)\) in self\.get_nodes_mut\(\) \{/ => let ks = self.nodes.keys(); for ki in ki_it: 0..ks.len() { let \1 = ks[ki]; proof { assert(ks@.contains(key)); } let \2 = self.nodes.at(key);
    @sub? /= &mut node\.remove_me/ => = &node.remove_me
    @sub? /(\w+)\.load\(Ordering::SeqCst\)/ => load_flag(\1)
    @loop 0
        invariant
            ki_it.iter.end == ks@.len(), ki_it.snapshot.end == ks@.len(), forall|k: NodeKey| self.nodes.has(k) <==> ks@.contains(k),
            forall|i: int| 0 <= i < free_queue@.len() ==> self.nodes.has(#[trigger] free_queue@[i]) && Self::asked(self.nodes@[free_queue@[i]]),
    @*/
    spec fn cleaned_but_buffers(self, m: Graph) -> bool { (Graph { buffers_to_free_when_safe: m.buffers_to_free_when_safe, ..self }).cleaned(m) }
    proof fn removed_at_commit(self, g1: Graph, g2: Graph, g3: Graph, g4: Graph)
        requires self.inv(), g1.inv(), g1.keeps_nodes(self), forall|k: NodeKey| self.kept_node(k) ==> #[trigger] g1.kept_node(k),
            g2.inv(), g2.keeps_nodes(g1), forall|k: NodeKey| g1.kept_node(k) ==> #[trigger] g2.kept_node(k), g3.cleaned(g2), g3.inv(), g4 == (Graph { buffers_to_free_when_safe: g4.buffers_to_free_when_safe, ..g3 }),
        ensures g4.inv(), forall|k: NodeKey| self.kept_node(k) ==> #[trigger] g4.node_input_edges.has(k) && g4.nodes.has(k),
            exists|m: Graph| m.inv() && m.keeps_nodes(self) && #[trigger] g4.cleaned_but_buffers(m),
    {
        assert forall|k: NodeKey| self.kept_node(k) implies #[trigger] g2.kept_node(k) by { assert(g1.kept_node(k)); }
        assert(g2.keeps_nodes(self));
        assert((Graph { buffers_to_free_when_safe: g2.buffers_to_free_when_safe, ..g4 }) == g3); assert(g4.cleaned_but_buffers(g2));
        g4.dropped_buffers(g3);
        assert forall|k: NodeKey| self.kept_node(k) implies #[trigger] g4.node_input_edges.has(k) && g4.nodes.has(k) by { assert(g2.kept_node(k)); assert(g2.node_input_edges.has(k)); assert(g3.node_input_edges.has(k)); }
    }
    proof fn dropped_buffers(self, g: Graph)
        requires g.inv(), self == (Graph { buffers_to_free_when_safe: self.buffers_to_free_when_safe, ..g })
        ensures self.inv()
    {
        assert forall|x: NodeKey, y: NodeKey| #[trigger] self.dep(x, y) == g.dep(x, y) by { self.same_reads(g, x, y); }
        self.fewer(g);
        assert forall|x: NodeKey| #[trigger] self.node_input_edges.has(x) <==> self.nodes.has(x) && !self.pending(x) by { assert(g.node_input_edges.has(x) <==> g.nodes.has(x) && !g.pending(x)); assert(self.pending(x) == g.pending(x)); }
        assert forall|x: NodeKey| #[trigger] self.node_input_edges.has(x) implies self.ins_ok(x) && self.pars_ok(x) by {
            assert(g.ins_ok(x) && g.pars_ok(x)); assert(self.ins(x) == g.ins(x) && self.pars(x) == g.pars(x));
            assert forall|j: int| 0 <= j < self.ins(x).len() && (#[trigger] self.ins(x)[j]) is Some implies self.edge_ok(self.ins(x)[j]->0) by { assert(g.edge_ok(g.ins(x)[j]->0)); }
            assert forall|j: int| 0 <= j < self.pars(x).len() implies self.par_ok(x, #[trigger] self.pars(x)[j]) by { assert(g.par_ok(x, g.pars(x)[j])); }
        }
        assert forall|j: int| 0 <= j < self.output_edges@.len() && (#[trigger] self.output_edges@[j]) is Some implies self.edge_ok(self.output_edges@[j]->0) by { assert(g.edge_ok(g.output_edges@[j]->0)); }
        assert forall|k: NodeKey| #[trigger] self.pending(k) implies self.nodes.has(k) by { assert(g.pending(k)); }
    }
    /// a buffer which somebody else may still use is kept
    /*@extract knaster_graph/src/graph.rs | impl<F: Float> Graph<F> | free_old
    requires old(self).buffers_to_free_when_safe@.len() > 0, i0 == old(self).buffers_to_free_when_safe@.len() - 1,
    ensures *final(self) == (Graph { buffers_to_free_when_safe: final(self).buffers_to_free_when_safe, ..*old(self) }),
        forall|b: Opaque| old(self).buffers_to_free_when_safe@.contains(b) && !sole(b) ==> #[trigger] final(self).buffers_to_free_when_safe@.contains(b),
    @cutloop 4 => fn remove_old_buffers(&mut self, i0: usize)
    @sub /^\{/ => { let mut i = i0;
    @sub? /Arc::<OwnedRawBuffer<F>>::strong_count\(&self\.buffers_to_free_when_safe\[i\]\) == 1/ => only_owner(&self.buffers_to_free_when_safe[i])
    @loop 0
        invariant_except_break i < self.buffers_to_free_when_safe@.len(),
        invariant
            *self == (Graph { buffers_to_free_when_safe: self.buffers_to_free_when_safe, ..*old(self) }),
            forall|b: Opaque| old(self).buffers_to_free_when_safe@.contains(b) && !sole(b) ==> #[trigger] self.buffers_to_free_when_safe@.contains(b),
        decreases i,
    @loopstart 0
        let ghost (v, bi) = (self.buffers_to_free_when_safe@, i as int);
    @sub? /if i == 0 \{/ => proof { let w = self.buffers_to_free_when_safe@; if w.len() < v.len() { assert forall|b: Opaque| v.contains(b) && !sole(b) implies #[trigger] w.contains(b) by { let p = choose|p: int| 0 <= p < v.len() && v[p] == b; assert(w[if p < bi { p } else { p - 1 }] == b); } } } if i == 0 {
    @*/
    /// what a commit removes: a node which nothing allows to be removed is still there; and a node is dropped for good only once its flag, set when the tasks without it are in use, is set
    /*@extract knaster_graph/src/graph.rs | impl<F: Float> Graph<F> | free_old
    requires old(self).inv(),
    ensures final(self).inv(), forall|k: NodeKey| old(self).kept_node(k) ==> #[trigger] final(self).node_input_edges.has(k) && final(self).nodes.has(k),
        exists|m: Graph| m.inv() && m.keeps_nodes(*old(self)) && #[trigger] final(self).cleaned_but_buffers(m),
    @callloop 0 => self.queue_asked(&mut free_queue);
    @callloop 1 => self.free_queued(free_queue);
    @callloop 2 => self.evaluate_all(node_keys);
    @callloop 3 => self.remove_old_nodes(i);
    @callloop 4 => self.remove_old_buffers(i);
    @sub? /unsafe \{\s*self\s*\.nodes\s*\.get\(\)\s*\.as_mut\(\)\s*\.expect\("[^"]*"\)\s*\.keys\(\)\s*\.collect\(\)\s*\}/ => self.nodes.keys()
    @sub? /self\.free_queued\(free_queue\);/ => let ghost g0 = *self; self.free_queued(free_queue); let ghost g1 = *self;
    @sub? /self\.evaluate_all\(node_keys\);/ => proof { assert forall|j: int| 0 <= j < node_keys@.len() implies #[trigger] self.nodes.has(node_keys@[j]) by { assert(node_keys@.contains(node_keys@[j])); } } self.evaluate_all(node_keys); let ghost g2 = *self;
    @sub? /let mut i = 0;/ => let i = 0;
    @sub? /self\.remove_old_nodes\(i\);/ => self.remove_old_nodes(i); let ghost g3 = *self;
    @sub? /\n    \}$/ => \n proof { g0.removed_at_commit(g1, g2, g3, *self); } }
    @*/
}
}
fn main() {}
