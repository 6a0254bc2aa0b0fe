use vstd::prelude::*;
verus! {
/*@include gr.inc @*/
/*@include gg.inc @*/
fn append(a: &mut Vec<NodeKey>, b: Vec<NodeKey>) ensures final(a)@ == old(a)@ + b@ { let mut b = b; a.append(&mut b); }
fn append_ref(a: &mut Vec<NodeKey>, b: &Vec<NodeKey>) ensures final(a)@ == old(a)@ + b@ { a.extend_from_slice(b.as_slice()); }
impl Graph {
    /// every node of l comes after what it reads, which is in `done` or in l
    spec fn sorted(self, done: Set<NodeKey>, l: Seq<NodeKey>) -> bool {
        &&& l.no_duplicates() && forall|i: int| 0 <= i < l.len() ==> self.node_input_edges.has(#[trigger] l[i]) && !done.contains(l[i])
        &&& forall|i: int, s: NodeKey| 0 <= i < l.len() && #[trigger] self.reads(l[i], s) ==> done.contains(s) || exists|j: int| 0 <= j < i && l[j] == s
    }
    spec fn on_stack(self, done: Set<NodeKey>, st: Seq<NodeKey>, l: Seq<NodeKey>, v: Set<NodeKey>, r: spec_fn(NodeKey) -> nat) -> bool {
        &&& forall|k: NodeKey| #![trigger v.contains(k)] #![trigger done.contains(k)] #![trigger st.contains(k)] #![trigger l.contains(k)] v.contains(k) <==> done.contains(k) || st.contains(k) || l.contains(k)
        &&& forall|i: int| 0 <= i < st.len() ==> self.node_input_edges.has(#[trigger] st[i]) && !done.contains(st[i]) && !l.contains(st[i])
        &&& forall|i: int, j: int| 0 <= i < j < st.len() ==> r(#[trigger] st[i]) > r(#[trigger] st[j])
    }
    proof fn pushed(self, done: Set<NodeKey>, st: Seq<NodeKey>, l: Seq<NodeKey>, v: Set<NodeKey>, r: spec_fn(NodeKey) -> nat, s: NodeKey)
        requires self.wf(), self.ranked(r), self.on_stack(done, st, l, v, r), st.len() > 0, self.reads(st.last(), s), !v.contains(s), v.subset_of(self.nodes_with_edges())
        ensures self.on_stack(done, st.push(s), l, v.insert(s), r), self.nodes_with_edges().difference(v.insert(s)).len() < self.nodes_with_edges().difference(v).len(), v.insert(s).subset_of(self.nodes_with_edges())
    {
        let st2 = st.push(s);
        assert forall|k: NodeKey| #![trigger v.insert(s).contains(k)] #![trigger done.contains(k)] #![trigger st2.contains(k)] #![trigger l.contains(k)] v.insert(s).contains(k) <==> done.contains(k) || st2.contains(k) || l.contains(k) by {
            if st2.contains(k) { let i = choose|i: int| 0 <= i < st2.len() && st2[i] == k; if i < st.len() { assert(st[i] == k); } }
            if st.contains(k) { let i = choose|i: int| 0 <= i < st.len() && st[i] == k; assert(st2[i] == k); }
            assert(st2[st.len() as int] == s);
        }
        assert(self.node_input_edges.has(st[st.len() - 1]));
        assert(self.dep(st.last(), s)); assert(self.node_input_edges.has(s));
        assert forall|i: int, j: int| 0 <= i < j < st2.len() implies r(#[trigger] st2[i]) > r(#[trigger] st2[j]) by { if j == st.len() && i < st.len() - 1 { assert(r(st[i]) > r(st[st.len() - 1])); } }
        assert forall|i: int| 0 <= i < st2.len() implies self.node_input_edges.has(#[trigger] st2[i]) && !done.contains(st2[i]) && !l.contains(st2[i]) by { if i < st.len() { assert(self.node_input_edges.has(st[i])); } else { assert(!v.contains(s)); } }
        let d = self.nodes_with_edges();
        assert(d.difference(v.insert(s)) == d.difference(v).remove(s));
        assert(d.difference(v).contains(s));
    }
    proof fn popped(self, done: Set<NodeKey>, st: Seq<NodeKey>, l: Seq<NodeKey>, v: Set<NodeKey>, r: spec_fn(NodeKey) -> nat)
        requires self.wf(), self.ranked(r), self.on_stack(done, st, l, v, r), st.len() > 0, self.sorted(done, l), forall|s: NodeKey| #[trigger] self.reads(st.last(), s) ==> v.contains(s)
        ensures self.on_stack(done, st.drop_last(), l.push(st.last()), v, r), self.sorted(done, l.push(st.last()))
    {
        let k0 = st.last(); let l2 = l.push(k0); let st2 = st.drop_last();
        assert(st[st.len() - 1] == k0);
        assert forall|k: NodeKey| #![trigger v.contains(k)] #![trigger done.contains(k)] #![trigger st2.contains(k)] #![trigger l2.contains(k)] v.contains(k) <==> done.contains(k) || st2.contains(k) || l2.contains(k) by {
            if st.contains(k) { let i = choose|i: int| 0 <= i < st.len() && st[i] == k; if i < st.len() - 1 { assert(st2[i] == k); } else { assert(l2[l.len() as int] == k); } }
            if l.contains(k) { let i = choose|i: int| 0 <= i < l.len() && l[i] == k; assert(l2[i] == k); }
            if st2.contains(k) { let i = choose|i: int| 0 <= i < st2.len() && st2[i] == k; assert(st[i] == k); }
            if l2.contains(k) { let i = choose|i: int| 0 <= i < l2.len() && l2[i] == k; if i < l.len() { assert(l[i] == k); } else { assert(st.contains(k)); } }
        }
        assert forall|i: int| 0 <= i < st2.len() implies self.node_input_edges.has(#[trigger] st2[i]) && !done.contains(st2[i]) && !l2.contains(st2[i]) by {
            assert(r(st[i]) > r(st[st.len() - 1]));
            if l2.contains(st2[i]) { let j = choose|j: int| 0 <= j < l2.len() && l2[j] == st2[i]; if j < l.len() { assert(l[j] == st[i]); } }
        }
        assert forall|i: int, j: int| 0 <= i < j < st2.len() implies r(#[trigger] st2[i]) > r(#[trigger] st2[j]) by { assert(r(st[i]) > r(st[j])); }
        assert forall|i: int, s: NodeKey| 0 <= i < l2.len() && #[trigger] self.reads(l2[i], s) implies done.contains(s) || exists|j: int| 0 <= j < i && l2[j] == s by {
            if i < l.len() {
                assert(self.reads(l[i], s));
                if !done.contains(s) { let j = choose|j: int| 0 <= j < i && l[j] == s; assert(l2[j] == s); }
            } else {
                assert(v.contains(s)); assert(self.dep(k0, s)); assert(r(s) < r(k0));
                if st.contains(s) { let j = choose|j: int| 0 <= j < st.len() && st[j] == s; if j < st.len() - 1 { assert(r(st[j]) > r(st[st.len() - 1])); } assert(false); }
                if l.contains(s) { let j = choose|j: int| 0 <= j < l.len() && l[j] == s; assert(l2[j] == s); }
            }
        }
        assert(!l.contains(k0));
        assert(l2.no_duplicates());
    }
    /*@extract knaster_graph/src/graph.rs | impl<F: Float> Graph<F> | depth_first_search | ret=l
    requires
        self.wf(), self.acyclic(), old(nodes_to_process)@.len() == 1, self.node_input_edges.has(old(nodes_to_process)@[0]),
        old(visited)@.contains(old(nodes_to_process)@[0]), old(visited)@.subset_of(self.nodes_with_edges()),
    ensures
        final(nodes_to_process)@.len() == 0,
        self.sorted(old(visited)@.remove(old(nodes_to_process)@[0]), l@), l@.contains(old(nodes_to_process)@[0]),
        forall|k: NodeKey| #![trigger final(visited)@.contains(k)] #![trigger l@.contains(k)] final(visited)@.contains(k) <==> old(visited)@.contains(k) || l@.contains(k),
        final(visited)@.subset_of(self.nodes_with_edges()),
    @sig /HashSet<NodeKey>/ => KeySet
    @sub? /Vec::with_capacity\(self\.get_nodes\(\)\.capacity\(\)\)/ => Vec::new()
    @sub? /&?self\.(node_input_edges|node_parameter_edges)\[node_key\]/ => self.\1.at(node_key)
    @sub? /\*nodes_to_process\.last\(\)\.unwrap\(\)/ => nodes_to_process[nodes_to_process.len() - 1]
    @sub? /let mut node_order =/ => let mut node_order: Vec<NodeKey> =
    @sub? /!nodes_to_process\.is_empty\(\)/ => nodes_to_process.len() > 0
    @start
        let ghost r = choose|r: spec_fn(NodeKey) -> nat| self.ranked(r);
        let ghost start = nodes_to_process@[0];
        let ghost done = visited@.remove(start);
        proof { assert(nodes_to_process@.contains(start)); }
    @loop 0
        invariant
            self.wf(), self.ranked(r), self.on_stack(done, nodes_to_process@, node_order@, visited@, r), self.sorted(done, node_order@), visited@.contains(start), !done.contains(start),
            done == old(visited)@.remove(start), old(visited)@.contains(start), visited@.subset_of(self.nodes_with_edges()),
        decreases self.nodes_with_edges().difference(visited@).len(), nodes_to_process@.len(),
    @loopstart 0
        let ghost st0 = nodes_to_process@;
        let ghost v0 = visited@;
    @loopend 0
        proof {
            if found_unvisited { self.pushed(done, st0, node_order@, v0, r, nodes_to_process@.last()); }
        }
    @sub? /node_order\.push\(nodes_to_process\.pop\(\)\.unwrap\(\)\);/ => proof { self.popped(done, st0, node_order@, v0, r); } node_order.push(nodes_to_process.pop().unwrap());
    @unfold 1 ai
    @loop 1
        invariant_except_break
            nodes_to_process@ == st0, visited@ == v0, !found_unvisited, forall|j: int, s: NodeKey| 0 <= j < ai && #[trigger] self.in_edge(s, node_key, j) ==> v0.contains(s),
        invariant
            ai_it.iter.end == self.ins(node_key).len(), ai_it.snapshot.end == self.ins(node_key).len(), ai_s@ == self.ins(node_key),
        ensures
            found_unvisited ==> exists|s: NodeKey| #[trigger] self.reads(node_key, s) && !v0.contains(s) && nodes_to_process@ == st0.push(s) && visited@ == v0.insert(s),
            !found_unvisited ==> nodes_to_process@ == st0 && visited@ == v0 && forall|j: int, s: NodeKey| #[trigger] self.in_edge(s, node_key, j) ==> v0.contains(s),
    @loopstart 1
        proof { if ai_s@[ai as int] is Some && ai_s@[ai as int]->0.source is Node { assert(self.in_edge(ai_s@[ai as int]->0.source->Node_0, node_key, ai as int)); assert(self.reads(node_key, ai_s@[ai as int]->0.source->Node_0)); } }
    @unfold 2 bi
    @loop 2
        invariant_except_break
            nodes_to_process@ == st0, visited@ == v0, !found_unvisited, forall|j: int, s: NodeKey| 0 <= j < bi && #[trigger] self.par_edge(s, node_key, j) ==> v0.contains(s),
        invariant
            bi_it.iter.end == self.pars(node_key).len(), bi_it.snapshot.end == self.pars(node_key).len(), bi_s@ == self.pars(node_key),
        ensures
            found_unvisited ==> exists|s: NodeKey| #[trigger] self.reads(node_key, s) && !v0.contains(s) && nodes_to_process@ == st0.push(s) && visited@ == v0.insert(s),
            !found_unvisited ==> nodes_to_process@ == st0 && visited@ == v0 && forall|j: int, s: NodeKey| #[trigger] self.par_edge(s, node_key, j) ==> v0.contains(s),
    @loopstart 2
        proof { assert(self.par_edge(bi_s@[bi as int].source, node_key, bi as int)); assert(self.reads(node_key, bi_s@[bi as int].source)); }
    @*/

    spec fn same_graph(self, g: Graph) -> bool {
        self.nodes == g.nodes && self.node_keys_to_free_when_safe == g.node_keys_to_free_when_safe && self.node_input_edges == g.node_input_edges && self.node_parameter_edges == g.node_parameter_edges && self.output_edges == g.output_edges
    }
    proof fn carry(self, g: Graph)
        requires self.same_graph(g)
        ensures g.wf() ==> self.wf(), g.acyclic() ==> self.acyclic(), g.all_nodes() ==> self.all_nodes(), self.nodes_with_edges() == g.nodes_with_edges(),
            forall|d: Set<NodeKey>, l: Seq<NodeKey>| #[trigger] self.sorted(d, l) <==> g.sorted(d, l),
    {
        assert forall|k: NodeKey, s: NodeKey| #[trigger] self.reads(k, s) == g.reads(k, s) by {
            assert(forall|j: int| self.in_edge(s, k, j) == g.in_edge(s, k, j)); assert(forall|j: int| self.par_edge(s, k, j) == g.par_edge(s, k, j));
        }
        assert(forall|k: NodeKey, s: NodeKey| #[trigger] self.dep(k, s) == g.dep(k, s));
        assert(forall|k: NodeKey| #[trigger] self.pending(k) == g.pending(k));
        if g.acyclic() { let r = choose|r: spec_fn(NodeKey) -> nat| g.ranked(r); assert(self.ranked(r)); }
        if g.wf() { assert forall|k: NodeKey, s: NodeKey| #[trigger] self.dep(k, s) implies self.node_input_edges.has(s) by { assert(g.dep(k, s)); } }
        assert forall|d: Set<NodeKey>, l: Seq<NodeKey>| #[trigger] self.sorted(d, l) <==> g.sorted(d, l) by {
            if g.sorted(d, l) { assert forall|i: int, s: NodeKey| 0 <= i < l.len() && #[trigger] self.reads(l[i], s) implies d.contains(s) || exists|j: int| 0 <= j < i && l[j] == s by { assert(g.reads(l[i], s)); } }
            if self.sorted(d, l) { assert forall|i: int, s: NodeKey| 0 <= i < l.len() && #[trigger] g.reads(l[i], s) implies d.contains(s) || exists|j: int| 0 <= j < i && l[j] == s by { assert(self.reads(l[i], s)); } }
        }
    }
    proof fn joined(self, a: Seq<NodeKey>, b: Seq<NodeKey>, done: Set<NodeKey>, start: NodeKey)
        requires self.sorted(Set::empty(), a), self.sorted(done, b), forall|k: NodeKey| #[trigger] done.contains(k) <==> a.contains(k)
        ensures self.sorted(Set::empty(), a + b), forall|k: NodeKey| #[trigger] (a + b).contains(k) <==> a.contains(k) || b.contains(k)
    {
        let c = a + b;
        assert forall|k: NodeKey| #[trigger] c.contains(k) <==> a.contains(k) || b.contains(k) by {
            if a.contains(k) { let i = choose|i: int| 0 <= i < a.len() && a[i] == k; assert(c[i] == k); }
            if b.contains(k) { let i = choose|i: int| 0 <= i < b.len() && b[i] == k; assert(c[a.len() + i] == k); }
            if c.contains(k) { let i = choose|i: int| 0 <= i < c.len() && c[i] == k; if i < a.len() { assert(a[i] == k); } else { assert(b[i - a.len()] == k); } }
        }
        assert forall|i: int, j: int| 0 <= i < c.len() && 0 <= j < c.len() && i != j implies c[i] != c[j] by {
            if i < a.len() && j >= a.len() { assert(a.contains(a[i])); assert(!done.contains(b[j - a.len()])); }
            if j < a.len() && i >= a.len() { assert(a.contains(a[j])); assert(!done.contains(b[i - a.len()])); }
        }
        assert forall|i: int| 0 <= i < c.len() implies self.node_input_edges.has(#[trigger] c[i]) by { if i < a.len() { assert(c[i] == a[i]); } else { assert(c[i] == b[i - a.len()]); } }
        assert forall|i: int, s: NodeKey| 0 <= i < c.len() && #[trigger] self.reads(c[i], s) implies exists|j: int| 0 <= j < i && c[j] == s by {
            if i < a.len() { assert(self.reads(a[i], s)); let j = choose|j: int| 0 <= j < i && a[j] == s; assert(c[j] == s); }
            else {
                let q = i - a.len(); assert(self.reads(b[q], s));
                if done.contains(s) { let j = choose|j: int| 0 <= j < a.len() && a[j] == s; assert(c[j] == s); }
                else { let j = choose|j: int| 0 <= j < q && b[j] == s; assert(c[a.len() + j] == s); }
            }
        }
    }
    /*@extract knaster_graph/src/graph.rs | impl<F: Float> Graph<F> | calculate_node_order
    requires old(self).wf(), old(self).acyclic(), old(self).all_nodes(),
    ensures
        final(self).same_graph(*old(self)),
        // every node once, each after everything it reads
        old(self).sorted(Set::empty(), final(self).node_order@),
        forall|k: NodeKey| #[trigger] final(self).node_order@.contains(k) <==> old(self).node_input_edges.has(k),
        // those which the outputs depend on come first
        exists|a: Seq<NodeKey>| final(self).node_order@ == a + final(self).disconnected_nodes@ && #[trigger] old(self).sorted(Set::empty(), a) && old(self).outputs_in(a),
    @sub? /HashSet::new\(\)/ => KeySet::new()
    @sub? /let mut nodes_to_process = Vec::with_capacity\(self\.get_nodes_mut\(\)\.capacity\(\)\);/ => let mut nodes_to_process: Vec<NodeKey> = Vec::new();
    @sub? /let mut remaining_nodes =/ => let mut remaining_nodes: Vec<NodeKey> =
    @sub? /(self\.node_order|remaining_nodes)\.extend\(stack\)/ => append(&mut \1, stack)
    @sub? /(self\.node_order|remaining_nodes)\.extend\(remaining_nodes\.iter\(\)\)/ => append_ref(&mut \1, &remaining_nodes)
    @sub? /for \(node_key, _node\) in self\.get_nodes\(\) \{/ => let ks = self.nodes.keys(); for ki in ki_it: 0..ks.len() { let node_key = ks[ki];
    @sub? /self\s*\.node_keys_to_free_when_safe\s*\.iter\(\)\s*\.any\(\|\(key, _\)\| key == &node_key\)/ => has_key(&self.node_keys_to_free_when_safe, &node_key)
    @start
        let ghost g = *self;
    @unfold 0 ci
    @loop 0
        invariant
            ci_it.iter.end == g.output_edges@.len(), ci_it.snapshot.end == g.output_edges@.len(), ci_s@ == g.output_edges@,
            self.same_graph(g), g.wf(), g.acyclic(), g.all_nodes(), g == *old(self), nodes_to_process@.len() == 0,
            g.sorted(Set::empty(), self.node_order@), forall|k: NodeKey| #![trigger visited@.contains(k)] #![trigger self.node_order@.contains(k)] visited@.contains(k) <==> self.node_order@.contains(k), visited@.subset_of(g.nodes_with_edges()),
            forall|j: int| 0 <= j < ci && (#[trigger] g.output_edges@[j]) is Some && g.output_edges@[j]->0.source is Node ==> visited@.contains(g.output_edges@[j]->0.source->Node_0),
    @loopstart 0
        let ghost v0 = visited@;
        let ghost a0 = self.node_order@;
        proof { self.carry(g); assert(g.output_edges@[ci as int] == ci_s@[ci as int]); }
    @sub? /append\(&mut self\.node_order, stack\)/ => proof { self.carry(g); assert(v0.insert(source).remove(source) =~= v0); g.joined(a0, stack@, v0, source); } append(&mut self.node_order, stack); proof { assert(g.output_edges@[ci as int]->0.source->Node_0 == source); assert(stack@.contains(source)); assert(forall|k: NodeKey| v0.contains(k) ==> visited@.contains(k)); }
    @sub? /append\(&mut remaining_nodes, stack\)/ => proof { self.carry(g); assert(v0.insert(node_key).remove(node_key) =~= v0); g.joined(a0, stack@, v0, node_key); assert(a0 + stack@ =~= a1 + (r0 + stack@)); } append(&mut remaining_nodes, stack); proof { assert(stack@.contains(node_key)); assert(forall|k: NodeKey| v0.contains(k) ==> visited@.contains(k)); }
    @loop 1
        invariant
            ki_it.iter.end == ks@.len(), ki_it.snapshot.end == ks@.len(), forall|k: NodeKey| g.nodes.has(k) <==> ks@.contains(k),
            self.same_graph(g), g.wf(), g.acyclic(), g.all_nodes(), g == *old(self), nodes_to_process@.len() == 0, self.node_order@ == a1,
            g.sorted(Set::empty(), a1 + remaining_nodes@), forall|k: NodeKey| #![trigger visited@.contains(k)] #![trigger (a1 + remaining_nodes@).contains(k)] visited@.contains(k) <==> (a1 + remaining_nodes@).contains(k), visited@.subset_of(g.nodes_with_edges()),
            forall|j: int| 0 <= j < ki ==> visited@.contains(#[trigger] ks@[j]) || self.pending(ks@[j]),
    @afterloop 0
        let ghost a1 = self.node_order@;
        proof { assert(a1 + Seq::<NodeKey>::empty() =~= a1); }
    @loopstart 1
        let ghost v0 = visited@;
        let ghost r0 = remaining_nodes@;
        let ghost a0 = a1 + r0;
        proof { assert(ks@.contains(ks@[ki as int])); self.carry(g); }
    @*/
    spec fn outputs_in(self, a: Seq<NodeKey>) -> bool {
        forall|j: int| 0 <= j < self.output_edges@.len() && (#[trigger] self.output_edges@[j]) is Some && self.output_edges@[j]->0.source is Node ==> a.contains(self.output_edges@[j]->0.source->Node_0)
    }
}
}
fn main() {}
