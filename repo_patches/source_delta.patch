From 76ff67d624b80a680a635269d9d5dcb3f2b185ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:24 +0000
Subject: [PATCH 01/47] fix: keep node output buffers connected to graph
 outputs alive until the outputs are read

---
 knaster_graph/src/graph.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index 57ae3e8..5c3ee91 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -1606,6 +1606,13 @@ impl<F: Float> Graph<F> {
                 }
             }
         }
+        // The graph outputs are read after all nodes have been run, so that every block connected to
+        // a graph output needs to be kept until the end.
+        for edge in self.output_edges.iter().filter_map(|e| *e) {
+            if let NodeKeyOrGraph::Node(source_key) = edge.source {
+                (unsafe { &mut *self.nodes.get() })[source_key].num_output_dependents += 1;
+            }
+        }
         // Add parameter edges as dependents
         for (_key, edges) in &self.node_parameter_edges {
             for edge in edges {
-- 
2.43.0


From 4aa73bcce6a5e7a856e7f341615db8537b335783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:24 +0000
Subject: [PATCH 02/47] fix: zero length blocks must not share an offset with
 another block in the buffer allocator

---
 knaster_graph/src/buffer_allocator.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/knaster_graph/src/buffer_allocator.rs b/knaster_graph/src/buffer_allocator.rs
index 2b4de1e..708f0ad 100644
--- a/knaster_graph/src/buffer_allocator.rs
+++ b/knaster_graph/src/buffer_allocator.rs
@@ -110,6 +110,11 @@ impl<F: Float> BufferAllocator<F> {
         num_borrows: usize,
     ) -> usize {
         let len = num_channels * block_size;
+        // A zero length block never contains any data and must not occupy an offset, since it would
+        // be the same offset as that of the next block.
+        if len == 0 {
+            return 0;
+        }
         // 1. Try to use an existing allocated block in order of return. If only
         // part of a block is needed, split it.
         for i in 0..self.return_order.len() {
-- 
2.43.0


From 56ecbdcacb44f3325986dca55fb79bd39b23c6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:24 +0000
Subject: [PATCH 03/47] fix: reject nodes from other graphs (the graph id
 comparison was never true)

---
 knaster_graph/src/graph.rs      | 14 +++++++-------
 knaster_graph/src/graph_edit.rs |  2 +-
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index 5c3ee91..1535a7b 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -504,13 +504,13 @@ impl<F: Float> Graph<F> {
     ) -> Result<(), GraphError> {
         let source = source.into();
         let sink = sink.into();
-        if !source.graph == self.graph_id {
+        if source.graph != self.graph_id {
             return Err(GraphError::WrongSourceNodeGraph {
                 expected_graph: self.graph_id,
                 found_graph: source.graph,
             });
         }
-        if !sink.graph == self.graph_id {
+        if sink.graph != self.graph_id {
             return Err(GraphError::WrongSinkNodeGraph {
                 expected_graph: self.graph_id,
                 found_graph: sink.graph,
@@ -572,7 +572,7 @@ impl<F: Float> Graph<F> {
         additive: bool,
     ) -> Result<(), GraphError> {
         let source = source.into();
-        if !source.graph == self.graph_id {
+        if source.graph != self.graph_id {
             return Err(GraphError::WrongSourceNodeGraph {
                 expected_graph: self.graph_id,
                 found_graph: source.graph,
@@ -635,14 +635,14 @@ impl<F: Float> Graph<F> {
         additive: bool,
     ) -> Result<(), GraphError> {
         let source = source.into();
-        if !source.graph == self.graph_id {
+        if source.graph != self.graph_id {
             return Err(GraphError::WrongSourceNodeGraph {
                 expected_graph: self.graph_id,
                 found_graph: source.graph,
             });
         }
         let sink = sink.into();
-        if !sink.graph == self.graph_id {
+        if sink.graph != self.graph_id {
             return Err(GraphError::WrongSinkNodeGraph {
                 expected_graph: self.graph_id,
                 found_graph: sink.graph,
@@ -732,7 +732,7 @@ impl<F: Float> Graph<F> {
         additive: bool,
     ) -> Result<(), GraphError> {
         let sink = sink.into();
-        if !sink.graph == self.graph_id {
+        if sink.graph != self.graph_id {
             return Err(GraphError::WrongSinkNodeGraph {
                 expected_graph: self.graph_id,
                 found_graph: sink.graph,
@@ -1353,7 +1353,7 @@ impl<F: Float> Graph<F> {
         t: impl Into<Time>,
     ) -> Result<(), GraphError> {
         let node_id = node.into();
-        if !node_id.graph == self.graph_id {
+        if node_id.graph != self.graph_id {
             return Err(GraphError::WrongSinkNodeGraph {
                 expected_graph: self.graph_id,
                 found_graph: node_id.graph,
diff --git a/knaster_graph/src/graph_edit.rs b/knaster_graph/src/graph_edit.rs
index f3e1202..8caabf8 100644
--- a/knaster_graph/src/graph_edit.rs
+++ b/knaster_graph/src/graph_edit.rs
@@ -160,7 +160,7 @@ impl<'b, F: Float> GraphEdit<'b, F> {
     pub fn free_node(&self, node: impl Into<NodeId>) -> Result<(), GraphError> {
         let node = node.into();
         let graph_id = self.graph.read().graph_id();
-        if !node.graph == graph_id {
+        if node.graph != graph_id {
             return Err(GraphError::WrongSinkNodeGraph {
                 expected_graph: graph_id,
                 found_graph: node.graph,
-- 
2.43.0


From 3def372f0eb0d98261d02ac56ec5c9837e09455c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:04 +0000
Subject: [PATCH 04/47] fix: feedback connections use a feedback source, its
 only channel, and delay by exactly one block

---
 knaster_graph/src/graph.rs | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index 1535a7b..3a83de3 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -769,7 +769,7 @@ impl<F: Float> Graph<F> {
         &mut self,
         mut source: NodeKeyOrGraph,
         sink: NodeKey,
-        so_channel: u16,
+        mut so_channel: u16,
         si_channel: u16,
         additive: bool,
         feedback: bool,
@@ -783,6 +783,7 @@ impl<F: Float> Graph<F> {
                 is_feedback: true,
             });
             source = NodeKeyOrGraph::Node(fb_source);
+            so_channel = 0;
         }
         // Fast and common path
         if !additive {
@@ -816,7 +817,7 @@ impl<F: Float> Graph<F> {
             self.node_input_edges[sink][si_channel as usize] = Some(Edge {
                 source,
                 channel_in_source: so_channel,
-                is_feedback: feedback,
+                is_feedback: false,
             });
         }
     }
@@ -884,17 +885,13 @@ impl<F: Float> Graph<F> {
             OwnedRawBuffer::new(self.block_size),
             OwnedRawBuffer::new(self.block_size),
         ]);
-        // We currently guarantee that the two instances of this Arc are on the same thread, and therefore
-        // we can get away with using a `Cell` which is !Sync.
-        #[allow(clippy::arc_with_non_send_sync)]
-        let bufnum = Arc::new(Cell::new(0));
         let sink = FeedbackSink {
             buffers: buffers.clone(),
-            bufnum: bufnum.clone(),
+            bufnum: Cell::new(0),
         };
-        let source = FeedbackSink {
+        let source = FeedbackSource {
             buffers: buffers.clone(),
-            bufnum: bufnum.clone(),
+            bufnum: Cell::new(0),
         };
         // TODO: We don't need a full handle here
         let sink_handle = self.push_internal(sink);
@@ -2367,12 +2364,10 @@ impl From<u16> for Channels<U1> {
 /// Should only be used from inside the Graph. Assumes that a single Graph is always run
 pub(crate) struct FeedbackSink<F: Float> {
     buffers: Arc<[OwnedRawBuffer<F>; 2]>,
-    /// We promise that all nodes within a Graph will be processed sequentially and not
-    /// concurrently. If that changes, this has to be changed into something like Arc<AtomicUsize>
-    ///
-    /// We currently guarantee that the two instances of this Arc are on the same thread, and therefore
-    /// we can get away with using a `Cell` which is !Sync.
-    bufnum: Arc<Cell<usize>>,
+    /// The buffer to write to in the next block. The sink and the source are both run once every
+    /// block and the buffer written to by the sink in one block is the one the source reads in the next
+    /// block. Which one of the two that is run first within a block doesn't matter.
+    bufnum: Cell<usize>,
 }
 impl<F: Float> UGen for FeedbackSink<F> {
     type Sample = F;
@@ -2402,6 +2397,7 @@ impl<F: Float> UGen for FeedbackSink<F> {
         let bufnum = self.bufnum.get();
         let input = input.channel_as_slice(0);
         unsafe { self.buffers[bufnum].as_slice_mut().copy_from_slice(input) }
+        self.bufnum.set(1 - bufnum);
     }
 
     fn param_hints()
@@ -2424,9 +2420,8 @@ impl<F: Float> UGen for FeedbackSink<F> {
 /// Should only be used from inside the Graph.
 pub(crate) struct FeedbackSource<F: Float> {
     buffers: Arc<[OwnedRawBuffer<F>; 2]>,
-    /// We promise that all nodes within a Graph will be processed sequentially and not
-    /// concurrently. If that changes, this has to be changed into something like Arc<AtomicUsize>
-    bufnum: Arc<Cell<usize>>,
+    /// The buffer the sink writes to in the next block, see [`FeedbackSink`]
+    bufnum: Cell<usize>,
 }
 impl<F: Float> UGen for FeedbackSource<F> {
     type Sample = F;
-- 
2.43.0


From 078a8eb80067e0a4c9291128e00875b52976f652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:35 +0000
Subject: [PATCH 05/47] fix: order every node after the nodes it reads from,
 also nodes which aren't connected to the graph outputs

---
 knaster_graph/src/graph.rs | 74 +++++++++-----------------------------
 1 file changed, 17 insertions(+), 57 deletions(-)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index 3a83de3..b577a8c 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -1953,14 +1953,12 @@ impl<F: Float> Graph<F> {
             // There is probably room for optimisation here by managing to
             // not iterate the edges multiple times.
             for edge in input_edges.iter().filter_map(|e| *e) {
-                if !edge.is_feedback {
-                    if let NodeKeyOrGraph::Node(source) = edge.source {
-                        if !visited.contains(&source) {
-                            nodes_to_process.push(source);
-                            visited.insert(source);
-                            found_unvisited = true;
-                            break;
-                        }
+                if let NodeKeyOrGraph::Node(source) = edge.source {
+                    if !visited.contains(&source) {
+                        nodes_to_process.push(source);
+                        visited.insert(source);
+                        found_unvisited = true;
+                        break;
                     }
                 }
             }
@@ -1982,44 +1980,6 @@ impl<F: Float> Graph<F> {
         }
         node_order
     }
-    /// Looks for the deepest (furthest away from the graph output) node that is also an output node, i.e.
-    /// a node that is both an output node and an input to another node which is eventually connected to
-    /// an output is deeper than a node which is only connected to an output.
-    fn get_deepest_output_node(&self, start_node: NodeKey, visited: &HashSet<NodeKey>) -> NodeKey {
-        let mut last_connected_node_index = start_node;
-        let mut last_connected_output_node_index = start_node;
-        loop {
-            let mut found_later_node = false;
-            for (key, input_edges) in &self.node_input_edges {
-                for input_edge in input_edges.iter().filter_map(|e| *e) {
-                    if let NodeKeyOrGraph::Node(source) = input_edge.source {
-                        if source == last_connected_node_index && !visited.contains(&source) {
-                            last_connected_node_index = key;
-                            found_later_node = true;
-
-                            // check if it's an output node
-                            for edge in self.output_edges.iter().filter_map(|e| *e) {
-                                if let NodeKeyOrGraph::Node(source) = edge.source {
-                                    if last_connected_node_index == source {
-                                        last_connected_output_node_index =
-                                            last_connected_node_index;
-                                    }
-                                }
-                            }
-                            break;
-                        }
-                    }
-                }
-                if found_later_node {
-                    break;
-                }
-            }
-            if !found_later_node {
-                break;
-            }
-        }
-        last_connected_output_node_index
-    }
     /// Calculate the node order of the graph based on the outputs
     /// Post-ordered depth first search
     /// NB: Not real-time safe
@@ -2033,20 +1993,17 @@ impl<F: Float> Graph<F> {
                 // The same source node may be present in multiple output edges
                 // e.g. for stereo so we need to check if visited. The input to
                 // one graph output may also depend on the input to another
-                // graph output. Therefore we need to make sure to start with
-                // the deepest output nodes only.
-                let deepest_node = self.get_deepest_output_node(source, &visited);
-                if !visited.contains(&deepest_node) {
-                    nodes_to_process.push(deepest_node);
-                    visited.insert(deepest_node);
+                // graph output. Therefore every search is finished before starting the next.
+                if visited.insert(source) {
+                    nodes_to_process.push(source);
+                    let stack = self.depth_first_search(&mut visited, &mut nodes_to_process);
+                    self.node_order.extend(stack);
                 }
             }
         }
 
-        let stack = self.depth_first_search(&mut visited, &mut nodes_to_process);
-        self.node_order.extend(stack);
-
-        // Add all remaining nodes. These are not currently connected to anything.
+        // Add all remaining nodes. These are not currently connected to any graph output, but they may
+        // be connected to each other.
         let mut remaining_nodes = vec![];
         for (node_key, _node) in self.get_nodes() {
             if !visited.contains(&node_key)
@@ -2055,7 +2012,10 @@ impl<F: Float> Graph<F> {
                     .iter()
                     .any(|(key, _)| key == &node_key)
             {
-                remaining_nodes.push(node_key);
+                visited.insert(node_key);
+                nodes_to_process.push(node_key);
+                let stack = self.depth_first_search(&mut visited, &mut nodes_to_process);
+                remaining_nodes.extend(stack);
             }
         }
         self.node_order.extend(remaining_nodes.iter());
-- 
2.43.0


From 48da123bf5810909fe0a191ce46e44e9924c31af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:10 +0000
Subject: [PATCH 06/47] fix: connecting or disconnecting a node which is
 pending removal returns NodeNotFound

---
 knaster_graph/src/graph.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index b577a8c..8a5ef88 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -518,13 +518,13 @@ impl<F: Float> Graph<F> {
         }
 
         let nodes = self.get_nodes();
-        if !nodes.contains_key(source.key()) {
+        if !self.contains_node(source.key()) {
             return Err(GraphError::NodeNotFound);
         }
         if source_channel >= nodes[source.key()].data.outputs {
             return Err(GraphError::OutputOutOfBounds(source_channel));
         }
-        if !nodes.contains_key(sink.key()) {
+        if !self.contains_node(sink.key()) {
             return Err(GraphError::NodeNotFound);
         }
         if sink_channel >= nodes[sink.key()].data.inputs {
@@ -582,7 +582,7 @@ impl<F: Float> Graph<F> {
             return Err(GraphError::GraphOutputOutOfBounds(sink_channel));
         }
         let nodes = self.get_nodes();
-        if !nodes.contains_key(source.key()) {
+        if !self.contains_node(source.key()) {
             return Err(GraphError::NodeNotFound);
         }
         if source_channel >= nodes[source.key()].data.outputs {
@@ -669,7 +669,7 @@ impl<F: Float> Graph<F> {
             }
         };
         let nodes = self.get_nodes();
-        if !nodes.contains_key(source.key()) {
+        if !self.contains_node(source.key()) {
             return Err(GraphError::NodeNotFound);
         }
         if source_channel >= nodes[source.key()].data.outputs {
@@ -742,7 +742,7 @@ impl<F: Float> Graph<F> {
             return Err(GraphError::GraphInputOutOfBounds(source_channel));
         }
         let nodes = self.get_nodes();
-        if !nodes.contains_key(sink.key()) {
+        if !self.contains_node(sink.key()) {
             return Err(GraphError::NodeNotFound);
         }
         if sink_channel >= nodes[sink.key()].data.inputs {
@@ -1006,7 +1006,7 @@ impl<F: Float> Graph<F> {
                     });
                 }
                 let nodes = self.get_nodes();
-                if !nodes.contains_key(source_node.key()) {
+                if !self.contains_node(source_node.key()) {
                     return Err(GraphError::NodeNotFound);
                 }
                 let key = source_node.key();
@@ -1062,8 +1062,7 @@ impl<F: Float> Graph<F> {
                         found_graph: self.graph_id,
                     });
                 }
-                let nodes = self.get_nodes();
-                if !nodes.contains_key(sink_node.key()) {
+                if !self.contains_node(sink_node.key()) {
                     return Err(GraphError::NodeNotFound);
                 }
                 let edges = &mut self.node_input_edges[sink_node.key()];
@@ -2029,6 +2028,12 @@ impl<F: Float> Graph<F> {
         // dbg!(&self.node_order);
         // dbg!(&self.disconnected_nodes);
     }
+    /// Returns true if the node exists and isn't pending removal
+    fn contains_node(&self, key: NodeKey) -> bool {
+        // The edges of a node are removed immediately when it is freed, but the node itself is kept
+        // until it is no longer used on the audio thread.
+        self.node_input_edges.contains_key(key)
+    }
     fn get_nodes(&self) -> &SlotMap<NodeKey, Node<F>> {
         unsafe { &*self.nodes.get() }
     }
-- 
2.43.0


From 6ccc844359cb33b32afd8f4db707b13592010a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:10 +0000
Subject: [PATCH 07/47] fix: validate connections to parameters, including
 cycles, and apply them at the next commit

---
 knaster_graph/src/graph.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index 8a5ef88..4ea2ade 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -648,11 +648,19 @@ impl<F: Float> Graph<F> {
                 found_graph: sink.graph,
             });
         }
+        if !self.contains_node(sink.key()) {
+            return Err(GraphError::NodeNotFound);
+        }
         let nodes = self.get_nodes();
         let sink_node = &nodes[sink.key()];
         let param = parameter.into();
         let param_index = match param {
-            Param::Index(param_index) => param_index as u16,
+            Param::Index(param_index) => {
+                if param_index >= sink_node.data.parameters as usize {
+                    return Err(GraphError::ParameterIndexOutOfBounds(param_index));
+                }
+                param_index as u16
+            }
             Param::Desc(desc) => {
                 if let Some(index) = sink_node.parameter_descriptions().position(|s| s == desc) {
                     index as u16
@@ -675,7 +683,11 @@ impl<F: Float> Graph<F> {
         if source_channel >= nodes[source.key()].data.outputs {
             return Err(GraphError::OutputOutOfBounds(source_channel));
         }
+        if self.has_path(sink, source) {
+            return Err(GraphError::CircularConnection);
+        }
 
+        self.recalculation_required = true;
         let edges = self
             .node_parameter_edges
             .get_mut(sink.key())
@@ -1472,6 +1484,9 @@ impl<F: Float> Graph<F> {
                         }
                     }
                 }
+                if let Some(edges) = self.node_parameter_edges.get(node) {
+                    stack.extend(edges.iter().map(|edge| edge.source));
+                }
             }
         }
 
-- 
2.43.0


From bec51ae0ee213e155da73e3218215847ffda505d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:56 +0000
Subject: [PATCH 08/47] fix: parameters connected to a freed or disconnected
 node output must not keep reading from its buffer

---
 knaster_graph/src/graph.rs | 39 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index 4ea2ade..a474567 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -175,6 +175,10 @@ pub struct Graph<F: Float> {
     /// Edges which control a parameter of a node through the output of another
     /// node. These can be in addition to audio input edges.
     node_parameter_edges: SecondaryMap<NodeKey, Vec<ParameterEdge>>,
+    /// Parameters which have been connected to the output of a node, but no longer are. The audio
+    /// thread must not keep reading from the old buffer, so they read silence instead, the same way
+    /// as a disconnected audio input.
+    disconnected_parameters: Vec<(NodeKey, u16)>,
     /// If a node can be freed or not. A node can be made immortal to avoid accidentally removing it.
     node_mortality: SecondaryMap<NodeKey, bool>,
     node_order: Vec<NodeKey>,
@@ -245,6 +249,7 @@ impl<F: Float> Graph<F> {
             nodes,
             node_input_edges,
             node_parameter_edges,
+            disconnected_parameters: vec![],
             node_mortality: SecondaryMap::with_capacity(DEFAULT_NUM_NODES),
             node_order: Vec::with_capacity(DEFAULT_NUM_NODES),
             disconnected_nodes: vec![],
@@ -1056,6 +1061,9 @@ impl<F: Float> Graph<F> {
                 *edge = None;
             }
         }
+        if let NodeKeyOrGraph::Node(source_key) = source {
+            self.remove_parameter_edges_from(source_key, Some(source_channel));
+        }
 
         self.recalculation_required = true;
         Ok(())
@@ -1102,6 +1110,20 @@ impl<F: Float> Graph<F> {
         }
         Ok(())
     }
+    /// Remove all parameter edges from `source`, or only those from a specific channel.
+    fn remove_parameter_edges_from(&mut self, source: NodeKey, source_channel: Option<u16>) {
+        for (node_key, edges) in &mut self.node_parameter_edges {
+            edges.retain(|edge| {
+                let remove = edge.source == source
+                    && source_channel.is_none_or(|channel| channel == edge.channel_in_source);
+                if remove {
+                    self.disconnected_parameters
+                        .push((node_key, edge.parameter_index));
+                }
+                !remove
+            });
+        }
+    }
     /// If the node should be automatically removed, this removes it.
     fn evaluate_if_node_should_be_removed(&mut self, key: NodeKey) {
         let node = &mut self.get_nodes_mut()[key];
@@ -1542,6 +1564,22 @@ impl<F: Float> Graph<F> {
     /// time the schedule is updated.
     fn generate_ar_parameter_changes(&mut self) -> Vec<ArParameterChange<F>> {
         let mut apc = Vec::new();
+        let parameter_edges = &self.node_parameter_edges;
+        // Forget those which have been freed or connected again
+        self.disconnected_parameters.retain(|(node_key, param)| {
+            parameter_edges
+                .get(*node_key)
+                .is_some_and(|edges| edges.iter().all(|e| e.parameter_index != *param))
+        });
+        for (node_key, parameter_index) in &self.disconnected_parameters {
+            if let Some(node_index) = self.node_order.iter().position(|k| k == node_key) {
+                apc.push(ArParameterChange {
+                    node: node_index,
+                    parameter_index: *parameter_index as usize,
+                    buffer: self.buffer_allocator.empty_channel(),
+                })
+            }
+        }
         for (node_key, edges) in &self.node_parameter_edges {
             for edge in edges {
                 let ParameterEdge {
@@ -1768,6 +1806,7 @@ impl<F: Float> Graph<F> {
         // Remove all edges leading to the node
         if let Some(_edges) = self.node_input_edges.remove(node_key) {}
         self.node_parameter_edges.remove(node_key);
+        self.remove_parameter_edges_from(node_key, None);
         // Remove all edges leading from the node to other nodes
         for (_k, input_edges) in &mut self.node_input_edges {
             let mut i = 0;
-- 
2.43.0


From c7cc819d2486d77f29020739a85f7d87054114ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:56 +0000
Subject: [PATCH 09/47] fix: removing an orphaned add node panicked if any
 graph output was unconnected

---
 knaster_graph/src/graph.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index a474567..b99302b 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -1146,8 +1146,7 @@ impl<F: Float> Graph<F> {
                                 }
                             }
                         }
-                        for edge in &mut self.output_edges {
-                            let edge = edge.as_mut().unwrap();
+                        for edge in self.output_edges.iter_mut().flatten() {
                             if let NodeKeyOrGraph::Node(source) = &edge.source {
                                 if *source == key {
                                     *edge = input_edge;
-- 
2.43.0


From 231a44b18b29e7cf04934562aafdbbada6e5f8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:56 +0000
Subject: [PATCH 10/47] fix: removing an orphaned add node keeps its remaining
 input connected to the parameter it controls

---
 knaster_graph/src/graph.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index b99302b..8a95e04 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -1135,6 +1135,15 @@ impl<F: Float> Graph<F> {
                 match (edges[0], edges[1]) {
                     (Some(_), Some(_)) => (),
                     (None, Some(input_edge)) | (Some(input_edge), None) => {
+                        // The add node may also be the source of a parameter
+                        if let NodeKeyOrGraph::Node(input) = input_edge.source {
+                            for (_k, edges) in &mut self.node_parameter_edges {
+                                for edge in edges.iter_mut().filter(|e| e.source == key) {
+                                    edge.source = input;
+                                    edge.channel_in_source = input_edge.channel_in_source;
+                                }
+                            }
+                        }
                         // Find out where this math node is pointing and replace the node
                         for (_k, input_edges) in &mut self.node_input_edges {
                             for edge in input_edges.iter_mut().filter(|e| e.is_some()) {
-- 
2.43.0


From b5590d646bfc57d61b96845c6339b335bd6efd51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:56 +0000
Subject: [PATCH 11/47] fix: disconnecting a graph input must not disconnect
 the graph output with the same index

---
 knaster_graph/src/graph.rs | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index 8a95e04..a78ea60 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -1036,11 +1036,6 @@ impl<F: Float> Graph<F> {
                 if source_channel >= self.num_inputs {
                     return Err(GraphError::GraphInputOutOfBounds(source_channel));
                 }
-                if let Some(edge) = self.output_edges[source_channel as usize].take() {
-                    if let NodeKeyOrGraph::Node(source_node) = edge.source {
-                        self.evaluate_if_node_should_be_removed(source_node);
-                    }
-                }
             }
         }
         let source: NodeKeyOrGraph = source.into();
-- 
2.43.0


From 3a28dfa96fd92b3f9eb16bafc5d5da9c93f90457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:56 +0000
Subject: [PATCH 12/47] fix: disconnecting a graph output takes effect at the
 next commit

---
 knaster_graph/src/graph.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index a78ea60..c17d8d3 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -1101,6 +1101,7 @@ impl<F: Float> Graph<F> {
                         self.evaluate_if_node_should_be_removed(source_node);
                     }
                 }
+                self.recalculation_required = true;
             }
         }
         Ok(())
-- 
2.43.0


From ec72cd8cc16ce188dfaa1075fff461dd1567ec51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:56 +0000
Subject: [PATCH 13/47] fix: report the right error for a bad input channel or
 a node of the wrong graph

---
 knaster_graph/src/graph.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index c17d8d3..25ba735 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -763,7 +763,7 @@ impl<F: Float> Graph<F> {
             return Err(GraphError::NodeNotFound);
         }
         if sink_channel >= nodes[sink.key()].data.inputs {
-            return Err(GraphError::OutputOutOfBounds(sink_channel));
+            return Err(GraphError::InputOutOfBounds(sink_channel));
         }
 
         self.connect_to_node_internal(
@@ -1017,9 +1017,9 @@ impl<F: Float> Graph<F> {
         match source {
             NodeOrGraph::Node(source_node) => {
                 if source_node.graph != self.graph_id {
-                    return Err(GraphError::WrongSinkNodeGraph {
-                        expected_graph: source_node.graph,
-                        found_graph: self.graph_id,
+                    return Err(GraphError::WrongSourceNodeGraph {
+                        expected_graph: self.graph_id,
+                        found_graph: source_node.graph,
                     });
                 }
                 let nodes = self.get_nodes();
@@ -1073,8 +1073,8 @@ impl<F: Float> Graph<F> {
             NodeOrGraph::Node(sink_node) => {
                 if sink_node.graph != self.graph_id {
                     return Err(GraphError::WrongSinkNodeGraph {
-                        expected_graph: sink_node.graph,
-                        found_graph: self.graph_id,
+                        expected_graph: self.graph_id,
+                        found_graph: sink_node.graph,
                     });
                 }
                 if !self.contains_node(sink_node.key()) {
-- 
2.43.0


From 6ed4403d1135b8660190c7dd087877f7354ea0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:56 +0000
Subject: [PATCH 14/47] fix: a commit that cannot be sent must not lose the new
 nodes

---
 knaster_graph/src/graph.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index 25ba735..14fa963 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -1769,6 +1769,13 @@ impl<F: Float> Graph<F> {
         self.free_old();
         self.graph_gen_communicator.free_old_task_data();
         if self.recalculation_required {
+            // The UGens of new nodes are moved into the TaskData, so it must only be generated if it
+            // can be sent.
+            if self.graph_gen_communicator.new_task_data_producer.is_full() {
+                return Err(GraphError::SendToGraphGen(
+                    "RingBuffer for sending TaskData is full".into(),
+                ));
+            }
             self.calculate_node_order();
             let graph_input_pointers_to_nodes = self.allocate_node_buffers();
 
-- 
2.43.0


From 9052c8f095f834a9eef7e6bf62460a3ccc400afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:50 +0000
Subject: [PATCH 15/47] fix: parameter changes scheduled more than a second
 ahead were dropped

---
 knaster_graph/src/graph_gen.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/knaster_graph/src/graph_gen.rs b/knaster_graph/src/graph_gen.rs
index cd1b8ba..ee3de1d 100644
--- a/knaster_graph/src/graph_gen.rs
+++ b/knaster_graph/src/graph_gen.rs
@@ -125,7 +125,7 @@ impl<F: Float, Inputs: Size, Outputs: Size> UGen for GraphGen<F, Inputs, Outputs
                     continue;
                 }
 
-                if let Some(unapplied) = apply_parameter_change(
+                if let Some((unapplied, is_due)) = apply_parameter_change(
                     event,
                     ctx.block_size() as u64,
                     ctx.sample_rate() as u64,
@@ -133,8 +133,11 @@ impl<F: Float, Inputs: Size, Outputs: Size> UGen for GraphGen<F, Inputs, Outputs
                     keys,
                     tasks,
                 ) {
+                    // A change may be scheduled arbitrarily far into the future, only the blocks after
+                    // that count.
+                    let num_blocks_waiting = num_blocks_waiting + is_due as u32;
                     self.waiting_parameter_changes
-                        .push_back((unapplied, num_blocks_waiting + 1));
+                        .push_back((unapplied, num_blocks_waiting));
                 }
             }
         }
@@ -148,7 +151,7 @@ impl<F: Float, Inputs: Size, Outputs: Size> UGen for GraphGen<F, Inputs, Outputs
             let keys = &self.current_task_data.node_task_order;
             let tasks = &mut self.current_task_data.tasks;
             for event in pm_chunk {
-                if let Some(event) = apply_parameter_change(
+                if let Some((event, _)) = apply_parameter_change(
                     event,
                     ctx.block_size() as u64,
                     ctx.sample_rate() as u64,
@@ -274,7 +277,7 @@ fn apply_parameter_change<'a, F: Float>(
     // replace implicit 'static with 'b
     keys: &'a [NodeKey],
     tasks: &'a mut [Task<F>],
-) -> Option<SchedulingEvent> {
+) -> Option<(SchedulingEvent, bool)> {
     let mut ready_to_apply = event.token.as_ref().is_none_or(|t| t.is_activated());
     let mut delay_in_block = 0;
     if let Some(time) = &mut event.time {
@@ -301,7 +304,7 @@ fn apply_parameter_change<'a, F: Float>(
             }
         }
     }
-    Some(event)
+    Some((event, ready_to_apply))
 }
 
 /// Safety: This impl of Send is required because of the Arc<UnsafeCell<...>> in
-- 
2.43.0


From 3c910cb984627bec118f12f5476eb71e30340a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:51 +0000
Subject: [PATCH 16/47] fix: a delay within the block must only affect the
 change it was set for

---
 .../src/wrappers_core/precise_timing.rs         |  6 ++++--
 knaster_graph/src/graph_gen.rs                  | 17 ++++++++++++++---
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/knaster_core_dsp/src/wrappers_core/precise_timing.rs b/knaster_core_dsp/src/wrappers_core/precise_timing.rs
index 8388b7a..4ae0fca 100644
--- a/knaster_core_dsp/src/wrappers_core/precise_timing.rs
+++ b/knaster_core_dsp/src/wrappers_core/precise_timing.rs
@@ -124,10 +124,12 @@ impl<T: UGen, const DELAYED_CHANGES_PER_BLOCK: usize> UGen
     }
 
     fn param_apply(&mut self, ctx: &mut AudioCtx, index: usize, value: ParameterValue) {
-        if self.next_delay[index] == 0 {
+        // The delay is only valid for the next change
+        let delay = core::mem::take(&mut self.next_delay[index]);
+        if delay == 0 {
             self.ugen.param_apply(ctx, index, value);
         } else if self.next_delay_i < DELAYED_CHANGES_PER_BLOCK {
-            self.waiting_changes[self.next_delay_i] = Some((self.next_delay[index], index, value));
+            self.waiting_changes[self.next_delay_i] = Some((delay, index, value));
             self.next_delay_i += 1;
         } else {
             rt_log!(ctx.logger(); "Warning: Not enough space for echeduled changes in WrHiResParams, change ignored. Allocate more space for saving scheduled changes by setting the generic DelayedChangesPerBlock to a higher number than the current", DELAYED_CHANGES_PER_BLOCK);
diff --git a/knaster_graph/src/graph_gen.rs b/knaster_graph/src/graph_gen.rs
index ee3de1d..ce9e9b1 100644
--- a/knaster_graph/src/graph_gen.rs
+++ b/knaster_graph/src/graph_gen.rs
@@ -291,13 +291,24 @@ fn apply_parameter_change<'a, F: Float>(
         for (key, task) in keys.iter().zip(tasks.iter_mut()) {
             if *key == node_key {
                 let g = &mut task.ugen;
-                if delay_in_block > 0 {
-                    g.set_delay_within_block_for_param(ctx, event.parameter, delay_in_block as u16);
-                }
                 if let Some(smoothing) = event.smoothing {
+                    if delay_in_block > 0 {
+                        g.set_delay_within_block_for_param(
+                            ctx,
+                            event.parameter,
+                            delay_in_block as u16,
+                        );
+                    }
                     g.param_apply(ctx, event.parameter, smoothing.into());
                 }
                 if let Some(value) = event.value {
+                    if delay_in_block > 0 {
+                        g.set_delay_within_block_for_param(
+                            ctx,
+                            event.parameter,
+                            delay_in_block as u16,
+                        );
+                    }
                     g.param_apply(ctx, event.parameter, value);
                 }
                 return None;
-- 
2.43.0


From 33b5825626ebc6a6d25df15caad31424f8afc81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:51 +0000
Subject: [PATCH 17/47] fix: WrPreciseTiming ran out of space for changes when
 processing frame by frame

---
 knaster_core_dsp/src/wrappers_core/precise_timing.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/knaster_core_dsp/src/wrappers_core/precise_timing.rs b/knaster_core_dsp/src/wrappers_core/precise_timing.rs
index 4ae0fca..3de67fe 100644
--- a/knaster_core_dsp/src/wrappers_core/precise_timing.rs
+++ b/knaster_core_dsp/src/wrappers_core/precise_timing.rs
@@ -60,6 +60,7 @@ impl<T: UGen, const DELAYED_CHANGES_PER_BLOCK: usize> UGen
                 self.ugen.param_apply(ctx, index, value);
             }
         }
+        self.next_delay_i = 0;
         self.ugen.process(ctx, flags, input)
     }
     fn process_block<InBlock, OutBlock>(
-- 
2.43.0


From 66a2392ec7d24d188f809e41b69c2bc4c37e9518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:51 +0000
Subject: [PATCH 18/47] fix: AudioProcessor::run must not read past the end of
 a short input slice

---
 knaster_graph/src/processor.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/knaster_graph/src/processor.rs b/knaster_graph/src/processor.rs
index 89f0634..02cd85b 100644
--- a/knaster_graph/src/processor.rs
+++ b/knaster_graph/src/processor.rs
@@ -119,6 +119,7 @@ impl<F: Float> AudioProcessor<F> {
     pub fn run(&mut self, inputs: &[&[F]]) {
         assert_eq!(inputs.len(), self.input_pointers.len());
         for (slice, ptr) in inputs.iter().zip(self.input_pointers.iter_mut()) {
+            assert!(slice.len() >= self.block_size);
             *ptr = slice.as_ptr();
         }
         self.ctx.block.set_frame_clock(self.frame_clock);
-- 
2.43.0


From 00cc4d02635722c0a9980a004de4a8d7a763096c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:38 +0000
Subject: [PATCH 19/47] fix: WrMul must not forward its own parameter index to
 the wrapped UGen

---
 knaster_core_dsp/src/wrappers_core/math.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/knaster_core_dsp/src/wrappers_core/math.rs b/knaster_core_dsp/src/wrappers_core/math.rs
index d9f5c17..afbf470 100644
--- a/knaster_core_dsp/src/wrappers_core/math.rs
+++ b/knaster_core_dsp/src/wrappers_core/math.rs
@@ -102,13 +102,18 @@ where
         index: usize,
         buffer: *const T::Sample,
     ) {
-        unsafe {
-            self.ugen.set_ar_param_buffer(ctx, index, buffer);
+        // The parameter added by this wrapper is unknown to the wrapped UGen
+        if index < T::Parameters::USIZE {
+            unsafe {
+                self.ugen.set_ar_param_buffer(ctx, index, buffer);
+            }
         }
     }
     fn set_delay_within_block_for_param(&mut self, ctx: &mut AudioCtx, index: usize, delay: u16) {
-        self.ugen
-            .set_delay_within_block_for_param(ctx, index, delay);
+        if index < T::Parameters::USIZE {
+            self.ugen
+                .set_delay_within_block_for_param(ctx, index, delay);
+        }
     }
 }
 
-- 
2.43.0


From e5b2803c4f110985211a5251cf9c2e6b66d32310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:38 +0000
Subject: [PATCH 20/47] fix: WrDone must forward audio rate parameter buffers
 and delays to the wrapped UGen

---
 knaster_graph/src/wrappers_graph/done.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/knaster_graph/src/wrappers_graph/done.rs b/knaster_graph/src/wrappers_graph/done.rs
index e0160b8..2230a57 100644
--- a/knaster_graph/src/wrappers_graph/done.rs
+++ b/knaster_graph/src/wrappers_graph/done.rs
@@ -118,4 +118,23 @@ where
             self.ugen.param_apply(ctx, index, value);
         }
     }
+    unsafe fn set_ar_param_buffer(
+        &mut self,
+        ctx: &mut AudioCtx,
+        index: usize,
+        buffer: *const T::Sample,
+    ) {
+        // The parameter added by this wrapper is unknown to the wrapped UGen
+        if index < T::Parameters::USIZE {
+            unsafe {
+                self.ugen.set_ar_param_buffer(ctx, index, buffer);
+            }
+        }
+    }
+    fn set_delay_within_block_for_param(&mut self, ctx: &mut AudioCtx, index: usize, delay: u16) {
+        if index < T::Parameters::USIZE {
+            self.ugen
+                .set_delay_within_block_for_param(ctx, index, delay);
+        }
+    }
 }
-- 
2.43.0


From 18ef3f2ec7da6540bc00bb119c6cb74d86a59e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:38 +0000
Subject: [PATCH 21/47] fix: all wrappers must forward audio rate parameter
 buffers and delays to the wrapped UGen

---
 .../src/wrappers_core/audio_rate.rs            | 18 ++++++++++++++++++
 .../src/wrappers_core/smooth_params.rs         | 14 ++++++++++++++
 2 files changed, 32 insertions(+)

diff --git a/knaster_core_dsp/src/wrappers_core/audio_rate.rs b/knaster_core_dsp/src/wrappers_core/audio_rate.rs
index 603b225..9a71c92 100644
--- a/knaster_core_dsp/src/wrappers_core/audio_rate.rs
+++ b/knaster_core_dsp/src/wrappers_core/audio_rate.rs
@@ -82,6 +82,10 @@ impl<T: UGen> UGen for WrArParams<T> {
         debug_assert!(index < T::Parameters::USIZE);
         self.buffers[index] = Some(buffer);
     }
+    fn set_delay_within_block_for_param(&mut self, ctx: &mut AudioCtx, index: usize, delay: u16) {
+        self.ugen
+            .set_delay_within_block_for_param(ctx, index, delay);
+    }
 }
 
 /// Adds an audio input channel and uses that channel to set a parameter every
@@ -168,4 +172,18 @@ where
     fn param_apply(&mut self, ctx: &mut AudioCtx, index: usize, value: ParameterValue) {
         self.ugen.param_apply(ctx, index, value);
     }
+    unsafe fn set_ar_param_buffer(
+        &mut self,
+        ctx: &mut AudioCtx,
+        index: usize,
+        buffer: *const T::Sample,
+    ) {
+        unsafe {
+            self.ugen.set_ar_param_buffer(ctx, index, buffer);
+        }
+    }
+    fn set_delay_within_block_for_param(&mut self, ctx: &mut AudioCtx, index: usize, delay: u16) {
+        self.ugen
+            .set_delay_within_block_for_param(ctx, index, delay);
+    }
 }
diff --git a/knaster_core_dsp/src/wrappers_core/smooth_params.rs b/knaster_core_dsp/src/wrappers_core/smooth_params.rs
index 5d9e4d3..4225eca 100644
--- a/knaster_core_dsp/src/wrappers_core/smooth_params.rs
+++ b/knaster_core_dsp/src/wrappers_core/smooth_params.rs
@@ -242,6 +242,20 @@ impl<T: UGen> UGen for WrSmoothParams<T> {
             }
         }
     }
+    unsafe fn set_ar_param_buffer(
+        &mut self,
+        ctx: &mut AudioCtx,
+        index: usize,
+        buffer: *const T::Sample,
+    ) {
+        unsafe {
+            self.ugen.set_ar_param_buffer(ctx, index, buffer);
+        }
+    }
+    fn set_delay_within_block_for_param(&mut self, ctx: &mut AudioCtx, index: usize, delay: u16) {
+        self.ugen
+            .set_delay_within_block_for_param(ctx, index, delay);
+    }
 }
 
 #[derive(Copy, Clone, Debug)]
-- 
2.43.0


From 88c479007246978103dfcef9c3ae76b3b55e47b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:14 +0000
Subject: [PATCH 22/47] fix: parameter smoothing over zero frames set the
 parameter to NaN

---
 .../src/wrappers_core/smooth_params.rs        | 43 +++++++++++++------
 1 file changed, 30 insertions(+), 13 deletions(-)

diff --git a/knaster_core_dsp/src/wrappers_core/smooth_params.rs b/knaster_core_dsp/src/wrappers_core/smooth_params.rs
index 4225eca..64d8947 100644
--- a/knaster_core_dsp/src/wrappers_core/smooth_params.rs
+++ b/knaster_core_dsp/src/wrappers_core/smooth_params.rs
@@ -46,8 +46,8 @@ impl<T: UGen> WrSmoothParams<T> {
                     frames_elapsed,
                     ..
                 } => {
-                    let current_mix = (frames_elapsed) as PFloat / (duration_frames) as PFloat;
-                    let current_value = (end_value - start_value) * current_mix + start_value;
+                    let current_value =
+                        interpolate(start_value, end_value, frames_elapsed, duration_frames);
                     self.smoothing_state[index] = ParameterSmoothingState::None { current_value };
                 }
             },
@@ -82,10 +82,12 @@ impl<T: UGen> WrSmoothParams<T> {
                                 done: true,
                             }
                         } else {
-                            let current_mix =
-                                (frames_elapsed) as PFloat / (duration_frames) as PFloat;
-                            let current_value =
-                                (end_value - start_value) * current_mix + start_value;
+                            let current_value = interpolate(
+                                start_value,
+                                end_value,
+                                frames_elapsed,
+                                duration_frames,
+                            );
                             self.smoothing_state[index] = ParameterSmoothingState::Linear {
                                 start_value: current_value,
                                 end_value,
@@ -224,11 +226,12 @@ impl<T: UGen> UGen for WrSmoothParams<T> {
                             if *done {
                                 *start_value = *end_value;
                             } else {
-                                let current_mix =
-                                    (*frames_elapsed) as PFloat / (*duration_frames) as PFloat;
-                                let current_value =
-                                    (*end_value - *start_value) * current_mix + *start_value;
-                                *start_value = current_value;
+                                *start_value = interpolate(
+                                    *start_value,
+                                    *end_value,
+                                    *frames_elapsed,
+                                    *duration_frames,
+                                );
                             }
                             *end_value = float_value;
                             *done = false;
@@ -258,6 +261,20 @@ impl<T: UGen> UGen for WrSmoothParams<T> {
     }
 }
 
+/// Linear interpolation which always ends on exactly `end_value`, also if the duration is 0.
+fn interpolate(
+    start_value: PFloat,
+    end_value: PFloat,
+    frames_elapsed: usize,
+    duration_frames: usize,
+) -> PFloat {
+    if frames_elapsed >= duration_frames {
+        return end_value;
+    }
+    let current_mix = frames_elapsed as PFloat / duration_frames as PFloat;
+    (end_value - start_value) * current_mix + start_value
+}
+
 #[derive(Copy, Clone, Debug)]
 /// Represents the internal state of a channel of parameter smoothing.
 enum ParameterSmoothingState {
@@ -292,8 +309,8 @@ impl ParameterSmoothingState {
                 if *done {
                     None
                 } else {
-                    let current_mix = (*frames_elapsed) as PFloat / (*duration_frames) as PFloat;
-                    let current_value = (*end_value - *start_value) * current_mix + *start_value;
+                    let current_value =
+                        interpolate(*start_value, *end_value, *frames_elapsed, *duration_frames);
                     if *frames_elapsed == *duration_frames {
                         *done = true;
                     } else {
-- 
2.43.0


From 64b8e6f4bedeef08d3d7495eae75d7e902762d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:14 +0000
Subject: [PATCH 23/47] fix: parameter smoothing starts from the current value,
 and reaches the new value if the smoothing is changed on the way

---
 knaster_core_dsp/src/wrappers_core/smooth_params.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/knaster_core_dsp/src/wrappers_core/smooth_params.rs b/knaster_core_dsp/src/wrappers_core/smooth_params.rs
index 64d8947..ee3f3a6 100644
--- a/knaster_core_dsp/src/wrappers_core/smooth_params.rs
+++ b/knaster_core_dsp/src/wrappers_core/smooth_params.rs
@@ -92,9 +92,9 @@ impl<T: UGen> WrSmoothParams<T> {
                                 start_value: current_value,
                                 end_value,
                                 duration_frames: new_duration_in_frames,
-                                frames_elapsed,
+                                frames_elapsed: 0,
                                 rate: new_rate,
-                                done: true,
+                                done: false,
                             }
                         }
                     }
@@ -212,7 +212,8 @@ impl<T: UGen> UGen for WrSmoothParams<T> {
                 // With an audio rate parameter, ignore other incoming parameter changes
                 if !matches!(self.parameters[index], Rate::AudioRate) {
                     match &mut self.smoothing_state[index] {
-                        ParameterSmoothingState::None { .. } => {
+                        ParameterSmoothingState::None { current_value } => {
+                            *current_value = float_value;
                             self.ugen.param_apply(ctx, index, value)
                         }
                         ParameterSmoothingState::Linear {
-- 
2.43.0


From b951ff6ac3b54a5a694bb7c4e1e8878c922c08e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:18 +0000
Subject: [PATCH 24/47] fix: audio rate parameter smoothing changes the value
 every frame and not every block

---
 .../src/wrappers_core/smooth_params.rs        | 80 +++++++------------
 1 file changed, 29 insertions(+), 51 deletions(-)

diff --git a/knaster_core_dsp/src/wrappers_core/smooth_params.rs b/knaster_core_dsp/src/wrappers_core/smooth_params.rs
index ee3f3a6..9f1619e 100644
--- a/knaster_core_dsp/src/wrappers_core/smooth_params.rs
+++ b/knaster_core_dsp/src/wrappers_core/smooth_params.rs
@@ -27,6 +27,14 @@ impl<T: UGen> WrSmoothParams<T> {
             smoothing_state: NumericArray::default(),
         }
     }
+    fn apply_next_values(&mut self, ctx: &mut AudioCtx, block_size: usize, frame_in_block: usize) {
+        for (j, state) in self.smoothing_state.iter_mut().enumerate() {
+            if let Some(new_value) = state.next_value(block_size, frame_in_block) {
+                self.ugen
+                    .param_apply(ctx, j, ParameterValue::Float(new_value))
+            }
+        }
+    }
     /// Set the smoothing kind for a specific parameter index.
     pub fn set_smoothing(
         &mut self,
@@ -120,13 +128,7 @@ impl<T: UGen> UGen for WrSmoothParams<T> {
         flags: &mut UGenFlags,
         input: Frame<Self::Sample, Self::Inputs>,
     ) -> Frame<Self::Sample, Self::Outputs> {
-        // We only have potentially block rate parameters, run the whole block
-        for (j, state) in self.smoothing_state.iter_mut().enumerate() {
-            if let Some(new_value) = state.next_value(1, 0) {
-                self.ugen
-                    .param_apply(ctx, j, ParameterValue::Float(new_value))
-            }
-        }
+        self.apply_next_values(ctx, 1, 0);
         self.ugen.process(ctx, flags, input)
     }
     fn process_block<InBlock, OutBlock>(
@@ -139,54 +141,30 @@ impl<T: UGen> UGen for WrSmoothParams<T> {
         InBlock: BlockRead<Sample = Self::Sample> + ?Sized,
         OutBlock: Block<Sample = Self::Sample> + ?Sized,
     {
-        let mut there_is_an_ar_parameter = false;
         let org_block = ctx.block;
-        // TODO: set the Rate  of a parameter
-        for p in &self.parameters {
-            there_is_an_ar_parameter = there_is_an_ar_parameter || matches!(*p, Rate::AudioRate);
+        let frames = ctx.frames_to_process();
+        let mut i = 0;
+        //  run sample by sample for as long as needed
+        while i < frames && self.smoothing_state.iter().any(|s| s.has_new_ar_value()) {
+            self.apply_next_values(ctx, frames, i);
+            let input = PartialBlock::from_block(input, i, 1);
+            let mut output = output.partial_mut(i, 1);
+            ctx.block = org_block.make_partial(i, 1);
+            self.ugen.process_block(ctx, flags, &input, &mut output);
+            ctx.block = org_block;
+            i += 1;
         }
-        if there_is_an_ar_parameter {
-            //  run sample by sample for as long as needed
-            let mut i = 0;
-            while i < ctx.frames_to_process() {
-                let mut there_is_a_new_smoothing_value = false;
-
-                for p in &self.smoothing_state {
-                    there_is_a_new_smoothing_value =
-                        there_is_a_new_smoothing_value || p.has_new_ar_value();
-                }
-                if there_is_a_new_smoothing_value {
-                    for (j, state) in self.smoothing_state.iter_mut().enumerate() {
-                        if let Some(new_value) = state.next_value(ctx.block_size(), i) {
-                            self.ugen
-                                .param_apply(ctx, j, ParameterValue::Float(new_value))
-                        }
-                    }
-                    let input = PartialBlock::from_block(input, i, 1);
-                    let mut output = output.partial_mut(i, 1);
-                    let partial_ctx = org_block.make_partial(i, 1);
-                    ctx.block = partial_ctx;
-                    self.ugen.process_block(ctx, flags, &input, &mut output);
-                    i += 1;
-                } else {
-                    // Process the full block
-                    let input = PartialBlock::from_block(input, i, input.block_size() - i);
-                    let mut output = output.partial_mut(i, output.block_size() - i);
-                    let partial_ctx = org_block.make_partial(i, ctx.block_size() - i);
-                    ctx.block = partial_ctx;
-                    self.ugen.process_block(ctx, flags, &input, &mut output);
-                    break;
-                }
-            }
-        } else {
+        if i == 0 {
             // We only have potentially block rate parameters, run the whole block
-            for (j, state) in self.smoothing_state.iter_mut().enumerate() {
-                if let Some(new_value) = state.next_value(ctx.block_size(), 0) {
-                    self.ugen
-                        .param_apply(ctx, j, ParameterValue::Float(new_value))
-                }
-            }
+            self.apply_next_values(ctx, frames, 0);
             self.ugen.process_block(ctx, flags, input, output);
+        } else if i < frames {
+            // Process the rest of the block
+            let input = PartialBlock::from_block(input, i, frames - i);
+            let mut output = output.partial_mut(i, frames - i);
+            ctx.block = org_block.make_partial(i, frames - i);
+            self.ugen.process_block(ctx, flags, &input, &mut output);
+            ctx.block = org_block;
         }
     }
     type Parameters = T::Parameters;
-- 
2.43.0


From 4c6301665b40d54f9a9fd6d7f051532f74cb999d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:50 +0000
Subject: [PATCH 25/47] fix: setting a parameter or the mortality of a node
 which isn't in the graph is an error

---
 knaster_graph/src/graph.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index 14fa963..8fcef6c 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -1393,10 +1393,10 @@ impl<F: Float> Graph<F> {
                 found_graph: node_id.graph,
             });
         }
-        let nodes = self.get_nodes();
-        let Some(node) = nodes.get(node_id.key()) else {
+        if !self.contains_node(node_id.key()) {
             return Err(GraphError::NodeNotFound);
-        };
+        }
+        let node = &self.get_nodes()[node_id.key()];
         let param_index = match param.into() {
             knaster_core::Param::Index(param_i) => {
                 if param_i as u16 >= node.data.parameters {
@@ -2119,6 +2119,12 @@ impl<F: Float> Graph<F> {
         mortality: bool,
     ) -> Result<(), GraphError> {
         let node = node.into();
+        if node.graph != self.graph_id {
+            return Err(GraphError::WrongSinkNodeGraph {
+                expected_graph: self.graph_id,
+                found_graph: node.graph,
+            });
+        }
         if let Some(m) = self.node_mortality.get_mut(node.key()) {
             *m = mortality;
             Ok(())
-- 
2.43.0


From f5d23bba3153829e670acd79718f01653b8813f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:35 +0000
Subject: [PATCH 26/47] fix: reject every parameter index that is out of bounds
 when setting a parameter

---
 knaster_graph/src/graph.rs      |  2 +-
 knaster_graph/src/graph_edit.rs |  2 +-
 knaster_graph/src/handle.rs     | 14 ++++++++++++--
 3 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index 8fcef6c..c2a570b 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -1399,7 +1399,7 @@ impl<F: Float> Graph<F> {
         let node = &self.get_nodes()[node_id.key()];
         let param_index = match param.into() {
             knaster_core::Param::Index(param_i) => {
-                if param_i as u16 >= node.data.parameters {
+                if param_i >= node.data.parameters as usize {
                     return Err(ParameterError::ParameterIndexOutOfBounds.into());
                 } else {
                     param_i
diff --git a/knaster_graph/src/graph_edit.rs b/knaster_graph/src/graph_edit.rs
index 8caabf8..05b145d 100644
--- a/knaster_graph/src/graph_edit.rs
+++ b/knaster_graph/src/graph_edit.rs
@@ -860,7 +860,7 @@ impl<'a, 'b, F: Float> DH<'a, 'b, F, DynamicHandle3> {
         let p = p.into();
         match p {
             Param::Index(i) => {
-                if (i as u16) < self.nodes.data.parameters {
+                if i < self.nodes.data.parameters as usize {
                     Some(Parameter {
                         node: self.nodes.node_id,
                         param_index: i as u16,
diff --git a/knaster_graph/src/handle.rs b/knaster_graph/src/handle.rs
index bb68179..a72f1e1 100644
--- a/knaster_graph/src/handle.rs
+++ b/knaster_graph/src/handle.rs
@@ -221,7 +221,12 @@ impl<T: UGen> HandleTrait for Handle<T> {
     fn set<C: Into<ParameterChange>>(&self, change: C) -> Result<(), GraphError> {
         let c = change.into();
         let param_index = match c.param {
-            knaster_core::Param::Index(param_i) => param_i,
+            knaster_core::Param::Index(param_i) => {
+                if param_i >= T::Parameters::USIZE {
+                    return Err(ParameterError::ParameterIndexOutOfBounds.into());
+                }
+                param_i
+            }
             knaster_core::Param::Desc(desc) => {
                 match T::param_descriptions().iter().position(|d| *d == desc) {
                     Some(param_i) => param_i,
@@ -279,7 +284,12 @@ impl HandleTrait for AnyHandle {
     fn set<C: Into<ParameterChange>>(&self, change: C) -> Result<(), GraphError> {
         let c = change.into();
         let param_index = match c.param {
-            knaster_core::Param::Index(param_i) => param_i,
+            knaster_core::Param::Index(param_i) => {
+                if param_i >= self.parameters.len() {
+                    return Err(ParameterError::ParameterIndexOutOfBounds.into());
+                }
+                param_i
+            }
             knaster_core::Param::Desc(desc) => {
                 if let Some(param_i) = self.parameters.iter().position(|d| *d == desc) {
                     param_i
-- 
2.43.0


From ca0267be347f22f2d9192efc49cfc9db49d34674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:10 +0000
Subject: [PATCH 27/47] fix: SampleDelay panicked or didn't delay at all when
 set to its maximum delay time or more

---
 knaster_core_dsp/src/ugens/delay.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/knaster_core_dsp/src/ugens/delay.rs b/knaster_core_dsp/src/ugens/delay.rs
index f6a4c7a..731ddb4 100644
--- a/knaster_core_dsp/src/ugens/delay.rs
+++ b/knaster_core_dsp/src/ugens/delay.rs
@@ -36,14 +36,17 @@ impl<F: Float> SampleDelay<F> {
     }
     fn process(&mut self, _ctx: &mut AudioCtx, _flags: &mut UGenFlags, input: [F; 1]) -> [F; 1] {
         self.buffer[self.write_position] = input[0];
+        // Delay times longer than the maximum delay time are set to the maximum.
+        let delay_samples = self.delay_samples.min(self.buffer.len() - 1);
         let out = self.buffer
-            [(self.write_position + self.buffer.len() - self.delay_samples) % self.buffer.len()];
+            [(self.write_position + self.buffer.len() - delay_samples) % self.buffer.len()];
         self.write_position = (self.write_position + 1) % self.buffer.len();
         [out]
     }
     fn init(&mut self, sample_rate: u32, _block_size: usize) {
+        // The current sample is written before reading, which takes up one sample.
         self.buffer =
-            vec![F::ZERO; (self.max_delay_length.to_secs_f64() * sample_rate as f64) as usize];
+            vec![F::ZERO; (self.max_delay_length.to_secs_f64() * sample_rate as f64) as usize + 1];
         self.write_position = 0;
     }
 }
-- 
2.43.0


From 1f34bc504397f50fe411d8e596edb43586926541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:10 +0000
Subject: [PATCH 28/47] fix: a new or cleared allpass interpolator produced a
 click

---
 knaster_core_dsp/src/ugens/delay.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/knaster_core_dsp/src/ugens/delay.rs b/knaster_core_dsp/src/ugens/delay.rs
index 731ddb4..940df26 100644
--- a/knaster_core_dsp/src/ugens/delay.rs
+++ b/knaster_core_dsp/src/ugens/delay.rs
@@ -64,14 +64,14 @@ impl<F: Float> AllpassInterpolator<F> {
     pub fn new() -> Self {
         Self {
             coeff: F::ONE,
-            prev_input: F::ONE,
-            prev_output: F::ONE,
+            prev_input: F::ZERO,
+            prev_output: F::ZERO,
         }
     }
     /// Reset any state to 0
     pub fn clear(&mut self) {
-        self.prev_input = F::ONE;
-        self.prev_output = F::ONE;
+        self.prev_input = F::ZERO;
+        self.prev_output = F::ZERO;
     }
     /// Set the fractional number of frames in the delay time that we want to interpolate over
     pub fn set_delta(&mut self, delta: F) {
-- 
2.43.0


From b2886c2d6d6291ac63e58fb8f8ff9b2ea0021de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:26 +0000
Subject: [PATCH 29/47] fix: an allpass delay shorter than 1.5 frames became as
 long as its buffer, and one longer than the maximum panicked

---
 knaster_core_dsp/src/ugens/delay.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/knaster_core_dsp/src/ugens/delay.rs b/knaster_core_dsp/src/ugens/delay.rs
index 940df26..f620de1 100644
--- a/knaster_core_dsp/src/ugens/delay.rs
+++ b/knaster_core_dsp/src/ugens/delay.rs
@@ -122,7 +122,7 @@ impl<F: Float> AllpassDelay<F> {
     /// Allocates internal buffer.
     pub fn init(&mut self, sample_rate: u32, _block_size: usize) {
         let max_delay_samples = self.max_delay_seconds.to_samples(sample_rate as u64);
-        self.buffer = vec![F::ZERO; max_delay_samples as usize];
+        self.buffer = vec![F::ZERO; (max_delay_samples as usize).max(1)];
     }
     /// Produce one frame from the delay and put `input` into the delay.
     pub fn process(
@@ -139,9 +139,7 @@ impl<F: Float> AllpassDelay<F> {
     #[param]
     pub fn delay_time(&mut self, ctx: &mut AudioCtx, seconds: PFloat) {
         let delay_frames = seconds * ctx.sample_rate() as PFloat;
-        if (delay_frames as usize) < self.buffer.len() {
-            self.set_delay_in_frames(F::new(delay_frames));
-        }
+        self.set_delay_in_frames(F::new(delay_frames));
     }
     /// Read the current frame from the delay and allpass interpolate. Read before `write_and_advance` for the correct sample.
     #[inline]
@@ -158,13 +156,19 @@ impl<F: Float> AllpassDelay<F> {
             v
         }
     }
-    /// Set delay time in frames (f32 or f64)
+    /// Set delay time in frames (f32 or f64). The shortest possible delay is 1 frame and the
+    /// longest is the maximum delay time.
     #[inline]
     pub fn set_delay_in_frames(&mut self, num_frames: F) {
+        let num_frames = num_frames
+            .min(F::from_usize(self.buffer.len()))
+            .max(F::ONE);
         let num_frames_float = num_frames.floor();
         self.num_frames = num_frames_float.to_usize().unwrap();
         let mut delta = num_frames - num_frames_float;
-        if num_frames > F::new(0.5) && delta < F::new(0.5) {
+        // Keep delta within [0.5, 1.5). Since reading happens before writing, reading less than one
+        // frame back would give the oldest frame in the buffer.
+        if self.num_frames > 1 && delta < F::new(0.5) {
             delta += F::ONE;
             self.num_frames -= 1;
         }
-- 
2.43.0


From f3613b8716c70c120c313d402ef9491217b65125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:43 +0000
Subject: [PATCH 30/47] fix: StaticSampleDelay processed blocks with the length
 of its buffer and not its delay length, and panicked on a length of 0 or more
 than the maximum

---
 knaster_core_dsp/src/ugens/delay.rs | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/knaster_core_dsp/src/ugens/delay.rs b/knaster_core_dsp/src/ugens/delay.rs
index f620de1..d7127a3 100644
--- a/knaster_core_dsp/src/ugens/delay.rs
+++ b/knaster_core_dsp/src/ugens/delay.rs
@@ -334,30 +334,34 @@ impl<F: Float> StaticSampleDelay<F> {
     }
 
     /// Set a new delay length for the delay. Real time safe. If the given length is longer than the max delay length it will be set to the max delay length.
+    /// The shortest delay length is 1.
     #[inline]
     pub fn set_delay_length(&mut self, delay_length_in_samples: usize) {
-        self.delay_length = delay_length_in_samples.min(self.buffer.len());
+        self.delay_length = delay_length_in_samples.min(self.buffer.len()).max(1);
+        self.position %= self.delay_length;
     }
     /// Set a new delay length for the delay as a fraction of the entire delay length. Real time safe.
     pub fn set_delay_length_fraction(&mut self, fraction: F) {
-        self.delay_length = (F::from(self.buffer.len()).expect("delay length should fit in Float")
+        let delay_length = (F::from(self.buffer.len()).expect("delay length should fit in Float")
             * fraction)
             .to_usize()
             .unwrap();
+        self.set_delay_length(delay_length);
     }
 
     /// Read a whole block at a time. Only use this if the delay time is longer than 1 block.
     #[inline]
     pub fn read_block(&mut self, output: &mut [F]) {
         let block_size = output.len();
-        assert!(self.buffer.len() >= block_size);
+        assert!(self.delay_length >= block_size);
         let read_end = self.position + block_size;
-        if read_end <= self.buffer.len() {
+        if read_end <= self.delay_length {
             output.copy_from_slice(&self.buffer[self.position..read_end]);
         } else {
             // block wraps around
-            let read_end = read_end % self.delay_length;
-            output[0..(block_size - read_end)].copy_from_slice(&self.buffer[self.position..]);
+            let read_end = read_end - self.delay_length;
+            output[0..(block_size - read_end)]
+                .copy_from_slice(&self.buffer[self.position..self.delay_length]);
             output[(block_size - read_end)..].copy_from_slice(&self.buffer[0..read_end]);
         }
     }
@@ -365,17 +369,18 @@ impl<F: Float> StaticSampleDelay<F> {
     #[inline]
     pub fn write_block_and_advance(&mut self, input: &[F]) {
         let block_size = input.len();
-        assert!(self.buffer.len() >= block_size);
+        assert!(self.delay_length >= block_size);
         let write_end = self.position + block_size;
-        if write_end <= self.buffer.len() {
+        if write_end <= self.delay_length {
             self.buffer[self.position..write_end].copy_from_slice(input);
         } else {
             // block wraps around
-            let write_end = write_end % self.delay_length;
-            self.buffer[self.position..].copy_from_slice(&input[0..block_size - write_end]);
+            let write_end = write_end - self.delay_length;
+            self.buffer[self.position..self.delay_length]
+                .copy_from_slice(&input[0..block_size - write_end]);
             self.buffer[0..write_end].copy_from_slice(&input[block_size - write_end..]);
         }
-        self.position = (self.position + block_size) % self.buffer.len();
+        self.position = (self.position + block_size) % self.delay_length;
     }
     /// Read a sample from the buffer. Does not advance the frame pointer. Read first, then write.
     #[inline]
@@ -410,7 +415,7 @@ impl<F: Float> StaticSampleDelay<F> {
     /// Process one block of the delay. Will choose block based processing at runtime if the delay time is larger than the block size.
     #[inline]
     pub fn process(&mut self, input: &[F], output: &mut [F], block_size: usize) {
-        if self.buffer.len() > block_size {
+        if self.delay_length > block_size {
             self.read_block(output);
             self.write_block_and_advance(input);
         } else {
-- 
2.43.0


From af3594955a9b7f02e9f4a669c5a4a17f469cad9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:18 +0000
Subject: [PATCH 31/47] fix: restarting an ASR or AR envelope jumped away from
 the current value

---
 knaster_core_dsp/src/ugens/envelopes.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/knaster_core_dsp/src/ugens/envelopes.rs b/knaster_core_dsp/src/ugens/envelopes.rs
index 170501e..836113a 100644
--- a/knaster_core_dsp/src/ugens/envelopes.rs
+++ b/knaster_core_dsp/src/ugens/envelopes.rs
@@ -42,9 +42,11 @@ impl<F: Float> EnvAsr<F> {
         }
     }
     /// Start the envelope from the current value
-    // TODO: Take the current value of self.t from Self::next_sample because the release value is
-    // not linear.
     fn trig_start(&mut self) {
+        if let AsrState::Releasing = self.state {
+            // The release curve isn't linear, but the attack is
+            self.t = self.t.powi(3) * self.release_scale;
+        }
         self.state = AsrState::Attacking;
     }
     /// Progress the envelope and return the next sample value
@@ -62,6 +64,7 @@ impl<F: Float> EnvAsr<F> {
 
                 if self.t >= F::ONE {
                     self.state = AsrState::Sustaining;
+                    self.t = F::ONE;
                 }
             }
             AsrState::Sustaining => {
@@ -196,8 +199,11 @@ impl<F: Float> EnvAr<F> {
         }
     }
     /// (Re)start the envelope from the current value
-    // TODO: Take the relase curve into account, e.g. by taking the current value of `next_sample`
     fn trig_start(&mut self) {
+        if let ArState::Releasing = self.state {
+            // The release curve isn't linear, but the attack is
+            self.t = self.t.powi(3) * self.release_scale;
+        }
         self.state = ArState::Attacking;
     }
     /// Progress the envelope one frame and return the value
-- 
2.43.0


From 1d38e531ff2b1358e55cdfd1b38da33a307ddbb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:18 +0000
Subject: [PATCH 32/47] fix: an envelope segment with no duration set the
 envelope to NaN, and stopping at the end of a segment overshot its value

---
 knaster_core_dsp/src/ugens/envelopes.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/knaster_core_dsp/src/ugens/envelopes.rs b/knaster_core_dsp/src/ugens/envelopes.rs
index 836113a..66feb10 100644
--- a/knaster_core_dsp/src/ugens/envelopes.rs
+++ b/knaster_core_dsp/src/ugens/envelopes.rs
@@ -440,11 +440,7 @@ mod alloc_envelopes {
                     } else if current_segment + 1 < self.segments.len() {
                         self.from_value = self.segments[current_segment].value;
                         let segment = &self.segments[current_segment];
-                        out = F::new(
-                            self.from_value
-                                + (t * segment.reciprocal_duration)
-                                    * (segment.value - self.from_value),
-                        );
+                        out = F::new(self.from_value);
                         self.state = EnvelopeState::Running {
                             current_segment: current_segment + 1,
                             current_time: current_time - segment.duration
@@ -523,7 +519,8 @@ mod alloc_envelopes {
                         let t = current_time;
                         let segment = &self.segments[current_segment];
                         self.from_value = self.from_value
-                            + (t * segment.reciprocal_duration) * (segment.value - self.from_value);
+                            + (t * segment.reciprocal_duration).min(1.0)
+                                * (segment.value - self.from_value);
                     }
                     self.state = EnvelopeState::Stopped;
                 }
-- 
2.43.0


From facc9ac7cdbfdd16754caab46d934127dcefef41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:18 +0000
Subject: [PATCH 33/47] fix: the phase offset of wavetable oscillators was a
 single sample of the table instead of one period

---
 knaster_core_dsp/src/ugens/osc.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/knaster_core_dsp/src/ugens/osc.rs b/knaster_core_dsp/src/ugens/osc.rs
index 9a376d6..204af9e 100644
--- a/knaster_core_dsp/src/ugens/osc.rs
+++ b/knaster_core_dsp/src/ugens/osc.rs
@@ -48,7 +48,9 @@ mod wavetable_vec {
         /// Set the phase offset in a range 0-1
         #[param]
         pub fn phase_offset(&mut self, offset: PFloat) {
-            self.phase_offset = WavetablePhase((offset.to_f64() * FRACTIONAL_PART as f64) as u32);
+            self.phase_offset = WavetablePhase(
+                (offset.to_f64() * TABLE_SIZE as f64 * FRACTIONAL_PART as f64) as u32,
+            );
         }
         /// Reset the phase of the oscillator.
         #[param]
@@ -131,7 +133,9 @@ mod wavetable_vec {
         /// Set the phase offset in a range 0-1
         #[param]
         pub fn phase_offset(&mut self, offset: PFloat) {
-            self.phase_offset = WavetablePhase((offset.to_f64() * FRACTIONAL_PART as f64) as u32);
+            self.phase_offset = WavetablePhase(
+                (offset.to_f64() * TABLE_SIZE as f64 * FRACTIONAL_PART as f64) as u32,
+            );
         }
         /// Reset the phase of the oscillator.
         #[param]
-- 
2.43.0


From a3e98de3e4c430a4fa850fe1c5f0a635e3347256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:18 +0000
Subject: [PATCH 34/47] fix: Phasor left its range with a negative frequency,
 and never returned with a very high frequency

---
 knaster_core_dsp/src/ugens/osc.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/knaster_core_dsp/src/ugens/osc.rs b/knaster_core_dsp/src/ugens/osc.rs
index 204af9e..5f4d333 100644
--- a/knaster_core_dsp/src/ugens/osc.rs
+++ b/knaster_core_dsp/src/ugens/osc.rs
@@ -209,8 +209,9 @@ impl<F: Float> Phasor<F> {
     pub fn process(&mut self) -> [F; 1] {
         let out = F::new(self.phase);
         self.phase += self.step;
-        while self.phase >= 1.0 {
-            self.phase -= 1.0;
+        self.phase %= 1.0;
+        if self.phase < 0.0 {
+            self.phase += 1.0;
         }
         [out]
     }
-- 
2.43.0


From 57320d852c1387c1af9e2d9b8779fde427c3f4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:18 +0000
Subject: [PATCH 35/47] fix: LogProbe logged every N + 1 samples instead of
 every N samples

---
 knaster_core_dsp/src/ugens/util.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/knaster_core_dsp/src/ugens/util.rs b/knaster_core_dsp/src/ugens/util.rs
index 8b08cec..8615f3e 100644
--- a/knaster_core_dsp/src/ugens/util.rs
+++ b/knaster_core_dsp/src/ugens/util.rs
@@ -93,9 +93,8 @@ impl<F: Float> LogProbe<F> {
         if self.sample_counter == 0 {
             rt_log!(_ctx.logger(); "Probe", self.name, input[0].to_f64());
             self.sample_counter = self.samples_between_logs;
-        } else {
-            self.sample_counter -= 1;
         }
+        self.sample_counter -= 1;
         []
     }
 }
-- 
2.43.0


From e9a966dee036329247ac565119cc94f229de9ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:18 +0000
Subject: [PATCH 36/47] fix: a wavetable set from a too short buffer was read
 out of bounds

---
 knaster_core_dsp/src/dsp/wavetable.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/knaster_core_dsp/src/dsp/wavetable.rs b/knaster_core_dsp/src/dsp/wavetable.rs
index e5a332e..36ea29b 100644
--- a/knaster_core_dsp/src/dsp/wavetable.rs
+++ b/knaster_core_dsp/src/dsp/wavetable.rs
@@ -118,9 +118,11 @@ mod wavetable_vec {
         }
         /// Create a [`PartialTable`] from an existing buffer.
         ///
-        /// # Errors
-        /// The buffer has to be of [`TABLE_SIZE`] length, otherwise an error will be returned.
+        /// # Panics
+        /// The buffer has to be of [`TABLE_SIZE`] length.
         pub fn set_from_buffer(&mut self, buffer: Vec<F>) {
+            // Lookups aren't bounds checked
+            assert_eq!(buffer.len(), TABLE_SIZE);
             // TODO: FFT of the buffer for anti-aliasing
             self.buffer = buffer;
             self.update_diff_buffer();
-- 
2.43.0


From 4bee1a529f1c35f3cff824c30b4722fa1ff9139e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:18 +0000
Subject: [PATCH 37/47] fix: a new Buffer with several channels was shorter
 than its number of frames

---
 knaster_core_dsp/src/dsp/buffer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/knaster_core_dsp/src/dsp/buffer.rs b/knaster_core_dsp/src/dsp/buffer.rs
index a62615e..c19cc62 100644
--- a/knaster_core_dsp/src/dsp/buffer.rs
+++ b/knaster_core_dsp/src/dsp/buffer.rs
@@ -48,7 +48,7 @@ impl<F: Float> Buffer<F> {
     /// Create an empty buffer with the specified options
     pub fn new(size: usize, num_channels: usize, sample_rate: f64) -> Self {
         Buffer {
-            buffer: vec![F::ZERO; size],
+            buffer: vec![F::ZERO; size * num_channels],
             num_channels,
             num_frames: size as f64,
             sample_rate,
-- 
2.43.0


From bb4e45caf8c0f530aa294bc7cb6828716f99a3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:57 +0000
Subject: [PATCH 38/47] fix: Galactic panicked on a sample with a magnitude of
 2 or more

---
 knaster_airwindows/src/galactic.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/knaster_airwindows/src/galactic.rs b/knaster_airwindows/src/galactic.rs
index fba545c..60e335e 100644
--- a/knaster_airwindows/src/galactic.rs
+++ b/knaster_airwindows/src/galactic.rs
@@ -366,7 +366,7 @@ impl<F: Float> Galactic<F> {
             input_sample_l += F::new(
                 ((fpd_l as f64) - (0x7fffffff_u32) as f64)
                     * 5.5e-36
-                    * (2_u64.pow(exp_l + 62) as f64),
+                    * 2_f64.powi(exp_l.saturating_add(62)),
             );
             self.fpd_l = fpd_l;
 
@@ -378,7 +378,7 @@ impl<F: Float> Galactic<F> {
             input_sample_r += F::new(
                 ((fpd_r as f64) - (0x7fffffff_u32) as f64)
                     * 5.5e-36
-                    * (2_u64.pow(exp_r + 62) as f64),
+                    * 2_f64.powi(exp_r.saturating_add(62)),
             );
             self.fpd_r = fpd_r;
 
@@ -388,13 +388,13 @@ impl<F: Float> Galactic<F> {
     }
 }
 
-fn frexp(s: f32) -> (f32, u32) {
+fn frexp(s: f32) -> (f32, i32) {
     if 0.0 == s {
         (s, 0)
     } else {
         let lg = s.abs().log2();
         let x = (lg - lg.floor() - 1.0).exp2();
         let exp = lg.floor() + 1.0;
-        (s.signum() * x, exp as u32)
+        (s.signum() * x, exp as i32)
     }
 }
-- 
2.43.0


From 66a4847a24e823d7900c32bf0b58db3cc785cbbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:57 +0000
Subject: [PATCH 39/47] fix: reading outside of a Buffer was an unchecked out
 of bounds memory access

---
 knaster_core_dsp/src/dsp/buffer.rs | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/knaster_core_dsp/src/dsp/buffer.rs b/knaster_core_dsp/src/dsp/buffer.rs
index c19cc62..6400fc9 100644
--- a/knaster_core_dsp/src/dsp/buffer.rs
+++ b/knaster_core_dsp/src/dsp/buffer.rs
@@ -85,28 +85,25 @@ impl<F: Float> Buffer<F> {
     #[inline]
     pub fn get_linear_interp(&self, index: F, channel: usize) -> F {
         let mix = index.fract();
-        let index_u = index.to_usize().unwrap() * self.num_channels + channel;
-        unsafe {
-            *self.buffer.get_unchecked(index_u) * (F::ONE - mix)
-                + *self
-                    .buffer
-                    .get_unchecked((index_u + self.num_channels) % self.buffer.len())
-                    * mix
-        }
+        self.interp_between(index.to_usize().unwrap_or(0), mix, channel)
     }
     /// Linearly interpolate between the value in between to samples using an f64 as an index. f64
     /// indexing is necessary for long buffers.
     #[inline]
     pub fn get_linear_interp_f64(&self, index: f64, channel: usize) -> F {
         let mix = F::new(index.fract());
-        let index_u = index as usize * self.num_channels + channel;
-        unsafe {
-            *self.buffer.get_unchecked(index_u) * (F::ONE - mix)
-                + *self
-                    .buffer
-                    .get_unchecked((index_u + self.num_channels) % self.buffer.len())
-                    * mix
+        self.interp_between(index as usize, mix, channel)
+    }
+    /// Mix the sample at `frame` with the sample of the next frame. Anything outside of the buffer
+    /// is silent.
+    #[inline]
+    fn interp_between(&self, frame: usize, mix: F, channel: usize) -> F {
+        if channel >= self.num_channels || frame >= self.num_frames as usize {
+            return F::ZERO;
         }
+        let index_u = frame * self.num_channels + channel;
+        self.buffer[index_u] * (F::ONE - mix)
+            + self.buffer[(index_u + self.num_channels) % self.buffer.len()] * mix
     }
     /// Get the samples for all channels at the index.
     #[inline]
-- 
2.43.0


From 5b95a689ef0ff18615e5e91e2244c65a1cfc4098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:57 +0000
Subject: [PATCH 40/47] fix: BufferReader wrote a full block when asked to
 process a partial block

---
 knaster_core_dsp/src/ugens/buffer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/knaster_core_dsp/src/ugens/buffer.rs b/knaster_core_dsp/src/ugens/buffer.rs
index 8210ade..f70c74c 100644
--- a/knaster_core_dsp/src/ugens/buffer.rs
+++ b/knaster_core_dsp/src/ugens/buffer.rs
@@ -158,7 +158,7 @@ impl<F: Float, Channels: Size> BufferReader<F, Channels> {
     {
         let mut stop_sample = None;
         if !self.finished {
-            for i in 0..ctx.block_size() {
+            for i in 0..ctx.frames_to_process() {
                 for chan in 0..Channels::USIZE {
                     let sample = self.buffer.get_linear_interp_f64(self.read_pointer, chan);
                     output.write(sample, chan, i);
-- 
2.43.0


From ba7c6e5181cf770345e022e2be354cc6d5bd2243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:57 +0000
Subject: [PATCH 41/47] fix: a negative BufferReader duration is the length of
 the buffer as documented

---
 knaster_core_dsp/src/ugens/buffer.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/knaster_core_dsp/src/ugens/buffer.rs b/knaster_core_dsp/src/ugens/buffer.rs
index f70c74c..aaefc7e 100644
--- a/knaster_core_dsp/src/ugens/buffer.rs
+++ b/knaster_core_dsp/src/ugens/buffer.rs
@@ -91,8 +91,11 @@ impl<F: Float, Channels: Size> BufferReader<F, Channels> {
     #[param]
     #[allow(missing_docs)]
     pub fn duration_s(&mut self, duration_s: PFloat) {
-        let dur_time = Seconds::from_secs_f64(duration_s);
-        self.dur_frame = dur_time.to_samples_f64(self.buffer.sample_rate());
+        self.dur_frame = if duration_s < 0.0 {
+            self.buffer.num_frames()
+        } else {
+            Seconds::from_secs_f64(duration_s).to_samples_f64(self.buffer.sample_rate())
+        };
         self.end_frame = self.start_frame + self.dur_frame;
     }
     #[param]
-- 
2.43.0


From bc4b4179161a47fb9d32149d6f5777656f6a8fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:57 +0000
Subject: [PATCH 42/47] fix: a log channel full of one unfinished message chain
 was blocked forever

---
 knaster_core/src/log.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/knaster_core/src/log.rs b/knaster_core/src/log.rs
index 0de445c..4b3c415 100644
--- a/knaster_core/src/log.rs
+++ b/knaster_core/src/log.rs
@@ -161,6 +161,7 @@ impl<N: Size> ArLogReceiver<N> {
     pub fn recv(&mut self, mut log_handler: impl FnMut(&[ArLogMessage])) {
         for rec in &mut self.receivers {
             let slots = rec.slots();
+            let rec_capacity = rec.buffer().capacity();
             if let Ok(read_chunk) = rec.read_chunk(slots) {
                 let (s0, s1) = read_chunk.as_slices();
                 let mut last_end = 0;
@@ -189,6 +190,13 @@ impl<N: Size> ArLogReceiver<N> {
                     // }
                     last_end += pos + 1;
                 }
+                if last_end == 0 && slots == rec_capacity {
+                    // The channel is full of a single unfinished chain, which can never be
+                    // finished unless there is space for the rest of it.
+                    log_handler(s0);
+                    log_handler(s1);
+                    last_end = slots;
+                }
                 read_chunk.commit(last_end);
             }
         }
-- 
2.43.0


From b80caa3b44a3054108e5086ab5d849c06b158835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:34 +0000
Subject: [PATCH 43/47] fix: integer constants in graph arithmetic were rounded
 to f32

---
 knaster_graph/src/graph_edit.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/knaster_graph/src/graph_edit.rs b/knaster_graph/src/graph_edit.rs
index 05b145d..f949f3d 100644
--- a/knaster_graph/src/graph_edit.rs
+++ b/knaster_graph/src/graph_edit.rs
@@ -988,7 +988,7 @@ impl ConstantNumber {
             ConstantNumber::F32(f) => F::new(f),
             ConstantNumber::F64(f) => F::new(f),
             ConstantNumber::Usize(u) => F::from_usize(u),
-            ConstantNumber::I32(i) => F::new(i as f32),
+            ConstantNumber::I32(i) => F::new(i as f64),
         }
     }
 }
-- 
2.43.0


From aa303158a6e04cc57aed4bb5d2eb874acc5d9430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:43 +0000
Subject: [PATCH 44/47] fix: a constant minus or divided by a handle was the
 handle minus or divided by the constant

---
 knaster_graph/src/graph_edit.rs | 190 ++++++++++++++++++++++++++------
 1 file changed, 154 insertions(+), 36 deletions(-)

diff --git a/knaster_graph/src/graph_edit.rs b/knaster_graph/src/graph_edit.rs
index f949f3d..4f54cea 100644
--- a/knaster_graph/src/graph_edit.rs
+++ b/knaster_graph/src/graph_edit.rs
@@ -1034,7 +1034,7 @@ impl From<ConstantNumber> for f64 {
 }
 
 macro_rules! math_gen_fn_static_constant {
-    ($fn_name:ident, $op:ty) => {
+    ($fn_name:ident, $op:ty, $source_input:expr, $constant_input:expr) => {
         fn $fn_name<F: Float, S0: Static, S1: Into<ConstantNumber>>(
             s0: S0,
             s1: S1,
@@ -1047,10 +1047,17 @@ macro_rules! math_gen_fn_static_constant {
             let c = g.push_internal(Constant::new(c));
             for s0 in Static::iter_outputs(&s0) {
                 let mul = g.push_internal(MathUGen::<_, U1, $op>::new());
-                if let Err(e) = g.connect2(s0.0, s0.1, 0, NodeOrGraph::Node(mul.node_id())) {
+                if let Err(e) =
+                    g.connect2(s0.0, s0.1, $source_input, NodeOrGraph::Node(mul.node_id()))
+                {
                     log::error!("Failed to connect node to arithmetics node: {e}");
                 }
-                if let Err(e) = g.connect2(c.node_id(), 0, 1, NodeOrGraph::Node(mul.node_id())) {
+                if let Err(e) = g.connect2(
+                    c.node_id(),
+                    0,
+                    $constant_input,
+                    NodeOrGraph::Node(mul.node_id()),
+                ) {
                     log::error!("Failed to connect node to arithmetics node: {e}");
                 }
                 out_channels.push(NodeOrGraph::Node(mul.node_id()), 0);
@@ -1064,10 +1071,42 @@ macro_rules! math_gen_fn_static_constant {
         }
     };
 }
-math_gen_fn_static_constant!(add_sources_static_constant, knaster_core_dsp::math::Add);
-math_gen_fn_static_constant!(sub_sources_static_constant, knaster_core_dsp::math::Sub);
-math_gen_fn_static_constant!(mul_sources_static_constant, knaster_core_dsp::math::Mul);
-math_gen_fn_static_constant!(div_sources_static_constant, knaster_core_dsp::math::Div);
+math_gen_fn_static_constant!(
+    add_sources_static_constant,
+    knaster_core_dsp::math::Add,
+    0,
+    1
+);
+math_gen_fn_static_constant!(
+    sub_sources_static_constant,
+    knaster_core_dsp::math::Sub,
+    0,
+    1
+);
+math_gen_fn_static_constant!(
+    sub_static_constant_sources,
+    knaster_core_dsp::math::Sub,
+    1,
+    0
+);
+math_gen_fn_static_constant!(
+    mul_sources_static_constant,
+    knaster_core_dsp::math::Mul,
+    0,
+    1
+);
+math_gen_fn_static_constant!(
+    div_sources_static_constant,
+    knaster_core_dsp::math::Div,
+    0,
+    1
+);
+math_gen_fn_static_constant!(
+    div_static_constant_sources,
+    knaster_core_dsp::math::Div,
+    1,
+    0
+);
 // math_gen_fn_static_constant!(pow_sources_static_constant, knaster_core::math::Pow);
 
 // Macros for implementing arithmetics on sources without statically known channel configurations
@@ -1108,7 +1147,7 @@ math_gen_fn_dynamic!(pow_sources_dynamic, knaster_core_dsp::math::Pow);
 
 // Macros for implementing arithmetics on sources without statically known channel configurations
 macro_rules! math_gen_fn_dynamic_constant {
-    ($fn_name:ident, $op:ty) => {
+    ($fn_name:ident, $op:ty, $source_input:expr, $constant_input:expr) => {
         fn $fn_name<F: Float, S0: Dynamic, S1: Into<ConstantNumber>>(
             s0: S0,
             s1: S1,
@@ -1120,10 +1159,17 @@ macro_rules! math_gen_fn_dynamic_constant {
             let c = g.push_internal(Constant::new(c));
             for s0 in Dynamic::iter_outputs(&s0) {
                 let mul = g.push_internal(MathUGen::<_, U1, $op>::new());
-                if let Err(e) = g.connect2(s0.0, s0.1, 0, NodeOrGraph::Node(mul.node_id())) {
+                if let Err(e) =
+                    g.connect2(s0.0, s0.1, $source_input, NodeOrGraph::Node(mul.node_id()))
+                {
                     log::error!("Failed to connect node to arithmetics node: {e}");
                 }
-                if let Err(e) = g.connect2(c.node_id(), 0, 1, NodeOrGraph::Node(mul.node_id())) {
+                if let Err(e) = g.connect2(
+                    c.node_id(),
+                    0,
+                    $constant_input,
+                    NodeOrGraph::Node(mul.node_id()),
+                ) {
                     log::error!("Failed to connect node to arithmetics node: {e}");
                 }
                 out_channels.push((NodeOrGraph::Node(mul.node_id()), 0));
@@ -1135,10 +1181,42 @@ macro_rules! math_gen_fn_dynamic_constant {
         }
     };
 }
-math_gen_fn_dynamic_constant!(add_sources_dynamic_constant, knaster_core_dsp::math::Add);
-math_gen_fn_dynamic_constant!(sub_sources_dynamic_constant, knaster_core_dsp::math::Sub);
-math_gen_fn_dynamic_constant!(mul_sources_dynamic_constant, knaster_core_dsp::math::Mul);
-math_gen_fn_dynamic_constant!(div_sources_dynamic_constant, knaster_core_dsp::math::Div);
+math_gen_fn_dynamic_constant!(
+    add_sources_dynamic_constant,
+    knaster_core_dsp::math::Add,
+    0,
+    1
+);
+math_gen_fn_dynamic_constant!(
+    sub_sources_dynamic_constant,
+    knaster_core_dsp::math::Sub,
+    0,
+    1
+);
+math_gen_fn_dynamic_constant!(
+    sub_dynamic_constant_sources,
+    knaster_core_dsp::math::Sub,
+    1,
+    0
+);
+math_gen_fn_dynamic_constant!(
+    mul_sources_dynamic_constant,
+    knaster_core_dsp::math::Mul,
+    0,
+    1
+);
+math_gen_fn_dynamic_constant!(
+    div_sources_dynamic_constant,
+    knaster_core_dsp::math::Div,
+    0,
+    1
+);
+math_gen_fn_dynamic_constant!(
+    div_dynamic_constant_sources,
+    knaster_core_dsp::math::Div,
+    1,
+    0
+);
 // math_gen_fn_dynamic_constant!(pow_sources_dynamic_constant, knaster_core::math::Pow);
 
 // Arithmetics with static types
@@ -1168,7 +1246,7 @@ math_impl_static_static!(div_sources, Div, div);
 // Arithmetics with and static types and constants
 // Create implementations for arithmetics with constants f32 f64 or usize
 macro_rules! math_impl_static_constant_type {
-    ($fn_name:ident, $op:ident, $op_lowercase:ident, $ty:ty) => {
+    ($fn_name:ident, $reverse_fn_name:ident, $op:ident, $op_lowercase:ident, $ty:ty) => {
         impl<'a, 'b, F: Float, S0: Static> $op<$ty> for SH<'a, 'b, F, S0> {
             type Output = SH<'a, 'b, F, ChannelsHandle<S0::Outputs>>;
 
@@ -1186,7 +1264,7 @@ macro_rules! math_impl_static_constant_type {
             fn $op_lowercase(self, rhs: SH<'a, 'b, F, S0>) -> Self::Output {
                 let graph = rhs.graph;
                 SH {
-                    nodes: $fn_name(rhs.nodes, self, graph),
+                    nodes: $reverse_fn_name(rhs.nodes, self, graph),
                     graph: &rhs.graph,
                 }
             }
@@ -1194,17 +1272,37 @@ macro_rules! math_impl_static_constant_type {
     };
 }
 macro_rules! math_impl_static_constant {
-    ($fn_name:ident, $op:ident, $op_lowercase:ident) => {
-        math_impl_static_constant_type!($fn_name, $op, $op_lowercase, f32);
-        math_impl_static_constant_type!($fn_name, $op, $op_lowercase, f64);
-        math_impl_static_constant_type!($fn_name, $op, $op_lowercase, usize);
-        math_impl_static_constant_type!($fn_name, $op, $op_lowercase, i32);
+    ($fn_name:ident, $reverse_fn_name:ident, $op:ident, $op_lowercase:ident) => {
+        math_impl_static_constant_type!($fn_name, $reverse_fn_name, $op, $op_lowercase, f32);
+        math_impl_static_constant_type!($fn_name, $reverse_fn_name, $op, $op_lowercase, f64);
+        math_impl_static_constant_type!($fn_name, $reverse_fn_name, $op, $op_lowercase, usize);
+        math_impl_static_constant_type!($fn_name, $reverse_fn_name, $op, $op_lowercase, i32);
     };
 }
-math_impl_static_constant!(mul_sources_static_constant, Mul, mul);
-math_impl_static_constant!(add_sources_static_constant, Add, add);
-math_impl_static_constant!(sub_sources_static_constant, Sub, sub);
-math_impl_static_constant!(div_sources_static_constant, Div, div);
+math_impl_static_constant!(
+    mul_sources_static_constant,
+    mul_sources_static_constant,
+    Mul,
+    mul
+);
+math_impl_static_constant!(
+    add_sources_static_constant,
+    add_sources_static_constant,
+    Add,
+    add
+);
+math_impl_static_constant!(
+    sub_sources_static_constant,
+    sub_static_constant_sources,
+    Sub,
+    sub
+);
+math_impl_static_constant!(
+    div_sources_static_constant,
+    div_static_constant_sources,
+    Div,
+    div
+);
 
 impl<'a, 'b, F: Float, S0: Static, S1: Static> Shr<SH<'a, 'b, F, S1>> for SH<'a, 'b, F, S0>
 where
@@ -1376,7 +1474,7 @@ impl<'a, 'b, F: Float, D0: Dynamic, D1: Dynamic> BitOr<DH<'a, 'b, F, D1>> for DH
 // Arithmetics with and dynamic types and constants
 // Create implementations for arithmetics with constants f32 f64 or usize
 macro_rules! math_impl_dynamic_constant_type {
-    ($fn_name:ident, $op:ident, $op_lowercase:ident, $ty:ty) => {
+    ($fn_name:ident, $reverse_fn_name:ident, $op:ident, $op_lowercase:ident, $ty:ty) => {
         impl<'a, 'b, F: Float, S: Dynamic> $op<$ty> for DH<'a, 'b, F, S> {
             type Output = DH<'a, 'b, F, DynamicChannelsHandle>;
 
@@ -1394,7 +1492,7 @@ macro_rules! math_impl_dynamic_constant_type {
 
             fn $op_lowercase(self, rhs: DH<'a, 'b, F, S>) -> Self::Output {
                 let graph = rhs.graph;
-                let handle = $fn_name(rhs.nodes, self, graph);
+                let handle = $reverse_fn_name(rhs.nodes, self, graph);
                 DH {
                     nodes: handle,
                     graph,
@@ -1404,17 +1502,37 @@ macro_rules! math_impl_dynamic_constant_type {
     };
 }
 macro_rules! math_impl_dynamic_constant {
-    ($fn_name:ident, $op:ident, $op_lowercase:ident) => {
-        math_impl_dynamic_constant_type!($fn_name, $op, $op_lowercase, f32);
-        math_impl_dynamic_constant_type!($fn_name, $op, $op_lowercase, f64);
-        math_impl_dynamic_constant_type!($fn_name, $op, $op_lowercase, usize);
-        math_impl_dynamic_constant_type!($fn_name, $op, $op_lowercase, i32);
+    ($fn_name:ident, $reverse_fn_name:ident, $op:ident, $op_lowercase:ident) => {
+        math_impl_dynamic_constant_type!($fn_name, $reverse_fn_name, $op, $op_lowercase, f32);
+        math_impl_dynamic_constant_type!($fn_name, $reverse_fn_name, $op, $op_lowercase, f64);
+        math_impl_dynamic_constant_type!($fn_name, $reverse_fn_name, $op, $op_lowercase, usize);
+        math_impl_dynamic_constant_type!($fn_name, $reverse_fn_name, $op, $op_lowercase, i32);
     };
 }
-math_impl_dynamic_constant!(mul_sources_dynamic_constant, Mul, mul);
-math_impl_dynamic_constant!(add_sources_dynamic_constant, Add, add);
-math_impl_dynamic_constant!(sub_sources_dynamic_constant, Sub, sub);
-math_impl_dynamic_constant!(div_sources_dynamic_constant, Div, div);
+math_impl_dynamic_constant!(
+    mul_sources_dynamic_constant,
+    mul_sources_dynamic_constant,
+    Mul,
+    mul
+);
+math_impl_dynamic_constant!(
+    add_sources_dynamic_constant,
+    add_sources_dynamic_constant,
+    Add,
+    add
+);
+math_impl_dynamic_constant!(
+    sub_sources_dynamic_constant,
+    sub_dynamic_constant_sources,
+    Sub,
+    sub
+);
+math_impl_dynamic_constant!(
+    div_sources_dynamic_constant,
+    div_dynamic_constant_sources,
+    Div,
+    div
+);
 
 #[derive(Copy, Clone)]
 /// A stack of two nodes, where the channels are mapped sequentially first to the first node, then to the second node, when creating connections.
-- 
2.43.0


From b1ec6e67dd890f12c9eab62b2f691bf8a20d0d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:25 +0000
Subject: [PATCH 45/47] fix: the bell filter was not centred at its cutoff
 frequency

The square root of the gain belongs to the shelving filters only (Simper,
SvfLinearTrapOptimised2): the bell had its peak at cutoff / sqrt(A), e.g. an
octave and more off at +-24 dB.
---
 knaster_core_dsp/src/ugens/svf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/knaster_core_dsp/src/ugens/svf.rs b/knaster_core_dsp/src/ugens/svf.rs
index e39b7b1..35407c5 100644
--- a/knaster_core_dsp/src/ugens/svf.rs
+++ b/knaster_core_dsp/src/ugens/svf.rs
@@ -207,7 +207,7 @@ impl<F: Float> SvfFilter<F> {
             }
             SvfFilterType::Bell => {
                 let amp = F::new(10.0).powf(gain_db / F::new(40.));
-                let g = ((F::PI * cutoff) / sample_rate).tan() / amp.sqrt();
+                let g = ((F::PI * cutoff) / sample_rate).tan();
                 let k = F::ONE / (q * amp);
                 self.a1 = F::ONE / (F::ONE + g * (g + k));
                 self.a2 = g * self.a1;
-- 
2.43.0


From 1283805dccffb9218175b39c621f6b3c87866bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:59 +0000
Subject: [PATCH 46/47] fix: UGen::param checks that the value is of the type
 of the parameter

A value of another type reached param_apply, which panics (unwrap of None).
Return ParameterError::WrongParameterType, which existed for this.
---
 knaster_core/src/parameters/types.rs |  2 +-
 knaster_core/src/ugen.rs             | 11 +++++++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/knaster_core/src/parameters/types.rs b/knaster_core/src/parameters/types.rs
index 0dd1c70..a79a3d9 100644
--- a/knaster_core/src/parameters/types.rs
+++ b/knaster_core/src/parameters/types.rs
@@ -6,7 +6,7 @@ use crate::{PInteger, PIntegerConvertible, Rate, UGen};
 use super::{PFloat, PTrigger};
 
 /// The type of a [`UGen`] parameter
-#[derive(Copy, Clone)]
+#[derive(Copy, Clone, Debug, PartialEq, Eq)]
 pub enum ParameterType {
     #[allow(missing_docs)]
     Float,
diff --git a/knaster_core/src/ugen.rs b/knaster_core/src/ugen.rs
index 6d0d186..124e9b5 100644
--- a/knaster_core/src/ugen.rs
+++ b/knaster_core/src/ugen.rs
@@ -347,18 +347,25 @@ pub trait UGen {
         param: impl Into<Param>,
         value: impl Into<ParameterValue>,
     ) -> Result<(), ParameterError> {
+        let value = value.into();
         match param.into() {
             Param::Index(i) => {
                 if i >= Self::Parameters::USIZE {
                     return Err(ParameterError::ParameterIndexOutOfBounds);
                 }
-                self.param_apply(ctx, i, value.into());
+                if value.ty() != Self::param_types()[i] {
+                    return Err(ParameterError::WrongParameterType);
+                }
+                self.param_apply(ctx, i, value);
                 Ok(())
             }
             Param::Desc(desc) => {
                 for (i, d) in Self::param_descriptions().into_iter().enumerate() {
                     if d == desc {
-                        self.param_apply(ctx, i, value.into());
+                        if value.ty() != Self::param_types()[i] {
+                            return Err(ParameterError::WrongParameterType);
+                        }
+                        self.param_apply(ctx, i, value);
                         return Ok(());
                     }
                 }
-- 
2.43.0


From c6ba6addbee7b32b6b99c8c48ad1caa9ef08cfc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:59 +0000
Subject: [PATCH 47/47] fix: a smoothing setting without a wrapper is logged
 and ignored

The generated param_apply logged that the wrapper does not exist and then
went on to set the parameter with it, which panics.
---
 knaster_macros/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/knaster_macros/src/lib.rs b/knaster_macros/src/lib.rs
index 6656861..50a9861 100644
--- a/knaster_macros/src/lib.rs
+++ b/knaster_macros/src/lib.rs
@@ -757,6 +757,7 @@ fn parse_ugen_impl(mut input: ItemImpl) -> syn::Result<proc_macro2::TokenStream>
             ) {
                 if let #crate_ident::ParameterValue::Smoothing(_, _) =_value  {
                     #crate_ident::rt_log!(ctx.logger(); "Error setting parameter smoothing for #struct_name, wrapper does not exist. Index: ", _index);
+                    return;
                 }
                 match _index {
                     #(#parameter_calls),*
-- 
2.43.0

