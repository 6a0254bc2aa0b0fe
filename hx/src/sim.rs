//! Executable contract of the graph: a reference interpreter of what is connected, run in lockstep with
//! the real Graph / GraphGen / AudioProcessor on pseudo-random edit and render histories (native only).
//!
//! Contract: every rendered block equals the value defined by the connections of the last commit that
//! precedes the block (sum of the sources of every channel, feedback exactly one block late, silence
//! where nothing is connected), every node in the committed graph runs exactly once per block after the
//! nodes it reads, invalid edits return the documented error and change nothing, and a node is dropped
//! exactly once, never on the audio thread and never while the audio thread may still run it.
use crate::nd;
use knaster_graph::handle::HandleTrait;
use knaster_core_dsp::wrappers_core::*;
use knaster_graph::graph::{FreeError, Graph, GraphError, GraphOptions, NodeId, NodeOrGraph};
use knaster_graph::numeric_array::NumericArray;
use knaster_graph::processor::{AudioProcessor, AudioProcessorOptions};
use knaster_graph::typenum::*;
use knaster_graph::*;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::marker::PhantomData;
use std::rc::Rc;

thread_local! {
    static IN_AUDIO: Cell<bool> = const { Cell::new(false) };
    static CLOCK: Cell<u64> = const { Cell::new(0) };
    static STAMP: Cell<u64> = const { Cell::new(0) };
    static HOOK: Cell<(*mut Sim, u32)> = const { Cell::new((std::ptr::null_mut(), 0)) };
    static TRACE: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
}
fn audio_guard<R>(f: impl FnOnce() -> R) -> R {
    struct G;
    impl Drop for G {
        fn drop(&mut self) {
            IN_AUDIO.set(false);
            HOOK.set((std::ptr::null_mut(), 0));
        }
    }
    IN_AUDIO.set(true);
    let _g = G;
    f()
}
macro_rules! t {
    ($($a:tt)*) => { TRACE.with(|t| t.borrow_mut().push(format!($($a)*))) };
}
fn fail(msg: String) -> ! {
    let tr = TRACE.with(|t| t.borrow().iter().rev().take(60).rev().cloned().collect::<Vec<_>>().join("; "));
    panic!("{msg} || history (last 60 steps): {tr}")
}

#[derive(Default)]
pub struct Log {
    frames: Cell<u64>,
    stamp: Cell<u64>,
    drops: Cell<u32>,
    bad_drop: Cell<bool>,
    bad: RefCell<String>,
    arm: Cell<Option<u32>>,
    fired: Cell<u32>,
}

/// A node whose output is an exact integer function of the frame, its inputs and its parameters.
pub struct Tg<I, O, P> {
    log: Rc<Log>,
    g: usize,
    c: f64,
    marks: bool,
    p: [f64; 2],
    last: u64,
    k: u64,
    _p: PhantomData<(I, O, P)>,
}
fn value(c: f64, frame: u64, o: usize, ins: &[f64], p: &[f64; 2]) -> f64 {
    let s: f64 = ins.iter().enumerate().map(|(i, x)| (i + 2) as f64 * x).sum();
    ((o + 1) as f64 * (c + (frame % 97) as f64) + s + 3.0 * p[0] + 7.0 * p[1]).rem_euclid(1009.0)
}
impl<I, O, P> Drop for Tg<I, O, P> {
    fn drop(&mut self) {
        self.log.drops.set(self.log.drops.get() + 1);
        if IN_AUDIO.get() {
            self.log.bad_drop.set(true);
        }
    }
}
impl<I: Size, O: Size, P: Size> Tg<I, O, P> {
    fn enter(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags) {
        let (sim, n) = HOOK.get();
        if !sim.is_null() {
            if n == 0 {
                HOOK.set((std::ptr::null_mut(), 0));
                IN_AUDIO.set(false);
                // The control thread gets to run while this block is being rendered.
                unsafe { (*sim).interrupt(self.g) };
                IN_AUDIO.set(true);
            } else {
                HOOK.set((sim, n - 1));
            }
        }
        STAMP.set(STAMP.get() + 1);
        self.log.stamp.set(STAMP.get());
        if ctx.frame_clock() != CLOCK.get() {
            *self.log.bad.borrow_mut() = format!("frame clock {} instead of {}", ctx.frame_clock(), CLOCK.get());
        }
        if !IN_AUDIO.get() {
            *self.log.bad.borrow_mut() = "processed outside of the audio thread".into();
        }
        if self.log.drops.get() > 0 {
            *self.log.bad.borrow_mut() = "processed after it was dropped".into();
        }
        if let Some(f) = self.log.arm.take() {
            flags.mark_done(f);
            if self.marks {
                flags.mark_remove_self(ctx);
            }
            self.log.fired.set(self.log.fired.get() + 1);
        }
    }
}
impl<I: Size, O: Size, P: Size> UGen for Tg<I, O, P> {
    type Sample = f64;
    type Inputs = I;
    type Outputs = O;
    type Parameters = P;
    fn process(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, input: Frame<f64, I>) -> Frame<f64, O> {
        if self.last != ctx.frame_clock() || self.k == 0 {
            self.last = ctx.frame_clock();
            self.k = 0;
            self.enter(ctx, flags);
        }
        let frame = ctx.frame_clock() + self.k;
        self.k += 1;
        self.log.frames.set(self.log.frames.get() + 1);
        let mut out = Frame::default();
        for o in 0..O::USIZE {
            out[o] = value(self.c, frame, o, &input, &self.p);
        }
        out
    }
    fn process_block<InBlock, OutBlock>(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, input: &InBlock, output: &mut OutBlock)
    where
        InBlock: BlockRead<Sample = f64> + ?Sized,
        OutBlock: Block<Sample = f64> + ?Sized,
    {
        self.enter(ctx, flags);
        let n = ctx.frames_to_process();
        // Outputs must not alias inputs, and must have room for the whole block.
        for o in 0..O::USIZE {
            for f in 0..n {
                output.write(f64::NAN, o, f);
            }
        }
        for f in 0..n {
            let mut ins = [0.0; 8];
            for i in 0..I::USIZE {
                ins[i] = input.read(i, f);
            }
            for o in 0..O::USIZE {
                output.write(value(self.c, ctx.frame_clock() + f as u64, o, &ins[..I::USIZE], &self.p), o, f);
            }
        }
        self.log.frames.set(self.log.frames.get() + n as u64);
    }
    fn param_descriptions() -> NumericArray<&'static str, P> {
        ["first", "second"].into_iter().take(P::USIZE).collect()
    }
    fn param_hints() -> NumericArray<ParameterHint, P> {
        (0..P::USIZE).map(|_| ParameterHint::infinite_float()).collect()
    }
    fn param_apply(&mut self, _ctx: &mut AudioCtx, index: usize, value: ParameterValue) {
        match value {
            ParameterValue::Float(v) if index < P::USIZE => self.p[index] = v,
            _ => *self.log.bad.borrow_mut() = format!("unexpected parameter change {index} {value:?}"),
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Src {
    Node(usize, u16),
    In(u16),
    Fb(usize),
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Plain,
    Param,
    Done,
    Marks,
    Sub(usize),
}
struct NodeM {
    id: NodeId,
    g: usize,
    ins: usize,
    outs: usize,
    kind: Kind,
    c: f64,
    log: Rc<Log>,
    mortal: bool,
    alive: bool,
    /// the commit without this node
    gone: u32,
    p: [f64; 2],
    act: u8,
    /// number of firings after which the remove flag of this node is set
    flag_at: Option<u32>,
    armed: Option<u32>,
}
#[derive(Clone, Default)]
struct NC {
    ins: Vec<Vec<Src>>,
    /// None: the parameter follows control rate changes; Some: the sum of audio rate sources
    pin: Vec<Option<Vec<Src>>>,
}
#[derive(Clone, Default)]
struct GM {
    nodes: BTreeMap<usize, NC>,
    outs: Vec<Vec<Src>>,
}
impl GM {
    fn lists(&mut self) -> impl Iterator<Item = &mut Vec<Src>> {
        self.nodes.values_mut().flat_map(|n| n.ins.iter_mut().chain(n.pin.iter_mut().flatten())).chain(self.outs.iter_mut())
    }
}
struct Gc {
    graph: Option<Box<Graph<f64>>>,
    num_in: usize,
    num_out: usize,
    pend: GM,
    committed: GM,
    live: GM,
    /// number of the last commit, and of the last one the audio thread has received
    seq: u32,
    live_seq: u32,
    /// node of this graph in its parent
    node: Option<(usize, usize)>,
    freed: bool,
    backlog: u32,
    sets: Vec<(usize, usize, f64)>,
    waiting: Vec<(usize, usize, f64)>,
}
struct Fb {
    src: (usize, u16),
    prev: Vec<f64>,
}

#[derive(Clone, Copy)]
pub struct Opts {
    pub push: u32,
    pub connect: u32,
    pub feedback: u32,
    pub param: u32,
    pub disconnect: u32,
    pub free: u32,
    pub done: u32,
    pub mortality: u32,
    pub set: u32,
    pub commit: u32,
    pub run: u32,
    pub sub: u32,
    pub fault: u32,
    pub interrupts: u32,
    pub steps: u32,
}
pub const BASE: Opts = Opts { push: 8, connect: 14, feedback: 2, param: 3, disconnect: 3, free: 3, done: 1, mortality: 1, set: 3, commit: 5, run: 10, sub: 1, fault: 2, interrupts: 20, steps: 120 };

pub struct Sim {
    o: Opts,
    rng: u64,
    bs: usize,
    graphs: Vec<Gc>,
    nodes: Vec<NodeM>,
    fbs: Vec<Fb>,
    foreign: Box<Graph<f64>>,
    foreign_node: NodeId,
    pub stats: [u32; 8],
}

fn opts(name: &str, ring: usize) -> GraphOptions {
    GraphOptions::default().name(name).ring_buffer_size(ring)
}

impl Sim {
    fn r(&mut self) -> u64 {
        nd::rng(&mut self.rng)
    }
    fn below(&mut self, n: usize) -> usize {
        (self.r() % n as u64) as usize
    }
    fn pct(&mut self, p: u32) -> bool {
        self.r() % 100 < p as u64
    }
    fn pick<T: Copy>(&mut self, v: &[T]) -> Option<T> {
        if v.is_empty() { None } else { Some(v[self.below(v.len())]) }
    }
    fn editable(&self) -> Vec<usize> {
        (0..self.graphs.len())
            .filter(|&g| {
                let c = &self.graphs[g];
                c.graph.is_some() && !c.freed && c.backlog < 25 && c.node.is_none_or(|(p, u)| self.nodes[u].alive && !self.graphs[p].freed && self.graph_reachable(p))
            })
            .collect()
    }
    fn graph_reachable(&self, g: usize) -> bool {
        !self.graphs[g].freed && self.graphs[g].node.is_none_or(|(p, u)| self.nodes[u].alive && self.graph_reachable(p))
    }
    /// all graphs around the node are alive (whether they free themselves or not)
    fn graph_reachable_node(&self, g: usize) -> bool {
        self.graphs[g].node.is_none_or(|(p, u)| self.nodes[u].alive && self.graph_reachable_node(p))
    }
    fn alive(&self, g: usize) -> Vec<usize> {
        self.graphs[g].pend.nodes.keys().copied().collect()
    }
    fn gr(&mut self, g: usize) -> &mut Graph<f64> {
        self.graphs[g].graph.as_mut().unwrap()
    }

    // ---------------------------------------------------------------- edits
    fn add_node(&mut self, g: usize, id: NodeId, ins: usize, outs: usize, kind: Kind, c: f64, log: Rc<Log>, act: u8) -> usize {
        let uid = self.nodes.len();
        t!("{g}: push #{uid} {kind:?} {ins}->{outs}");
        self.nodes.push(NodeM { id, g, ins, outs, kind, c, log, mortal: true, alive: true, gone: 0, p: [0.0; 2], act, flag_at: None, armed: None });
        let np = match kind {
            Kind::Param => 2,
            Kind::Done => 1,
            _ => 0,
        };
        self.graphs[g].pend.nodes.insert(uid, NC { ins: vec![vec![]; ins], pin: vec![None; np] });
        uid
    }
    fn op_push(&mut self, g: usize) {
        let c = self.below(900) as f64;
        let log = Rc::new(Log::default());
        let sel = self.below(14);
        let l = log.clone();
        macro_rules! tg {
            ($i:ty, $o:ty, $p:ty, $marks:expr) => {
                Tg::<$i, $o, $p> { log: l, g, c, marks: $marks, p: [0.0; 2], last: u64::MAX, k: 0, _p: PhantomData }
            };
        }
        macro_rules! plain {
            ($i:ty, $o:ty) => {{
                let n = tg!($i, $o, U0, false);
                let id: NodeId = if self.pct(50) { self.gr(g).push(n).node_id() } else { self.gr(g).edit(|e| e.push(n).id()) };
                (id, <$i>::USIZE, <$o>::USIZE, Kind::Plain, 0)
            }};
        }
        let before = sel;
        let mut committed = false;
        let (id, i, o, kind, act) = match sel {
            0 => plain!(U0, U1),
            1 => plain!(U0, U2),
            2 | 3 => plain!(U1, U1),
            4 => plain!(U2, U1),
            5 => plain!(U2, U2),
            6 => plain!(U1, U3),
            7 => plain!(U1, U0),
            8 => plain!(U0, U0),
            9 => plain!(U3, U2),
            10 | 11 if self.o.param > 0 => {
                let n = tg!(U1, U1, U2, false).ar_params();
                (self.gr(g).push(n).node_id(), 1, 1, Kind::Param, 0)
            }
            12 if self.o.done > 0 => {
                let act = self.below(3) as u8;
                let n = tg!(U1, U1, U0, false);
                committed = true;
                let id = self.gr(g).edit(|e| e.push_with_done_action(n, Done::from(PInteger(act as usize))).id());
                (id, 1, 1, Kind::Done, act)
            }
            13 if self.o.done > 0 => {
                let n = tg!(U1, U2, U0, true);
                (self.gr(g).push(n).node_id(), 1, 2, Kind::Marks, 0)
            }
            _ => plain!(U1, U1),
        };
        let _ = before;
        self.add_node(g, id, i, o, kind, c, log, act);
        // pushing through GraphEdit commits when the edit is dropped, which is before the connections are made
        let _ = committed;
        self.commit(g);
    }
    fn op_sub(&mut self, g: usize) {
        if self.graphs.len() > 4 {
            return;
        }
        let s = self.graphs.len();
        let ring = 60;
        let early = self.pct(50);
        let log = Rc::new(Log::default());
        let c = self.below(900) as f64;
        let l = log.clone();
        let init_node = move || Tg::<U1, U2, U0> { log: l, g: s, c, marks: false, p: [0.0; 2], last: u64::MAX, k: 0, _p: PhantomData };
        let mut inner = None;
        macro_rules! sub {
            ($i:ty, $o:ty) => {
                self.gr(g).edit(|e| {
                    let (h, graph) = e.subgraph::<$i, $o>(opts("sub", ring), |e| {
                        if early {
                            let n = e.push(init_node());
                            let id = n.id();
                            e.from_inputs(0).unwrap().to(n).out([0]).to_graph_out();
                            inner = Some(id);
                        }
                    });
                    (h.id(), graph, <$i>::USIZE, <$o>::USIZE)
                })
            };
        }
        let (id, graph, i, o) = match self.below(3) {
            0 => sub!(U1, U1),
            1 => sub!(U2, U2),
            _ => sub!(U1, U3),
        };
        let uid = self.add_node(g, id, i, o, Kind::Sub(s), 0.0, Rc::new(Log::default()), 0);
        let outs = vec![vec![]; o];
        let gm = GM { nodes: BTreeMap::new(), outs };
        self.graphs.push(Gc { graph: Some(Box::new(graph)), num_in: i, num_out: o, pend: gm.clone(), committed: gm.clone(), live: gm, seq: 0, live_seq: 0, node: Some((g, uid)), freed: false, backlog: 0, sets: vec![], waiting: vec![] });
        if let Some(id) = inner {
            let n = self.add_node(s, id, 1, 2, Kind::Plain, c, log, 0);
            let p = &mut self.graphs[s].pend;
            p.nodes.get_mut(&n).unwrap().ins[0].push(Src::In(0));
            p.outs[0].push(Src::Node(n, 0));
            self.graphs[s].committed = self.graphs[s].pend.clone();
        }
        self.commit(g);
    }
    /// true if `from` is reachable upstream of `to`
    fn path(&self, g: usize, from: usize, to: usize) -> bool {
        let mut seen = BTreeSet::new();
        let mut st = vec![to];
        while let Some(n) = st.pop() {
            if n == from {
                return true;
            }
            if seen.insert(n) {
                if let Some(c) = self.graphs[g].pend.nodes.get(&n) {
                    for s in c.ins.iter().chain(c.pin.iter().flatten()).flatten() {
                        if let Src::Node(u, _) = s {
                            st.push(*u)
                        }
                    }
                }
            }
        }
        false
    }
    fn op_connect(&mut self, g: usize, feedback: bool) {
        let alive = self.alive(g);
        let srcs: Vec<usize> = alive.iter().copied().filter(|u| self.nodes[*u].outs > 0).collect();
        let sinks: Vec<usize> = alive.iter().copied().filter(|u| self.nodes[*u].ins > 0).collect();
        let from_graph = self.graphs[g].num_in > 0 && self.pct(12);
        let to_graph = self.graphs[g].num_out > 0 && self.pct(if feedback { 5 } else { 35 });
        let replace = self.pct(30);
        let (Some(so), Some(si)) = (self.pick(&srcs).or(if from_graph { Some(0) } else { None }), self.pick(&sinks).or(if to_graph { Some(0) } else { None })) else { return };
        let nso = if from_graph { self.graphs[g].num_in } else { self.nodes[so].outs };
        let nsi = if to_graph { self.graphs[g].num_out } else { self.nodes[si].ins };
        let (cso, csi) = (self.below(nso) as u16, self.below(nsi) as u16);
        let source: NodeOrGraph = if from_graph { NodeOrGraph::Graph } else { NodeOrGraph::Node(self.nodes[so].id) };
        let sink: NodeOrGraph = if to_graph { NodeOrGraph::Graph } else { NodeOrGraph::Node(self.nodes[si].id) };
        let fb = feedback && !from_graph && !to_graph;
        t!("{g}: connect{}{} {} ch{cso} -> {} ch{csi}", if feedback { " feedback" } else { "" }, if replace { " replace" } else { "" }, if from_graph { "in".into() } else { format!("#{so}") }, if to_graph { "out".into() } else { format!("#{si}") });
        let cycle = !from_graph && !to_graph && !fb && self.path(g, si, so);
        let gr = self.gr(g);
        let res = match (feedback, replace) {
            (false, false) => gr.connect2(source, cso, csi, sink),
            (false, true) => gr.connect2_replace(source, cso, csi, sink),
            (true, false) => gr.connect2_feedback(source, cso, csi, sink),
            (true, true) => gr.connect2_feedback_replace(source, cso, csi, sink),
        };
        if cycle {
            self.stats[0] += 1;
            if !matches!(res, Err(GraphError::CircularConnection)) {
                fail(format!("a connection that closes a cycle returned {res:?}"));
            }
            return;
        }
        if let Err(e) = res {
            fail(format!("a valid connection was rejected: {e:?}"));
        }
        let src = if from_graph {
            Src::In(cso)
        } else if fb {
            self.fbs.push(Fb { src: (so, cso), prev: vec![0.0; self.bs] });
            Src::Fb(self.fbs.len() - 1)
        } else {
            Src::Node(so, cso)
        };
        let p = &mut self.graphs[g].pend;
        let list = if to_graph { &mut p.outs[csi as usize] } else { &mut p.nodes.get_mut(&si).unwrap().ins[csi as usize] };
        if replace {
            list.clear();
        }
        list.push(src);
    }
    fn op_connect_param(&mut self, g: usize) {
        let alive = self.alive(g);
        let srcs: Vec<usize> = alive.iter().copied().filter(|u| self.nodes[*u].outs > 0).collect();
        let sinks: Vec<usize> = alive.iter().copied().filter(|u| self.nodes[*u].kind == Kind::Param).collect();
        let (Some(so), Some(si)) = (self.pick(&srcs), self.pick(&sinks)) else { return };
        let cso = self.below(self.nodes[so].outs) as u16;
        let pi = self.below(2);
        let par: Param = if self.pct(50) { pi.into() } else { ["first", "second"][pi].into() };
        let replace = self.pct(30);
        let (a, b) = (self.nodes[so].id, self.nodes[si].id);
        t!("{g}: connect{} #{so} ch{cso} -> #{si} param {pi}", if replace { " replace" } else { "" });
        let cycle = self.path(g, si, so);
        let res = if replace { self.gr(g).connect_replace_to_parameter(a, cso, par, b) } else { self.gr(g).connect_to_parameter(a, cso, par, b) };
        if cycle {
            self.stats[0] += 1;
            if !matches!(res, Err(GraphError::CircularConnection)) {
                fail(format!("a parameter connection that closes a cycle returned {res:?}"));
            }
            return;
        }
        if let Err(e) = res {
            fail(format!("a valid parameter connection was rejected: {e:?}"));
        }
        let l = self.graphs[g].pend.nodes.get_mut(&si).unwrap().pin[pi].get_or_insert_default();
        if replace {
            l.clear();
        }
        l.push(Src::Node(so, cso));
    }
    fn remove_source(&mut self, g: usize, s: impl Fn(&Src, &[Fb]) -> bool) {
        let fbs = std::mem::take(&mut self.fbs);
        for l in self.graphs[g].pend.lists() {
            l.retain(|x| !s(x, &fbs));
        }
        self.fbs = fbs;
    }
    fn op_disconnect(&mut self, g: usize) {
        let alive = self.alive(g);
        if self.pct(50) {
            // by source
            if self.graphs[g].num_in > 0 && self.pct(25) {
                let ch = self.below(self.graphs[g].num_in) as u16;
                t!("{g}: disconnect input {ch}");
                if let Err(e) = self.gr(g).disconnect_output_from_source(NodeOrGraph::Graph, ch) {
                    fail(format!("disconnecting a graph input failed: {e:?}"));
                }
                self.remove_source(g, |s, _| *s == Src::In(ch));
            } else {
                let c: Vec<usize> = alive.iter().copied().filter(|u| self.nodes[*u].outs > 0).collect();
                let Some(u) = self.pick(&c) else { return };
                let ch = self.below(self.nodes[u].outs) as u16;
                t!("{g}: disconnect output #{u} ch{ch}");
                let id = self.nodes[u].id;
                if let Err(e) = self.gr(g).disconnect_output_from_source(id, ch) {
                    fail(format!("disconnecting an output failed: {e:?}"));
                }
                self.remove_source(g, |s, fbs| match s {
                    Src::Node(a, c) => *a == u && *c == ch,
                    Src::Fb(f) => fbs[*f].src == (u, ch),
                    _ => false,
                });
            }
        } else if self.graphs[g].num_out > 0 && self.pct(25) {
            let ch = self.below(self.graphs[g].num_out);
            t!("{g}: disconnect graph output {ch}");
            if let Err(e) = self.gr(g).disconnect_input_to_sink(ch as u16, NodeOrGraph::Graph) {
                fail(format!("disconnecting a graph output failed: {e:?}"));
            }
            self.graphs[g].pend.outs[ch].clear();
        } else {
            let c: Vec<usize> = alive.iter().copied().filter(|u| self.nodes[*u].ins > 0).collect();
            let Some(u) = self.pick(&c) else { return };
            let ch = self.below(self.nodes[u].ins);
            t!("{g}: disconnect input of #{u} ch{ch}");
            let id = self.nodes[u].id;
            if let Err(e) = self.gr(g).disconnect_input_to_sink(ch as u16, id) {
                fail(format!("disconnecting an input failed: {e:?}"));
            }
            self.graphs[g].pend.nodes.get_mut(&u).unwrap().ins[ch].clear();
        }
    }
    fn model_free(&mut self, g: usize, u: usize) {
        self.nodes[u].alive = false;
        self.nodes[u].gone = self.graphs[g].seq + 1;
        self.graphs[g].pend.nodes.remove(&u);
        self.remove_source(g, |s, fbs| match s {
            Src::Node(a, _) => *a == u,
            Src::Fb(f) => fbs[*f].src.0 == u,
            _ => false,
        });
    }
    /// What a commit does in the model. `Graph::edit` commits when the GraphEdit is dropped.
    fn commit(&mut self, g: usize) {
        let flagged: Vec<usize> = self.alive(g).into_iter().filter(|u| { let n = &self.nodes[*u]; n.mortal && n.flag_at.is_some_and(|c| n.log.fired.get() >= c) }).collect();
        t!("{g}: commit{}", if flagged.is_empty() { String::new() } else { format!(" freeing done nodes {flagged:?}") });
        self.gr(g).edit(|_| {});
        for u in flagged {
            self.stats[1] += 1;
            self.model_free(g, u);
        }
        self.graphs[g].committed = self.graphs[g].pend.clone();
        self.graphs[g].backlog += 1;
        self.graphs[g].seq += 1;
        // Whatever the audio thread had already moved on from is destroyed by this commit.
        for (u, n) in self.nodes.iter().enumerate() {
            if n.g == g && !n.alive && n.gone <= self.graphs[g].live_seq && !matches!(n.kind, Kind::Sub(_)) && n.log.drops.get() == 0 {
                fail(format!("node #{u} is still not destroyed after a commit made when the audio thread no longer had it"));
            }
            if n.g == g && !n.alive && n.gone <= self.graphs[g].live_seq && self.graphs[g].graph.as_ref().unwrap().node_data(n.id).is_some() {
                fail(format!("node #{u} is still known after a commit made when the audio thread no longer had it"));
            }
        }
    }
    fn op_free(&mut self, g: usize) {
        let alive = self.alive(g);
        let Some(u) = self.pick(&alive) else { return };
        let id = self.nodes[u].id;
        t!("{g}: free #{u} (mortal {})", self.nodes[u].mortal);
        let res = self.gr(g).edit(|e| e.free_node(id));
        if self.nodes[u].mortal {
            if let Err(e) = res {
                fail(format!("freeing a node failed: {e:?}"));
            }
            self.stats[2] += 1;
            self.model_free(g, u);
        } else if !matches!(res, Err(GraphError::FreeError(FreeError::ImmortalNode))) {
            fail(format!("freeing an immortal node returned {res:?}"));
        }
        self.commit(g);
    }
    fn op_done(&mut self, g: usize) {
        // at most one node of a graph is done per block, so that the frame is well defined
        let alive = self.alive(g);
        if alive.iter().any(|u| self.nodes[*u].armed.is_some()) {
            return;
        }
        let c: Vec<usize> = alive.into_iter().filter(|u| matches!(self.nodes[*u].kind, Kind::Done | Kind::Marks)).collect();
        let Some(u) = self.pick(&c) else { return };
        // only nodes the audio thread already runs
        if !self.graphs[g].live.nodes.contains_key(&u) {
            return;
        }
        if self.nodes[u].act == 2 && self.graphs[g].node.is_none() {
            return;
        }
        let f = self.below(self.bs) as u32;
        t!("{g}: #{u} will be done at frame {f}");
        self.nodes[u].armed = Some(f);
        self.nodes[u].log.arm.set(Some(f));
    }
    fn op_mortality(&mut self, g: usize) {
        let alive = self.alive(g);
        let Some(u) = self.pick(&alive) else { return };
        let (id, m) = (self.nodes[u].id, !self.nodes[u].mortal || self.pct(20));
        t!("{g}: mortality #{u} {m}");
        if let Err(e) = self.gr(g).set_mortality(id, m) {
            fail(format!("set_mortality failed: {e:?}"));
        }
        self.nodes[u].mortal = m;
    }
    fn op_set(&mut self, g: usize) {
        if self.graphs[g].sets.len() + self.graphs[g].waiting.len() > 30 {
            return;
        }
        let c: Vec<usize> = self.alive(g).into_iter().filter(|u| matches!(self.nodes[*u].kind, Kind::Param | Kind::Done)).collect();
        let Some(u) = self.pick(&c) else { return };
        let id = self.nodes[u].id;
        let (pi, val) = if self.nodes[u].kind == Kind::Param { (self.below(2), self.below(500) as f64) } else { (0, self.below(3) as f64) };
        if self.nodes[u].kind == Kind::Done && (self.graphs[g].node.is_none() && val == 2.0 || self.nodes[u].armed.is_some()) {
            return;
        }
        let desc = if self.nodes[u].kind == Kind::Param { ["first", "second"][pi] } else { "done_action" };
        let par: Param = if self.pct(50) { pi.into() } else { desc.into() };
        let v: ParameterValue = if self.nodes[u].kind == Kind::Param { ParameterValue::Float(val) } else { ParameterValue::Integer(PInteger(val as usize)) };
        t!("{g}: set #{u} {pi} {val}");
        let how = self.below(2);
        let gr = self.gr(g);
        let res = match how {
            0 => gr.set(id, par, v, Time::asap()),
            _ => {
                gr.set_many(&[(id, par, v)], Time::asap());
                Ok(())
            }
        };
        if let Err(e) = res {
            fail(format!("setting a parameter failed: {e:?}"));
        }
        self.graphs[g].sets.push((u, pi, val));
    }
    /// One otherwise valid operation with exactly one fault. It must return the documented error.
    fn op_fault(&mut self, g: usize) {
        let alive = self.alive(g);
        let (ni, no) = (self.graphs[g].num_in as u16, self.graphs[g].num_out as u16);
        let srcs: Vec<usize> = alive.iter().copied().filter(|u| self.nodes[*u].outs > 0).collect();
        let sinks: Vec<usize> = alive.iter().copied().filter(|u| self.nodes[*u].ins > 0).collect();
        let params: Vec<usize> = alive.iter().copied().filter(|u| self.nodes[*u].kind == Kind::Param).collect();
        let dead: Vec<usize> = (0..self.nodes.len()).filter(|u| self.nodes[*u].g == g && !self.nodes[*u].alive).collect();
        let others: Vec<usize> = (0..self.nodes.len()).filter(|u| self.nodes[*u].g != g).collect();
        let (Some(so), Some(si)) = (self.pick(&srcs), self.pick(&sinks)) else { return };
        let fid = match self.pick(&others) {
            Some(u) if self.pct(60) => self.nodes[u].id,
            _ => self.foreign_node,
        };
        let did = self.pick(&dead).map(|u| self.nodes[u].id);
        let (sid, kid) = (self.nodes[so].id, self.nodes[si].id);
        let (sch, kch) = (self.below(self.nodes[so].outs) as u16, self.below(self.nodes[si].ins) as u16);
        let over = [0u16, 0, 1, 7, u16::MAX - 100][self.below(5)];
        let (bads, badk) = (self.nodes[so].outs as u16 + over, self.nodes[si].ins as u16 + over);
        let pid = self.pick(&params).map(|u| self.nodes[u].id);
        let mode = self.below(4);
        let sel = self.below(26);
        t!("{g}: fault {sel} mode {mode}");
        let G = NodeOrGraph::Graph;
        let con = |s: &mut Sim, a: NodeOrGraph, ca: u16, cb: u16, b: NodeOrGraph| {
            let gr = s.gr(g);
            match mode {
                0 => gr.connect2(a, ca, cb, b),
                1 => gr.connect2_replace(a, ca, cb, b),
                2 => gr.connect2_feedback(a, ca, cb, b),
                _ => gr.connect2_feedback_replace(a, ca, cb, b),
            }
        };
        let conp = |s: &mut Sim, a: NodeId, ca: u16, p: Param, b: NodeId| if mode % 2 == 0 { s.gr(g).connect_to_parameter(a, ca, p, b) } else { s.gr(g).connect_replace_to_parameter(a, ca, p, b) };
        use GraphError as E;
        let check = |ok: bool, res: &Result<(), GraphError>, what: &str| {
            if !ok {
                fail(format!("{what}: returned {res:?}"));
            }
        };
        macro_rules! expect {
            ($r:expr, $p:pat, $w:expr) => {{
                let r = $r;
                check(matches!(r, Err($p)), &r, $w);
            }};
        }
        self.stats[3] += 1;
        match sel {
            0 => expect!(con(self, sid.into(), bads, kch, kid.into()), E::OutputOutOfBounds(_), "connecting an output that does not exist"),
            1 => expect!(con(self, sid.into(), sch, badk, kid.into()), E::InputOutOfBounds(_), "connecting to an input that does not exist"),
            2 => expect!(con(self, fid.into(), sch, kch, kid.into()), E::WrongSourceNodeGraph { .. }, "connecting a node of another graph"),
            3 => expect!(con(self, sid.into(), sch, kch, fid.into()), E::WrongSinkNodeGraph { .. }, "connecting to a node of another graph"),
            4 => expect!(con(self, G, ni + over, kch, kid.into()), E::GraphInputOutOfBounds(_), "connecting a graph input that does not exist"),
            5 => expect!(con(self, sid.into(), sch, no + over, G), E::GraphOutputOutOfBounds(_), "connecting to a graph output that does not exist"),
            6 if ni > 0 => expect!(con(self, G, 0, no + over, G), E::GraphOutputOutOfBounds(_), "connecting a graph input to a graph output that does not exist"),
            7 if no > 0 => expect!(con(self, G, ni + over, 0, G), E::GraphInputOutOfBounds(_), "connecting a graph input that does not exist to a graph output"),
            8 if ni > 0 => expect!(con(self, G, 0, badk, kid.into()), E::InputOutOfBounds(_), "connecting a graph input to a node input that does not exist"),
            9 if no > 0 => expect!(con(self, sid.into(), bads, 0, G), E::OutputOutOfBounds(_), "connecting an output that does not exist to the graph output"),
            10 if no > 0 => expect!(con(self, fid.into(), sch, 0, G), E::WrongSourceNodeGraph { .. }, "connecting a node of another graph to the graph output"),
            11 if ni > 0 => expect!(con(self, G, 0, kch, fid.into()), E::WrongSinkNodeGraph { .. }, "connecting a graph input to a node of another graph"),
            12 | 13 if did.is_some() => {
                let d = did.unwrap();
                match self.below(7) {
                    0 => expect!(con(self, d.into(), 0, kch, kid.into()), E::NodeNotFound, "connecting a freed node"),
                    1 => expect!(con(self, sid.into(), sch, 0, d.into()), E::NodeNotFound, "connecting to a freed node"),
                    2 if no > 0 => expect!(con(self, d.into(), 0, 0, G), E::NodeNotFound, "connecting a freed node to the graph output"),
                    3 if ni > 0 => expect!(con(self, G, 0, 0, d.into()), E::NodeNotFound, "connecting a graph input to a freed node"),
                    4 => expect!(self.gr(g).disconnect_output_from_source(d, 0), E::NodeNotFound, "disconnecting a freed node"),
                    5 => expect!(self.gr(g).disconnect_input_to_sink(0, d), E::NodeNotFound, "disconnecting a freed node"),
                    _ => expect!(self.gr(g).set(d, 0, 1.0, Time::asap()), E::NodeNotFound, "setting a parameter of a freed node"),
                }
            }
            14 if pid.is_some() => expect!(conp(self, sid, sch, (if over == 7 { 65537 } else { 2 + over as usize }).into(), pid.unwrap()), E::ParameterIndexOutOfBounds(_), "connecting to a parameter that does not exist"),
            15 if pid.is_some() => expect!(conp(self, sid, sch, "third".into(), pid.unwrap()), E::ParameterDescriptionNotFound(_), "connecting to a parameter description that does not exist"),
            16 if pid.is_some() => expect!(conp(self, fid, sch, 0.into(), pid.unwrap()), E::WrongSourceNodeGraph { .. }, "connecting a node of another graph to a parameter"),
            17 => expect!(conp(self, sid, sch, 0.into(), fid), E::WrongSinkNodeGraph { .. }, "connecting to a parameter of a node of another graph"),
            18 if pid.is_some() => expect!(conp(self, sid, bads, 0.into(), pid.unwrap()), E::OutputOutOfBounds(_), "connecting an output that does not exist to a parameter"),
            19 if did.is_some() && pid.is_some() => {
                let d = did.unwrap();
                if mode < 2 {
                    expect!(conp(self, d, 0, 0.into(), pid.unwrap()), E::NodeNotFound, "connecting a freed node to a parameter")
                } else {
                    expect!(conp(self, sid, sch, 0.into(), d), E::NodeNotFound, "connecting to a parameter of a freed node")
                }
            }
            20 => match mode {
                0 => expect!(self.gr(g).disconnect_output_from_source(sid, bads), E::OutputOutOfBounds(_), "disconnecting an output that does not exist"),
                1 => expect!(self.gr(g).disconnect_output_from_source(G, ni + over), E::GraphInputOutOfBounds(_), "disconnecting a graph input that does not exist"),
                _ => expect!(self.gr(g).disconnect_output_from_source(fid, 0), E::WrongSourceNodeGraph { .. }, "disconnecting a node of another graph"),
            },
            21 => match mode {
                0 => expect!(self.gr(g).disconnect_input_to_sink(badk, kid), E::InputOutOfBounds(_), "disconnecting an input that does not exist"),
                1 => expect!(self.gr(g).disconnect_input_to_sink(no + over, G), E::GraphOutputOutOfBounds(_), "disconnecting a graph output that does not exist"),
                _ => expect!(self.gr(g).disconnect_input_to_sink(0, fid), E::WrongSinkNodeGraph { .. }, "disconnecting a node of another graph"),
            },
            22 if pid.is_some() => match mode {
                0 => expect!(self.gr(g).set(pid.unwrap(), if over == 7 { 65536 } else { 2 + over as usize }, 1.0, Time::asap()), E::ParameterError(ParameterError::ParameterIndexOutOfBounds), "setting a parameter that does not exist"),
                1 => expect!(self.gr(g).set(pid.unwrap(), "third", 1.0, Time::asap()), E::ParameterError(ParameterError::DescriptionNotFound(_)), "setting a parameter description that does not exist"),
                _ => expect!(self.gr(g).set(fid, 0, 1.0, Time::asap()), E::WrongSourceNodeGraph { .. } | E::WrongSinkNodeGraph { .. } | E::NodeNotFound, "setting a parameter of a node of another graph"),
            },
            23 => {
                let r = self.gr(g).edit(|e| e.free_node(fid));
                check(matches!(r, Err(E::WrongSourceNodeGraph { .. } | E::WrongSinkNodeGraph { .. } | E::NodeNotFound)), &r, "freeing a node of another graph");
                self.commit(g);
            }
            24 => expect!(self.gr(g).set_mortality(fid, mode > 1), E::WrongSourceNodeGraph { .. } | E::WrongSinkNodeGraph { .. } | E::NodeNotFound, "changing the mortality of a node of another graph"),
            25 if did.is_some() => {
                // freeing twice must be harmless
                let _ = self.gr(g).edit(|e| e.free_node(did.unwrap()));
                self.commit(g);
            }
            _ => {}
        }
    }
    fn op_drop_handle(&mut self) {
        let c: Vec<usize> = (1..self.graphs.len()).filter(|g| self.graphs[*g].graph.is_some()).collect();
        let Some(g) = self.pick(&c) else { return };
        t!("{g}: drop the Graph");
        self.graphs[g].graph = None;
    }
    fn structural(&mut self, g: usize) {
        let o = self.o;
        let w = [o.push, o.connect, o.feedback, o.param, o.disconnect, o.free, o.done, o.mortality, o.set, o.commit, o.sub, o.fault, (o.sub > 0) as u32];
        let total: u32 = w.iter().sum();
        let mut x = self.below(total as usize) as u32;
        let mut i = 0;
        while x >= w[i] {
            x -= w[i];
            i += 1;
        }
        match i {
            0 if self.alive(g).len() < 14 => self.op_push(g),
            1 => self.op_connect(g, false),
            2 => self.op_connect(g, true),
            3 => self.op_connect_param(g),
            4 => self.op_disconnect(g),
            5 => self.op_free(g),
            6 => self.op_done(g),
            7 => self.op_mortality(g),
            8 => self.op_set(g),
            9 => self.commit(g),
            10 => self.op_sub(g),
            11 => self.op_fault(g),
            12 if self.pct(15) => self.op_drop_handle(),
            _ => {}
        }
    }
    fn interrupt(&mut self, g: usize) {
        self.stats[4] += 1;
        // Only graphs which have received their changes for this block: the one being run and those around it.
        let mut c = vec![];
        let mut x = Some(g);
        while let Some(i) = x {
            c.push(i);
            x = self.graphs[i].node.map(|(p, _)| p);
        }
        let ed = self.editable();
        c.retain(|i| ed.contains(i));
        t!("[during the block");
        for _ in 0..1 + self.below(4) {
            let Some(g) = self.pick(&c) else { break };
            if self.graphs[g].graph.is_none() {
                continue;
            }
            // a node is only armed between blocks
            let d = std::mem::replace(&mut self.o.done, 0);
            let s = std::mem::replace(&mut self.o.sub, 0);
            self.structural(g);
            self.o.done = d;
            self.o.sub = s;
        }
        t!("]");
    }

    // ---------------------------------------------------------------- expected rendering
    fn eval_graph(&mut self, g: usize, clock: u64, inputs: &[Vec<f64>], ran: &mut BTreeSet<usize>, fires: &mut bool) -> Vec<Vec<f64>> {
        let bs = self.bs;
        let num_out = self.graphs[g].num_out;
        if self.graphs[g].freed {
            return vec![vec![0.0; bs]; num_out];
        }
        self.graphs[g].live = self.graphs[g].committed.clone();
        self.graphs[g].live_seq = self.graphs[g].seq;
        self.graphs[g].backlog = 0;
        let live = self.graphs[g].live.clone();
        // parameter changes, in order
        let mut q = std::mem::take(&mut self.graphs[g].waiting);
        q.append(&mut self.graphs[g].sets);
        for (u, i, v) in q {
            if let Some(nc) = live.nodes.get(&u) {
                if self.nodes[u].kind == Kind::Done {
                    self.nodes[u].act = v as u8;
                } else if nc.pin[i].is_none() {
                    self.nodes[u].p[i] = v;
                }
            } else if self.nodes[u].alive {
                self.graphs[g].waiting.push((u, i, v));
            }
        }
        let mut done: BTreeMap<usize, Vec<Vec<f64>>> = BTreeMap::new();
        let mut cut: Option<u32> = None;
        fn sum(s: &Sim, list: &[Src], done: &BTreeMap<usize, Vec<Vec<f64>>>, inputs: &[Vec<f64>], bs: usize) -> Vec<f64> {
            let mut r = vec![0.0; bs];
            for src in list {
                let v: &[f64] = match src {
                    Src::Node(u, c) => &done[u][*c as usize],
                    Src::In(c) => &inputs[*c as usize],
                    Src::Fb(f) => &s.fbs[*f].prev,
                };
                for (a, b) in r.iter_mut().zip(v) {
                    *a += b;
                }
            }
            r
        }
        // every node in dependency order
        let mut todo: Vec<usize> = live.nodes.keys().copied().collect();
        while !todo.is_empty() {
            let ready = |u: &usize| live.nodes[u].ins.iter().chain(live.nodes[u].pin.iter().flatten()).flatten().all(|s| if let Src::Node(x, _) = s { done.contains_key(x) } else { true });
            let Some(pos) = todo.iter().position(ready) else { fail("the committed graph has a cycle".into()) };
            let u = todo.remove(pos);
            let nc = &live.nodes[&u];
            let ins: Vec<Vec<f64>> = nc.ins.iter().map(|l| sum(self, l, &done, inputs, bs)).collect();
            let out = if let Kind::Sub(s) = self.nodes[u].kind {
                self.eval_graph(s, clock, &ins, ran, fires)
            } else {
                ran.insert(u);
                let ar: Vec<Option<Vec<f64>>> = nc.pin.iter().map(|p| p.as_ref().map(|l| sum(self, l, &done, inputs, bs))).collect();
                let n = &mut self.nodes[u];
                let mut out = vec![vec![0.0; bs]; n.outs];
                for f in 0..bs {
                    for (i, a) in ar.iter().enumerate() {
                        if let Some(a) = a {
                            n.p[i] = a[f];
                        }
                    }
                    let x: Vec<f64> = ins.iter().map(|c| c[f]).collect();
                    for (o, ch) in out.iter_mut().enumerate() {
                        ch[f] = value(n.c, clock + f as u64, o, &x, &n.p);
                    }
                }
                if let Some(f) = n.armed.take() {
                    let nth = n.log.fired.get() + 1;
                    match n.act {
                        1 if n.kind == Kind::Done => n.flag_at = n.flag_at.or(Some(nth)),
                        2 if n.kind == Kind::Done => cut = Some(f),
                        _ => {}
                    }
                }
                out
            };
            done.insert(u, out);
        }
        let mut outs: Vec<Vec<f64>> = live.outs.iter().map(|l| sum(self, l, &done, inputs, bs)).collect();
        // feedback: what is written now is read in the next block
        let mut fb = BTreeSet::new();
        for l in self.graphs[g].live.lists() {
            for s in l.iter() {
                if let Src::Fb(f) = s {
                    fb.insert(*f);
                }
            }
        }
        for f in fb {
            let (u, c) = self.fbs[f].src;
            self.fbs[f].prev = done[&u][c as usize].clone();
        }
        if let Some(f) = cut {
            *fires = true;
            self.stats[6] += 1;
            for c in outs.iter_mut() {
                c[f as usize..].fill(0.0);
            }
            self.graphs[g].freed = true;
            // the node of this graph is freed at the next commit of the parent
            if let Some((_, u)) = self.graphs[g].node {
                self.nodes[u].flag_at = Some(0);
            }
        }
        outs
    }
    fn run(&mut self, ap: &mut AudioProcessor<f64>) {
        let clock = CLOCK.get();
        let bs = self.bs;
        let n_in = self.graphs[0].num_in;
        let inputs: Vec<Vec<f64>> = (0..n_in).map(|_| (0..bs).map(|_| self.below(1000) as f64).collect()).collect();
        let mut ran = BTreeSet::new();
        let mut fires = false;
        let lives: Vec<usize> = (0..self.graphs.len()).filter(|g| !self.graphs[*g].freed).collect();
        let expected = self.eval_graph(0, clock, &inputs, &mut ran, &mut fires);
        t!("run at {clock}");
        let frames0: Vec<u64> = self.nodes.iter().map(|n| n.log.frames.get()).collect();
        let s0 = STAMP.get();
        // when a subgraph frees itself in this block, its flag is set on the way: no edits during that block
        let n = if !fires && self.pct(self.o.interrupts) { Some(self.below(ran.len() + 1) as u32) } else { None };
        let me: *mut Sim = self;
        // copies: the interrupt may edit the model
        let edges: Vec<(usize, usize)> = lives
            .iter()
            .flat_map(|g| {
                self.graphs[*g].live.nodes.iter().flat_map(|(u, nc)| nc.ins.iter().chain(nc.pin.iter().flatten()).flatten().filter_map(|s| if let Src::Node(x, _) = s { Some((*x, *u)) } else { None }).collect::<Vec<_>>()).collect::<Vec<_>>()
            })
            .collect();
        let slices: Vec<&[f64]> = inputs.iter().map(|v| v.as_slice()).collect();
        let ptrs: Vec<*const f64> = slices.iter().map(|s| s.as_ptr()).collect();
        let how = self.below(2);
        audio_guard(|| {
            if let Some(n) = n {
                HOOK.set((me, n));
            }
            if how == 0 { ap.run(&slices) } else { unsafe { ap.run_raw_ptr_inputs(&ptrs) } }
        });
        CLOCK.set(clock + bs as u64);
        for (u, nd) in self.nodes.iter().enumerate() {
            if !nd.log.bad.borrow().is_empty() {
                fail(format!("node #{u}: {}", nd.log.bad.borrow()));
            }
            if nd.log.bad_drop.get() {
                fail(format!("node #{u} was dropped on the audio thread"));
            }
            let d = nd.log.frames.get() - frames0.get(u).copied().unwrap_or(0);
            let e = if ran.contains(&u) { bs as u64 } else { 0 };
            if d != e {
                fail(format!("node #{u} processed {d} frames in this block instead of {e}"));
            }
        }
        for (a, b) in edges {
            if ran.contains(&a) && ran.contains(&b) {
                let (sa, sb) = (self.nodes[a].log.stamp.get(), self.nodes[b].log.stamp.get());
                if sa <= s0 || sb <= sa {
                    fail(format!("node #{b} was run before node #{a}, which it reads from"));
                }
            }
        }
        let out = ap.output_block();
        for (c, e) in expected.iter().enumerate() {
            let got: Vec<f64> = (0..bs).map(|f| Block::read(out, c, f)).collect();
            if got.iter().zip(e).any(|(a, b)| a != b) {
                fail(format!("graph output {c} at frame {clock}: rendered {got:?}, connected {e:?}"));
            }
        }
        self.stats[5] += 1;
    }
    fn check_drops(&self, at_end: bool) {
        for (u, n) in self.nodes.iter().enumerate() {
            let d = n.log.drops.get();
            if n.log.bad_drop.get() {
                fail(format!("node #{u} was dropped on the audio thread"));
            }
            if matches!(n.kind, Kind::Sub(_)) {
                continue;
            }
            if at_end {
                if d != 1 {
                    fail(format!("node #{u} was dropped {d} times after everything was dropped"));
                }
            } else if d > 1 || (d == 1 && n.alive && self.graph_reachable_node(n.g)) {
                fail(format!("node #{u} was dropped {d} times, alive {}", n.alive));
            } else if d == 1 && !n.alive && n.gone > self.graphs[n.g].live_seq && !self.graphs[n.g].freed && self.graphs[n.g].graph.is_some() && self.graph_reachable(n.g) {
                fail(format!("node #{u} was dropped while the audio thread still has tasks that run it"));
            }
        }
    }
}

pub fn sim(o: Opts) {
    let (a, b): (u64, u64) = (nd::any(), nd::any());
    sim_seed(o, a ^ b.rotate_left(29).wrapping_mul(0x9E3779B97F4A7C15))
}
pub fn sim_seed(o: Opts, seed: u64) {
    TRACE.with(|t| t.borrow_mut().clear());
    IN_AUDIO.set(false);
    HOOK.set((std::ptr::null_mut(), 0));
    CLOCK.set(0);
    let mut rng = seed;
    let bs = [1usize, 2, 4, 8, 8, 16][(nd::rng(&mut rng) % 6) as usize];
    let po = AudioProcessorOptions { block_size: bs, sample_rate: 48000, ring_buffer_size: 60, ..Default::default() };
    let (graph, mut ap, _log) = AudioProcessor::<f64>::new::<U2, U3>(po.clone());
    let (mut fg, fap, _l2) = AudioProcessor::<f64>::new::<U0, U1>(po);
    // keys of nodes in different graphs coincide
    let foreign_log = Rc::new(Log::default());
    let mut foreign_node = NodeId::invalid();
    for _ in 0..3 {
        foreign_node = fg.push(Tg::<U1, U1, U2> { log: foreign_log.clone(), g: 0, c: 0.0, marks: false, p: [0.0; 2], last: 0, k: 0, _p: PhantomData }).node_id();
    }
    let gm = GM { nodes: BTreeMap::new(), outs: vec![vec![]; 3] };
    let mut s = Box::new(Sim {
        o,
        rng,
        bs,
        graphs: vec![Gc { graph: Some(Box::new(graph)), num_in: 2, num_out: 3, pend: gm.clone(), committed: gm.clone(), live: gm, seq: 0, live_seq: 0, node: None, freed: false, backlog: 0, sets: vec![], waiting: vec![] }],
        nodes: vec![],
        fbs: vec![],
        foreign: Box::new(fg),
        foreign_node,
        stats: [0; 8],
    });
    let steps = 10 + s.below(o.steps as usize);
    for _ in 0..steps {
        if s.below((o.run + 40) as usize) < o.run as usize {
            s.run(&mut ap);
        } else {
            let ed = s.editable();
            let g = if s.pct(50) { 0 } else { s.pick(&ed).unwrap_or(0) };
            if ed.contains(&g) {
                s.structural(g);
            } else {
                s.run(&mut ap);
            }
        }
        s.check_drops(false);
    }
    s.o.interrupts = 0;
    // everything that was freed is given back once the audio thread has moved on
    for _ in 0..3 {
        for g in s.editable() {
            s.commit(g);
        }
        s.run(&mut ap);
    }
    for g in s.editable() {
        s.commit(g);
    }
    s.check_drops(false);
    let ed = s.editable();
    for (u, n) in s.nodes.iter().enumerate() {
        if ed.contains(&n.g) && !n.alive && !matches!(n.kind, Kind::Sub(_)) && n.log.drops.get() == 0 {
            fail(format!("node #{u} was freed but never dropped"));
        }
    }
    // drop order must not matter
    if s.pct(50) {
        for g in s.graphs.iter_mut() {
            g.graph = None;
        }
        s.run(&mut ap);
        drop(ap);
    } else {
        drop(ap);
        for g in s.graphs.iter_mut().rev() {
            g.graph = None;
        }
    }
    s.check_drops(true);
    crate::reach!(s.stats[0] > 0, "cycle rejected");
    crate::reach!(s.stats[1] > 0, "done node freed");
    crate::reach!(s.stats[2] > 0, "node freed");
    crate::reach!(s.stats[3] > 0, "faulty edit");
    crate::reach!(s.stats[4] > 0, "edit during a block");
    crate::reach!(s.stats[6] > 0, "graph freed by a done node");
    drop(fap);
    let _ = &s.foreign;
}

crate::harnesses! {
    native("histories of up to 130 edits, commits and blocks over up to 3 nested graphs; at most 30 nodes per graph, block sizes 1 to 16")
    fn c04_sim() { sim(Opts { push: 10, connect: 18, disconnect: 4, free: 4, commit: 6, run: 12, ..BASE }) }
    native("histories of up to 130 edits, commits and blocks over up to 3 nested graphs; at most 30 nodes per graph, block sizes 1 to 16")
    fn c05_sim() { sim(Opts { push: 10, connect: 20, feedback: 4, param: 4, mortality: 0, done: 0, ..BASE }) }
    native("histories of up to 130 edits, commits and blocks over up to 3 nested graphs; at most 30 nodes per graph, block sizes 1 to 16")
    fn c06_sim() { sim(Opts { push: 5, connect: 24, feedback: 6, param: 8, mortality: 0, done: 0, sub: 0, disconnect: 5, ..BASE }) }
    native("histories of up to 130 edits, commits and blocks over up to 3 nested graphs; at most 30 nodes per graph, block sizes 1 to 16")
    fn c07_sim() { sim(Opts { fault: 14, ..BASE }) }
    native("histories of up to 130 edits, commits and blocks over up to 3 nested graphs; at most 30 nodes per graph, block sizes 1 to 16")
    fn c08_sim() { sim(Opts { connect: 18, disconnect: 6, feedback: 4, run: 16, ..BASE }) }
    native("histories of up to 130 edits, commits and blocks over up to 3 nested graphs; at most 30 nodes per graph, block sizes 1 to 16")
    fn c09_sim() { sim(Opts { push: 10, free: 7, done: 4, mortality: 3, interrupts: 40, commit: 7, sub: 2, run: 12, ..BASE }) }
    native("histories of up to 130 edits, commits and blocks over up to 3 nested graphs; at most 30 nodes per graph, block sizes 1 to 16")
    fn c14_sim() { sim(Opts { param: 14, disconnect: 5, set: 6, free: 4, ..BASE }) }
}
