//! C03: a scheduled parameter change is applied exactly once, in the block and at the frame it is due.
use crate::probe::{self, Probe};
use crate::sym::{self, Sym, eq};
use crate::{nd, reach};
use knaster_core_dsp::wrappers_core::*;
use knaster_graph::numeric_array::NumericArray;
#[cfg(not(kani))]
use knaster_graph::{
    graph::{Graph, GraphOptions, NodeId},
    graph_edit::Parameter,
    processor::{AudioProcessor, AudioProcessorOptions},
};
use knaster_graph::typenum::*;
use knaster_graph::*;

/// Outputs its two parameters and the number of changes it has received.
pub struct Rec {
    p: [f64; 2],
    n: u64,
}
pub fn code(v: ParameterValue) -> f64 {
    match v {
        ParameterValue::Float(f) => f,
        ParameterValue::Smoothing(ParameterSmoothing::Linear(x), Rate::BlockRate) => -(x as f64),
        ParameterValue::Smoothing(ParameterSmoothing::None, Rate::BlockRate) => -0.5,
        ParameterValue::Trigger => 1e6,
        ParameterValue::Bool(b) => 2e6 + b as u8 as f64,
        ParameterValue::Integer(i) => 3e6 + i.0 as f64,
        ParameterValue::Smoothing(..) => 4e6,
    }
}
impl UGen for Rec {
    type Sample = f64;
    type Inputs = U0;
    type Outputs = U3;
    type Parameters = U2;
    fn process(&mut self, _ctx: &mut AudioCtx, _f: &mut UGenFlags, _i: Frame<f64, U0>) -> Frame<f64, U3> {
        [self.p[0], self.p[1], self.n as f64].into()
    }
    fn param_hints() -> NumericArray<ParameterHint, U2> {
        [ParameterHint::infinite_float(), ParameterHint::infinite_float()].into()
    }
    fn param_descriptions() -> NumericArray<&'static str, U2> {
        ["first", "second"].into()
    }
    fn param_apply(&mut self, _ctx: &mut AudioCtx, index: usize, value: ParameterValue) {
        self.n += 1;
        self.p[index] = code(value);
    }
}

#[cfg(not(kani))]
mod hist {
    use super::*;
    const CAP: usize = 5;
    struct Ev {
        node: usize,
        par: usize,
        code: f64,
        /// None: as soon as possible; Some(sample)
        due: Option<u64>,
        rel: Option<u64>,
        seen: bool,
    }
    struct N {
        id: NodeId,
        g: usize,
        precise: bool,
        p: [f64; 2],
        n: u64,
        live: bool,
        chan: u16,
        last_due: u64,
        params: Vec<Parameter>,
    }
    pub fn timing() {
        let (a, b): (u64, u64) = (nd::any(), nd::any());
        let mut rng = a ^ b.rotate_left(31).wrapping_mul(0x9E3779B97F4A7C15);
        let mut below = move |n: usize| (nd::rng(&mut rng) % n as u64) as usize;
        let bs = [1usize, 4, 8, 16, 64][below(5)];
        let sr: u32 = [44100, 48000, 96000, 192000, 8000, 16][below(6)];
        let po = AudioProcessorOptions { block_size: bs, sample_rate: sr, ring_buffer_size: 100, ..Default::default() };
        let (mut top, mut ap, _log) = AudioProcessor::<f64>::new::<U0, U12>(po);
        // a graph within the graph, so that both levels handle events
        let mut sub: Option<Graph<f64>> = None;
        let sub_id: Option<NodeId> = if below(2) == 0 {
            let (id, s) = top.edit(|e| {
                let (h, s) = e.subgraph::<U0, U6>(GraphOptions::default().ring_buffer_size(100), |_| {});
                (h.id(), s)
            });
            sub = Some(s);
            Some(id)
        } else {
            None
        };
        let mut nodes: Vec<N> = vec![];
        let mut evs: Vec<Vec<Ev>> = vec![vec![], vec![]]; // per graph, in the order sent
        let mut clock: u64 = 0;
        let secs = |samples: u64| Seconds::from_samples(samples, sr as u64);
        let mut late = 0;
        let mut far = 0;
        let mut delayed = 0;
        if let Some(id) = sub_id {
            for c in 0..6 {
                top.connect2(id, c, 6 + c, knaster_graph::graph::NodeOrGraph::Graph).unwrap();
            }
            top.edit(|_| {});
        }
        let steps = 20 + below(60);
        for _ in 0..steps {
            match below(12) {
                0 if nodes.len() < 4 => {
                    let g = if sub.is_some() && nodes.len() >= 2 { 1 } else { 0 };
                    if g == 0 && nodes.len() >= 2 {
                        continue;
                    }
                    let chan = if g == 0 { nodes.len() as u16 * 3 } else { (nodes.len() as u16 - 2) * 3 };
                    let precise = below(3) > 0;
                    let graph = if g == 0 { &mut top } else { sub.as_mut().unwrap() };
                    let (id, params) = graph.edit(|e| {
                        if precise {
                            let h = e.push(Rec { p: [0.0; 2], n: 0 }.precise_timing::<CAP>());
                            let params = vec![h.param(0), h.param("second")];
                            h.to_graph_out_channels([chan, chan + 1, chan + 2]);
                            (h.id(), params)
                        } else {
                            let h = e.push(Rec { p: [0.0; 2], n: 0 });
                            let params = vec![h.param("first"), h.param(1)];
                            h.to_graph_out_channels([chan, chan + 1, chan + 2]);
                            (h.id(), params)
                        }
                    });
                    nodes.push(N { id, g, precise, p: [0.0; 2], n: 0, live: true, chan: chan + if g == 0 { 0 } else { 6 }, last_due: 0, params });
                }
                1..=7 if !nodes.is_empty() => {
                    let u = below(nodes.len());
                    let par = below(2);
                    let g = nodes[u].g;
                    if evs[g].len() > 60 {
                        continue;
                    }
                    let val = 1.0 + below(1000) as f64;
                    // 0: none/asap, 1: absolute, 2: relative
                    let kind = below(5);
                    let dist = match below(8) {
                        0 => 0,
                        1..=4 => below(bs * 3) as u64,
                        5 => below(bs * 20) as u64,
                        6 => below((sr as usize * 3).min(bs * 60)) as u64,
                        _ => (below(sr as usize * 3)) as u64,
                    };
                    let (time, due, rel): (Option<Time>, Option<u64>, Option<u64>) = match kind {
                        0 => (None, None, None),
                        1 => (Some(Time::asap()), None, None),
                        2 | 3 => {
                            let mut due = clock + dist;
                            if below(10) == 0 {
                                due = due.saturating_sub(below(bs * 4) as u64);
                            }
                            (Some(Time::at(secs(due))), Some(due), None)
                        }
                        _ => (Some(Time::after(secs(dist))), Some(clock + dist), Some(dist)),
                    };
                    // changes with a delay are sent in the order they are due, and not more per block than there is room for
                    if let Some(d) = due {
                        if nodes[u].precise && d >= clock {
                            if d < nodes[u].last_due {
                                continue;
                            }
                            let room = evs[g].iter().filter(|e| e.node == u && e.due.is_some_and(|x| x / bs as u64 == d / bs as u64)).count();
                            if room >= CAP {
                                continue;
                            }
                            nodes[u].last_due = d;
                        }
                        if d > clock + sr as u64 {
                            far += 1;
                        }
                        if d < clock {
                            late += 1;
                        }
                    }
                    let desc = ["first", "second"][par];
                    let smooth = below(4) == 0;
                    let c = if smooth { -val } else { val };
                    let gr = if g == 0 { &top } else { sub.as_ref().unwrap() };
                    let p = &mut nodes[u].params[par];
                    let s = ParameterSmoothing::Linear(val as f32);
                    let cc;
                    let res = match (smooth, time) {
                        (true, None) => { cc = c; p.smooth(s) }
                        (true, Some(t)) => { cc = c; p.smooth_time(s, t) }
                        (false, None) => match below(3) {
                            0 => { cc = 1e6; p.trig() }
                            1 => { cc = val; p.set(val) }
                            _ => { cc = 2e6 + (val as u64 % 2) as f64; p.set(val as u64 % 2 == 1) }
                        },
                        (false, Some(t)) => match below(4) {
                            0 => { cc = val; gr.set(nodes[u].id, desc, val, t) }
                            1 => { cc = val; gr.set(nodes[u].id, par, val, t) }
                            2 => { cc = 1e6; p.trig_time(t) }
                            _ => { cc = val; match kind {
                                2 | 3 => p.set_at(val, secs(due.unwrap())),
                                4 => p.set_after(val, secs(rel.unwrap())),
                                _ => { gr.set_many(&[(nodes[u].id, par.into(), val.into())], t); Ok(()) }
                            } }
                        },
                    };
                    res.expect("setting a parameter of a live node");
                    evs[g].push(Ev { node: u, par, code: cc, due, rel, seen: false });
                }
                8 if !nodes.is_empty() && below(4) == 0 => {
                    // a freed node never receives anything
                    let u = below(nodes.len());
                    if nodes[u].live {
                        nodes[u].live = false;
                        let id = nodes[u].id;
                        let g = nodes[u].g;
                        let graph = if g == 0 { &mut top } else { sub.as_mut().unwrap() };
                        graph.edit(|e| e.free_node(id)).unwrap();
                        nodes[u].p = [0.0; 2];
                        nodes[u].n = 0;
                        evs[g].retain(|e| e.node != u);
                        return; // the handles of the freed node are not used any further
                    }
                }
                9 if below(3) == 0 => {
                    // skip ahead
                    for _ in 0..below(300) {
                        block(&mut ap, &mut clock, bs, &mut nodes, &mut evs, &mut delayed);
                    }
                }
                _ => block(&mut ap, &mut clock, bs, &mut nodes, &mut evs, &mut delayed),
            }
        }
        // everything that is due is applied
        while evs.iter().flatten().any(|e| e.due.unwrap_or(0) < clock + bs as u64 * 400) {
            block(&mut ap, &mut clock, bs, &mut nodes, &mut evs, &mut delayed);
        }
        reach!(late > 0, "late change");
        reach!(far > 0, "change more than a second ahead");
        reach!(delayed > 0, "change within a block");
    }
    fn block(ap: &mut AudioProcessor<f64>, clock: &mut u64, bs: usize, nodes: &mut [N], evs: &mut [Vec<Ev>], delayed: &mut u32) {
        assert!(ap.inputs() == 0);
        let mut exp = vec![vec![0.0f64; bs]; 12];
        // expected
        let mut within: Vec<(usize, usize, u64, f64)> = vec![]; // node, param, frame, code
        for g in evs.iter_mut() {
            g.retain_mut(|e| {
                if !e.seen {
                    e.seen = true;
                    // relative times count from the block in which the change arrives
                    if let Some(r) = e.rel {
                        e.due = Some(*clock + r);
                    }
                }
                let d = e.due.unwrap_or(0).saturating_sub(*clock);
                if d >= bs as u64 {
                    return true;
                }
                let n = &mut nodes[e.node];
                if d == 0 || !n.precise {
                    n.p[e.par] = e.code;
                    n.n += 1;
                } else {
                    *delayed += 1;
                    within.push((e.node, e.par, d, e.code));
                }
                false
            });
        }
        for f in 0..bs {
            for w in &within {
                if w.2 == f as u64 {
                    nodes[w.0].p[w.1] = w.3;
                    nodes[w.0].n += 1;
                }
            }
            for n in nodes.iter() {
                if n.live {
                    let c = n.chan as usize;
                    exp[c][f] = n.p[0];
                    exp[c + 1][f] = n.p[1];
                    exp[c + 2][f] = n.n as f64;
                }
            }
        }
        ap.run_without_inputs();
        let out = ap.output_block();
        for (c, e) in exp.iter().enumerate() {
            for f in 0..bs {
                let got = Block::read(out, c, f);
                assert!(got == e[f], "{} of node {} at sample {}: {got} instead of {}", ["first parameter", "second parameter", "number of changes"][c % 3], c / 3, *clock + f as u64, e[f]);
            }
        }
        *clock += bs as u64;
    }
}

/// Changes with delays in due order, for the next one or two blocks: at frame f each parameter has the value of
/// the last change with a delay of at most f.
fn precise(frames: bool) {
    const BS: usize = 3;
    let mut rec = probe::Rec::new(sym::any);
    let rp = &mut rec as *mut probe::Rec<Sym>;
    let r = unsafe { &mut *rp };
    let mut w = Probe(rp).precise_timing::<2>();
    let mut ctx = probe::ctx(48000, BS);
    let mut fl = UGenFlags::new();
    let mut want = [0.0f64; 2];
    let mut last = 0u16;
    let mut room = 2;
    let mut later: [Option<(u16, usize, f64)>; 2] = [None; 2];
    for _ in 0..3 {
        let i = nd::below(2);
        let v: u16 = nd::any();
        let d: u16 = nd::below(BS) as u16;
        nd::assume(d == 0 || (d >= last && room > 0));
        if d > 0 {
            w.set_delay_within_block_for_param(&mut ctx, i, d);
            last = d;
            later[2 - room] = Some((d, i, v as f64));
            room -= 1;
        } else {
            want[i] = v as f64;
        }
        w.param_apply(&mut ctx, i, ParameterValue::Float(v as f64));
    }
    assert!(r.params == 1 + room);
    reach!(room == 0, "two delayed changes");
    let mut bin = StaticBlock::<Sym, U1, U3>::new();
    let mut bout = StaticBlock::<Sym, U2, U3>::new();
    for i in 0..BS {
        bin.write(sym::any(), 0, i);
    }
    if frames {
        // frame by frame there are no frames within the block: everything applies now
        let o = w.process(&mut ctx, &mut fl, [Block::read(&bin, 0, 0)].into());
        assert!(eq(o[0], r.out[0][0]) && eq(o[1], r.out[0][1]) && r.frames == 1 && eq(r.inputs[0], Block::read(&bin, 0, 0)));
        for l in later.iter().flatten() {
            want[l.1] = l.2;
        }
        assert!(r.at[0] == want && r.params == 3);
    } else {
        let t: u32 = nd::any();
        ctx.block.set_frame_clock(t as u64);
        w.process_block(&mut ctx, &mut fl, &bin, &mut bout);
        assert!(r.frames == BS && r.params == 3 && ctx.frames_to_process() == BS && ctx.block_start_offset() == 0 && ctx.frame_clock() == t as u64);
        for f in 0..BS {
            for l in later.iter().flatten() {
                if l.0 as usize == f {
                    want[l.1] = l.2;
                }
            }
            assert!(r.at[f] == want);
            assert!(eq(r.inputs[f], Block::read(&bin, 0, f)));
            assert!(eq(Block::read(&bout, 0, f), r.out[f][0]) && eq(Block::read(&bout, 1, f), r.out[f][1]));
        }
    }
    // nothing is left for the next block, and there is room again
    let (i, v) = (nd::below(2), nd::any::<u16>() as f64);
    let d = 1 + nd::below(2) as u16;
    w.set_delay_within_block_for_param(&mut ctx, i, d);
    w.param_apply(&mut ctx, i, ParameterValue::Float(v));
    r.frames = 0;
    let n = r.params;
    assert!(n == 3);
    w.process_block(&mut ctx, &mut fl, &bin, &mut bout);
    assert!(r.params == 4 && r.frames == BS);
    for f in 0..BS {
        if f == d as usize {
            want[i] = v;
        }
        assert!(r.at[f] == want);
    }
}

crate::harnesses! {
    native("3 changes of 2 parameters, blocks of 3 frames, capacity 2; all delays, values and samples")
    fn c03_precise_block() { precise(false) }
    native("3 changes of 2 parameters, then a frame and a block, capacity 2; all delays, values and samples")
    fn c03_precise_frame() { precise(true) }
    native("pseudo-random histories of up to 80 steps and 4 nodes in two graphs, block sizes 1 to 64")
    fn c03_timing() { hist::timing() }
}
