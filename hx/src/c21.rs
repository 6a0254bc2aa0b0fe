//! C21: what is written with handles (`>>`, `|`, arithmetic, channel selections) is what is connected.
//!
//! A reference interpreter of the expressions runs in lockstep with the real `GraphEdit`, its handles and the graph.
use crate::nd;
use knaster_core_dsp::wrappers_core::*;
use knaster_graph::graph::*;
use knaster_graph::graph_edit::*;
use knaster_graph::numeric_array::NumericArray;
use knaster_graph::processor::{AudioProcessor, AudioProcessorOptions};
use knaster_graph::typenum::*;
use knaster_graph::*;
use std::cell::RefCell;
use std::collections::HashMap;
use std::marker::PhantomData;
use std::rc::Rc;

/// out[c] = v[c] + d * frame
pub struct Src<O> {
    v: [f64; 3],
    d: f64,
    t: u64,
    p: PhantomData<O>,
}
impl<O: Size> UGen for Src<O> {
    type Sample = f64;
    type Inputs = U0;
    type Outputs = O;
    type Parameters = U0;
    fn process(&mut self, _: &mut AudioCtx, _: &mut UGenFlags, _: Frame<f64, U0>) -> Frame<f64, O> {
        self.t += 1;
        let t = (self.t - 1) as f64;
        (0..O::USIZE).map(|c| self.v[c] + self.d * t).collect()
    }
    fn param_descriptions() -> NumericArray<&'static str, U0> {
        [].into()
    }
    fn param_hints() -> NumericArray<ParameterHint, U0> {
        [].into()
    }
    fn param_apply(&mut self, _: &mut AudioCtx, _: usize, _: ParameterValue) {}
}
/// out[c] = 2 in[c] + k + c
pub struct Pass<N> {
    k: f64,
    p: PhantomData<N>,
}
impl<N: Size> UGen for Pass<N> {
    type Sample = f64;
    type Inputs = N;
    type Outputs = N;
    type Parameters = U0;
    fn process(&mut self, _: &mut AudioCtx, _: &mut UGenFlags, x: Frame<f64, N>) -> Frame<f64, N> {
        (0..N::USIZE).map(|c| 2.0 * x[c] + (self.k + c as f64)).collect()
    }
    fn param_descriptions() -> NumericArray<&'static str, U0> {
        [].into()
    }
    fn param_hints() -> NumericArray<ParameterHint, U0> {
        [].into()
    }
    fn param_apply(&mut self, _: &mut AudioCtx, _: usize, _: ParameterValue) {}
}
/// out = 2 parameter "b" + k
pub struct Link {
    k: f64,
    b: f64,
}
impl UGen for Link {
    type Sample = f64;
    type Inputs = U0;
    type Outputs = U1;
    type Parameters = U2;
    fn process(&mut self, _: &mut AudioCtx, _: &mut UGenFlags, _: Frame<f64, U0>) -> Frame<f64, U1> {
        [2.0 * self.b + self.k].into()
    }
    fn param_descriptions() -> NumericArray<&'static str, U2> {
        ["a", "b"].into()
    }
    fn param_hints() -> NumericArray<ParameterHint, U2> {
        [ParameterHint::infinite_float(), ParameterHint::infinite_float()].into()
    }
    fn param_apply(&mut self, _: &mut AudioCtx, i: usize, v: ParameterValue) {
        if i == 1 {
            self.b = v.float().unwrap();
        }
    }
}

type X = usize;
#[derive(Debug)]
enum E {
    Src { v: f64, d: f64, born: u64 },
    Op(u8, Option<X>, Option<X>),
    Const(f64),
    In(usize),
    Sink(usize, usize),
}
#[derive(Debug)]
struct SinkM {
    id: NodeId,
    name: Option<String>,
    k: f64,
    /// what is connected to each channel, and whether by feedback
    ins: Vec<Vec<(X, bool)>>,
}
#[derive(Clone, Debug, Default)]
struct M {
    outs: Vec<X>,
    ins: Vec<(usize, usize)>,
}
struct Model {
    ex: Vec<E>,
    sinks: Vec<SinkM>,
    outs: Vec<Vec<X>>,
    prev: HashMap<X, Vec<f64>>,
    clock: u64,
    bs: usize,
    inputs: Vec<Vec<f64>>,
    srcs: Vec<(NodeId, Option<String>, M)>,
    vals: u32,
    trace: Vec<String>,
}
const MAXS: usize = 2;
fn apply(k: u8, a: f64, b: f64) -> f64 {
    match k {
        0 => a + b,
        1 => a - b,
        2 => a * b,
        3 => a / b,
        _ => a.powf(b),
    }
}
impl Model {
    fn e(&mut self, e: E) -> X {
        self.ex.push(e);
        self.ex.len() - 1
    }
    /// the last sink the expression depends on
    fn rank(&self, x: X) -> usize {
        match self.ex[x] {
            E::Sink(s, _) => s + 1,
            E::Op(_, a, b) => a.map_or(0, |a| self.rank(a)).max(b.map_or(0, |b| self.rank(b))),
            _ => 0,
        }
    }
    fn op(&mut self, k: u8, a: &M, b: &M) -> M {
        assert!(a.outs.len() == b.outs.len());
        M { outs: a.outs.iter().zip(&b.outs).map(|(x, y)| self.e(E::Op(k, Some(*x), Some(*y)))).collect(), ins: vec![] }
    }
    fn can(&self, a: &M, b: &M, feedback: bool, replace: bool) -> bool {
        let mut more: HashMap<(usize, usize), usize> = HashMap::new();
        a.outs.iter().zip(&b.ins).all(|(x, i)| {
            let m = more.entry(*i).or_default();
            *m += 1;
            (feedback || self.rank(*x) <= i.0) && (replace || self.sinks[i.0].ins[i.1].len() + *m <= MAXS) && !(feedback && matches!(self.ex[*x], E::In(_)))
        })
    }
    fn to(&mut self, a: &M, b: &M, feedback: bool, replace: bool) {
        for (x, i) in a.outs.iter().zip(&b.ins) {
            let l = &mut self.sinks[i.0].ins[i.1];
            if replace {
                l.clear();
            }
            l.push((*x, feedback));
        }
    }
    fn can_out(&self, a: &M, ch: &[usize], replace: bool) -> bool {
        let mut more = vec![0; self.outs.len()];
        a.outs.iter().zip(ch).all(|(_, c)| {
            *c < self.outs.len() && {
                more[*c] += 1;
                replace || self.outs[*c].len() + more[*c] <= MAXS
            }
        })
    }
    fn to_out(&mut self, a: &M, ch: &[usize], replace: bool) {
        for (x, c) in a.outs.iter().zip(ch) {
            if replace {
                self.outs[*c].clear();
            }
            self.outs[*c].push(*x);
        }
    }
    fn disconnect(&mut self, x: X) {
        for s in &mut self.sinks {
            for l in &mut s.ins {
                l.retain(|(y, _)| *y != x);
            }
        }
        for l in &mut self.outs {
            l.retain(|y| *y != x);
        }
        for e in &mut self.ex {
            if let E::Op(_, a, b) = e {
                for y in [a, b] {
                    if *y == Some(x) {
                        *y = None;
                    }
                }
            }
        }
    }
    fn eval(&self, x: X, memo: &mut HashMap<X, Vec<f64>>) -> Vec<f64> {
        if let Some(v) = memo.get(&x) {
            return v.clone();
        }
        let r = match &self.ex[x] {
            E::Src { v, d, born } => (0..self.bs).map(|i| v + d * (self.clock + i as u64 - born) as f64).collect(),
            E::Const(c) => vec![*c; self.bs],
            E::In(c) => self.inputs[*c].clone(),
            E::Op(k, a, b) => {
                let z = vec![0.0; self.bs];
                let a = a.map_or(z.clone(), |a| self.eval(a, memo));
                let b = b.map_or(z, |b| self.eval(b, memo));
                a.iter().zip(&b).map(|(a, b)| apply(*k, *a, *b)).collect()
            }
            E::Sink(s, c) => {
                let n = &self.sinks[*s];
                let x = self.sum(&n.ins[*c], memo);
                x.iter().map(|x| 2.0 * x + (n.k + *c as f64)).collect()
            }
        };
        memo.insert(x, r.clone());
        r
    }
    fn sum(&self, l: &[(X, bool)], memo: &mut HashMap<X, Vec<f64>>) -> Vec<f64> {
        let mut r: Option<Vec<f64>> = None;
        for (x, fb) in l {
            let v = if *fb { self.prev.get(x).cloned().unwrap_or(vec![0.0; self.bs]) } else { self.eval(*x, memo) };
            r = Some(match r {
                None => v,
                Some(r) => r.iter().zip(&v).map(|(a, b)| a + b).collect(),
            });
        }
        r.unwrap_or(vec![0.0; self.bs])
    }
    fn value(&mut self) -> f64 {
        // integers, so that sums are exact in every order
        self.vals += 1;
        (1 + nd::below(40)) as f64 * if nd::any() { 1.0 } else { -1.0 }
    }
}
type H<'a, 'b> = DH<'a, 'b, f64, DynamicChannelsHandle>;
type P<'a, 'b> = Vec<(H<'a, 'b>, M)>;

enum C {
    F64(f64),
    F32(f32),
    U(usize),
    I(i32),
}
impl C {
    fn any() -> C {
        match nd::below(4) {
            0 => C::F64((nd::below(100) as f64 - 50.0) / 10.0),
            1 => C::F32((nd::below(100) as f32 - 50.0) / 10.0),
            2 => C::U(if nd::any() { nd::below(100) } else { 123456789012 + nd::below(100) }),
            _ => C::I(if nd::any() { nd::below(100) as i32 - 50 } else { nd::any() }),
        }
    }
    fn f(&self) -> f64 {
        match *self {
            C::F64(x) => x,
            C::F32(x) => x as f64,
            C::U(x) => x as f64,
            C::I(x) => x as f64,
        }
    }
}
/// $a and $b: one of them is a constant
macro_rules! op {
    ($k:expr, $a:expr, $b:expr) => {
        match $k {
            0 => $a + $b,
            1 => $a - $b,
            2 => $a * $b,
            _ => $a / $b,
        }
    };
}
macro_rules! with_const {
    ($k:expr, $h:expr, $c:expr, $left:expr) => {
        match ($c, $left) {
            (C::F64(c), false) => op!($k, $h, c),
            (C::F32(c), false) => op!($k, $h, c),
            (C::U(c), false) => op!($k, $h, c),
            (C::I(c), false) => op!($k, $h, c),
            (C::F64(c), true) => op!($k, c, $h),
            (C::F32(c), true) => op!($k, c, $h),
            (C::U(c), true) => op!($k, c, $h),
            (C::I(c), true) => op!($k, c, $h),
        }
    };
}
fn model_const(m: &mut Model, k: u8, a: &M, c: &C, left: bool) -> M {
    let c = m.e(E::Const(c.f()));
    let c = M { outs: vec![c; a.outs.len()], ins: vec![] };
    if left { m.op(k, &c, a) } else { m.op(k, a, &c) }
}
/// operations of two handles with statically known channels
fn static_ops<'a, 'b, S0: Static + Copy, S1: Static + Copy>(m: &mut Model, a: SH<'a, 'b, f64, S0>, ma: &M, b: SH<'a, 'b, f64, S1>, mb: &M) -> (H<'a, 'b>, M)
where
    S0::Outputs: Same<S1::Outputs>,
{
    let k = nd::below(5) as u8;
    m.trace.push(format!("static {} {k} {:?} {:?}", nd_name::<S0>(), ma.outs, mb.outs));
    let r = match nd::below(4) {
        0 => match k {
            4 => a.pow(b).dynamic(),
            k => op!(k, a, b).dynamic(),
        },
        1 if k < 4 => op!(k, a, b.dynamic()),
        2 if k < 4 => op!(k, a.dynamic(), b),
        _ => match k {
            4 => a.dynamic().pow(b.dynamic()),
            k => op!(k, a.dynamic(), b.dynamic()),
        },
    };
    (r, m.op(k, ma, mb))
}
fn nd_name<T>() -> &'static str {
    std::any::type_name::<T>().rsplit("::").next().unwrap()
}
fn static_const<'a, 'b, S0: Static + Copy>(m: &mut Model, a: SH<'a, 'b, f64, S0>, ma: &M) -> (H<'a, 'b>, M) {
    let (k, c, left) = (nd::below(4) as u8, C::any(), nd::any::<bool>());
    m.trace.push(format!("const {} {k} {left} {:?}", c.f(), ma.outs));
    let r = model_const(m, k, ma, &c, left);
    (with_const!(k, a, c, left).dynamic(), r)
}
/// connect two handles with statically known channels
fn static_to<'a, 'b, S0: Static + Copy, S1: Static + Copy>(m: &mut Model, first: bool, a: SH<'a, 'b, f64, S0>, ma: &M, b: SH<'a, 'b, f64, S1>, mb: &M)
where
    S1::Inputs: Same<S0::Outputs>,
{
    let fb = first && nd::below(3) == 0;
    let rep = nd::below(3) == 0;
    if !m.can(ma, mb, fb, rep) {
        return;
    }
    m.trace.push(format!("static to fb {fb} rep {rep} {:?} {:?}", ma.outs, mb.ins));
    match (fb, rep, nd::below(4)) {
        (false, false, 0) => drop(a >> b),
        (false, false, 1) => drop(a >> b.dynamic()),
        (false, false, 2) => drop(a.dynamic() >> b.dynamic()),
        (false, false, _) => drop(a.to(b)),
        (false, true, 0 | 1) => drop(a.dynamic().to_replace(b.dynamic())),
        (false, true, _) => drop(a.to_replace(b)),
        (true, false, 0 | 1) => drop(a.dynamic().to_feedback(b.dynamic())),
        (true, false, _) => drop(a.to_feedback(b)),
        (true, true, 0 | 1) => drop(a.dynamic().to_feedback_replace(b.dynamic())),
        (true, true, _) => drop(a.to_feedback_replace(b)),
    }
    m.to(ma, mb, fb, rep);
}
fn static_out<'a, 'b, S: Static + Copy>(m: &mut Model, a: SH<'a, 'b, f64, S>, ma: &M)
where
    S::Outputs: Same<U2>,
    U2: Same<S::Outputs>,
{
    let rep = nd::below(3) == 0;
    if nd::any() {
        let ch = [nd::below(4), nd::below(4)];
        if m.can_out(ma, &ch, rep) {
            m.trace.push(format!("static out {:?} {ch:?} {rep}", ma.outs));
            let c = [ch[0] as u16, ch[1] as u16];
            if rep { a.to_graph_out_channels_replace(c) } else { a.to_graph_out_channels(c) }
            m.to_out(ma, &ch, rep);
        }
    } else if m.can_out(ma, &[0, 1], rep) {
        m.trace.push(format!("static out {:?} {rep}", ma.outs));
        if rep { a.to_graph_out_replace() } else { a.to_graph_out() }
        m.to_out(ma, &[0, 1], rep);
    }
}
fn pick<T: Clone>(v: &[T]) -> Option<T> {
    if v.is_empty() { None } else { Some(v[nd::below(v.len())].clone()) }
}
fn session(g: &GraphEdit<f64>, m: &mut Model, first: bool, steps: usize) {
    let mut pool: P = vec![];
    let mut s1: Vec<(SH<f64, Handle3<Src<U1>>>, M)> = vec![];
    let mut s2: Vec<(SH<f64, Handle3<Src<U2>>>, M)> = vec![];
    let mut p1: Vec<(SH<f64, Handle3<Pass<U1>>>, M)> = vec![];
    let mut p2: Vec<(SH<f64, Handle3<Pass<U2>>>, M)> = vec![];
    let mut links: Vec<(SH<f64, Handle3<WrArParams<Link>>>, M, usize)> = vec![];
    // what was made in an earlier session
    for s in 0..m.sinks.len() {
        if m.sinks[s].ins.is_empty() || m.sinks[s].name.as_deref() == Some("link") {
            continue;
        }
        let id = m.sinks[s].id;
        let h = match &m.sinks[s].name {
            Some(n) if nd::any() => {
                let h = g.handle_from_name(n.as_str()).expect("handle by name");
                assert!(h.id() == id, "the handle of {n} is another node");
                h
            }
            _ => g.handle(id).expect("handle by id"),
        };
        let n = m.sinks[s].ins.len();
        // the expressions of its outputs already exist
        let outs: Vec<X> = (0..n).map(|c| m.ex.iter().position(|e| matches!(e, E::Sink(a, b) if *a == s && *b == c)).unwrap()).collect();
        pool.push((h.to_channels_handle(), M { outs, ins: (0..n).map(|c| (s, c)).collect() }));
    }
    for (id, name, ms) in m.srcs.clone() {
        let h = match name {
            Some(n) if nd::any() => {
                let h = g.handle_from_name(n.as_str()).expect("handle by name");
                assert!(h.id() == id, "the handle of {n} is another node");
                h
            }
            _ => g.handle(id).expect("handle by id"),
        };
        pool.push((h.to_channels_handle(), ms));
    }
    assert!(g.handle_from_name("there is no such node").is_none());
    for _ in 0..steps {
        match nd::below(24) {
            0 | 1 => {
                // sources
                let (v, d) = ([m.value(), m.value(), m.value()], m.value());
                let n = 1 + nd::below(3);
                let outs: Vec<X> = (0..n).map(|c| m.e(E::Src { v: v[c], d, born: m.clock })).collect();
                let ms = M { outs, ins: vec![] };
                let name = if nd::any() { Some(format!("s{}", m.ex.len())) } else { None };
                m.trace.push(format!("src {n} {:?}", ms.outs));
                let id = match n {
                    1 => {
                        let mut h = g.push(Src::<U1> { v, d, t: 0, p: PhantomData });
                        if let Some(n) = &name {
                            h = h.name(n.as_str());
                        }
                        s1.push((h, ms.clone()));
                        pool.push((h.dynamic().to_channels_handle(), ms.clone()));
                        h.id()
                    }
                    2 => {
                        let h = g.push(Src::<U2> { v, d, t: 0, p: PhantomData });
                        if let Some(n) = &name {
                            let _ = h.dynamic().name(n.as_str());
                        }
                        s2.push((h, ms.clone()));
                        pool.push((h.dynamic().to_channels_handle(), ms.clone()));
                        h.id()
                    }
                    _ => {
                        let mut h = g.push(Src::<U3> { v, d, t: 0, p: PhantomData });
                        if let Some(n) = &name {
                            h = h.name(n.as_str());
                        }
                        pool.push((h.dynamic().to_channels_handle(), ms.clone()));
                        h.id()
                    }
                };
                m.srcs.push((id, name, ms));
            }
            2 | 3 | 4 => {
                // sinks
                let s = m.sinks.len();
                let k = m.value();
                let kind = nd::below(3);
                let n = if kind == 1 { 2 } else { 1 };
                let outs: Vec<X> = (0..n).map(|c| m.e(E::Sink(s, c))).collect();
                let ms = M { outs, ins: if kind == 2 { vec![] } else { (0..n).map(|c| (s, c)).collect() } };
                m.trace.push(format!("sink {s} kind {kind} {:?}", ms.outs));
                let name = format!("p{s}");
                let id = match kind {
                    0 => {
                        let h = g.push(Pass::<U1> { k, p: PhantomData }).name(name.as_str());
                        p1.push((h, ms.clone()));
                        pool.push((h.dynamic().to_channels_handle(), ms));
                        h.id()
                    }
                    1 => {
                        let h = g.push(Pass::<U2> { k, p: PhantomData }).name(name.as_str());
                        p2.push((h, ms.clone()));
                        pool.push((h.dynamic().to_channels_handle(), ms));
                        h.id()
                    }
                    _ => {
                        let h = g.push(Link { k, b: 0.0 }.ar_params());
                        pool.push((h.dynamic().to_channels_handle(), ms.clone()));
                        links.push((h, ms, s));
                        h.id()
                    }
                };
                m.sinks.push(SinkM { id, name: Some(if kind == 2 { "link".into() } else { name }), k, ins: vec![vec![]; n] });
            }
            5 | 6 => {
                // dynamic arithmetic
                let (Some((a, ma)), Some((b, mb))) = (pick(&pool), pick(&pool)) else { continue };
                if ma.outs.len() != mb.outs.len() {
                    continue;
                }
                let k = nd::below(5) as u8;
                m.trace.push(format!("dyn {k} {:?} {:?}", ma.outs, mb.outs));
                let r = m.op(k, &ma, &mb);
                let h = match k {
                    4 => a.pow(b),
                    k => op!(k, a, b),
                };
                pool.push((h, r));
            }
            7 => {
                let Some((a, ma)) = pick(&pool) else { continue };
                let (k, c, left) = (nd::below(4) as u8, C::any(), nd::any::<bool>());
                m.trace.push(format!("dyn const {} {k} {left} {:?}", c.f(), ma.outs));
                let r = model_const(m, k, &ma, &c, left);
                pool.push((with_const!(k, a, c, left), r));
            }
            8 | 9 => {
                let Some((a, ma)) = pick(&s2) else { continue };
                pool.push(match nd::below(5) {
                    0 => {
                        let Some((b, mb)) = pick(&s2) else { continue };
                        static_ops(m, a, &ma, b, &mb)
                    }
                    1 => {
                        let Some((b, mb)) = pick(&p2) else { continue };
                        static_ops(m, a, &ma, b, &mb)
                    }
                    2 => {
                        let (Some((b, mb)), Some((c, mc))) = (pick(&s1), pick(&p1)) else { continue };
                        let ms = M { outs: vec![mb.outs[0], mc.outs[0]], ins: mc.ins.clone() };
                        static_ops(m, a, &ma, b | c, &ms)
                    }
                    3 => {
                        let ch = [nd::below(2), nd::below(2)];
                        let ms = M { outs: vec![ma.outs[ch[0]], ma.outs[ch[1]]], ins: vec![] };
                        static_ops(m, a.out([ch[0] as u16, ch[1] as u16]), &ms, a, &ma)
                    }
                    _ => static_const(m, a, &ma),
                });
            }
            10 => {
                // stacks and selections
                let (Some((a, ma)), Some((b, mb))) = (pick(&pool), pick(&pool)) else { continue };
                if ma.outs.len() + mb.outs.len() > 6 {
                    continue;
                }
                m.trace.push(format!("stack {ma:?} {mb:?}"));
                let ms = M { outs: [&ma.outs[..], &mb.outs].concat(), ins: [&ma.ins[..], &mb.ins].concat() };
                pool.push((if nd::any() { a | b } else { a.stack(b) }, ms));
            }
            11 => {
                let (Some((a, ma)), Some((b, mb))) = (pick(&p1), pick(&s2)) else { continue };
                m.trace.push(format!("stack static/dynamic {ma:?} {mb:?}"));
                let ms = M { outs: [&ma.outs[..], &mb.outs].concat(), ins: ma.ins.clone() };
                let sm = M { outs: [&mb.outs[..], &ma.outs].concat(), ins: ma.ins.clone() };
                pool.push(match nd::below(4) {
                    0 => (a | b.dynamic(), ms),
                    1 => (b.dynamic() | a, sm),
                    2 => ((a | b).dynamic(), ms),
                    _ => (b.stack(a).dynamic(), sm),
                });
            }
            12 => {
                let Some((a, ma)) = pick(&pool) else { continue };
                if ma.outs.is_empty() {
                    continue;
                }
                let c: Vec<usize> = (0..3).map(|_| nd::below(ma.outs.len())).collect();
                m.trace.push(format!("out {c:?} of {:?}", ma.outs));
                pool.push(if nd::any() {
                    (a.out([c[0] as u16, c[1] as u16, c[2] as u16]), M { outs: c.iter().map(|c| ma.outs[*c]).collect(), ins: vec![] })
                } else {
                    (a.out(c[0] as u16), M { outs: vec![ma.outs[c[0]]], ins: vec![] })
                });
            }
            13 | 14 => {
                let (Some((a, ma)), Some((b, mb))) = (pick(&pool), pick(&pool)) else { continue };
                let fb = first && nd::below(3) == 0;
                let rep = nd::below(3) == 0;
                if !m.can(&ma, &mb, fb, rep) {
                    continue;
                }
                m.trace.push(format!("to fb {fb} rep {rep} {:?} {:?}", ma.outs, mb.ins));
                match (fb, rep, nd::below(3)) {
                    (false, false, 0) => drop(a >> b),
                    (false, false, 1) => drop(a.to(b)),
                    (false, false, _) => assert!(a.try_to(b).is_ok()),
                    (false, true, _) => drop(a.to_replace(b)),
                    (true, false, _) => drop(a.to_feedback(b)),
                    (true, true, _) => drop(a.to_feedback_replace(b)),
                }
                m.to(&ma, &mb, fb, rep);
            }
            15 | 16 => {
                // connections of static handles
                match nd::below(6) {
                    0 => {
                        let (Some((a, ma)), Some((b, mb))) = (pick(&s2), pick(&p2)) else { continue };
                        static_to(m, first, a, &ma, b, &mb);
                    }
                    1 => {
                        let (Some((a, ma)), Some((b, mb))) = (pick(&p2), pick(&p2)) else { continue };
                        static_to(m, first, a, &ma, b, &mb);
                    }
                    2 => {
                        let (Some((a, ma)), Some((b, mb)), Some((c, mc))) = (pick(&s2), pick(&p1), pick(&p1)) else { continue };
                        let ms = M { outs: vec![], ins: [&mb.ins[..], &mc.ins].concat() };
                        static_to(m, first, a, &ma, b | c, &ms);
                    }
                    3 => {
                        let (Some((a, ma)), Some((b, mb)), Some((c, mc))) = (pick(&s1), pick(&p1), pick(&p2)) else { continue };
                        let ms = M { outs: [&ma.outs[..], &mb.outs].concat(), ins: mb.ins.clone() };
                        static_to(m, first, a | b, &ms, c, &mc);
                    }
                    4 => {
                        let (Some((a, ma)), Some((b, mb))) = (pick(&s1), pick(&p1)) else { continue };
                        static_to(m, first, a, &ma, b, &mb);
                    }
                    _ => {
                        let ch = [nd::below(2), nd::below(2)];
                        let h = g.from_inputs([ch[0] as u16, ch[1] as u16]).unwrap();
                        let ms = M { outs: ch.map(|c| m.e(E::In(c))).to_vec(), ins: vec![] };
                        let Some((b, mb)) = pick(&p2) else { continue };
                        static_to(m, false, h, &ms, b, &mb);
                    }
                }
            }
            17 => {
                let c = nd::below(4) as u16;
                let Ok(h) = g.from_inputs(c) else {
                    assert!(c >= 2, "no handle of a graph input");
                    continue;
                };
                assert!(c < 2, "a handle of an input that is not there");
                let x = m.e(E::In(c as usize));
                pool.push((h.dynamic(), M { outs: vec![x], ins: vec![] }));
            }
            18 | 19 => {
                // graph outputs
                let Some((a, ma)) = pick(&pool) else { continue };
                let rep = nd::below(3) == 0;
                let ch: Vec<usize> = if nd::any() { (0..4).collect() } else { (0..4).map(|_| nd::below(4)).collect() };
                if ma.outs.len() > 4 || !m.can_out(&ma, &ch, rep) {
                    continue;
                }
                m.trace.push(format!("out {:?} {ch:?} {rep}", ma.outs));
                let c = [ch[0] as u16, ch[1] as u16, ch[2] as u16, ch[3] as u16];
                match (rep, ch == [0, 1, 2, 3] && nd::any()) {
                    (false, true) => a.to_graph_out(),
                    (true, true) => a.to_graph_out_replace(),
                    (false, false) => a.to_graph_out_channels(c),
                    (true, false) => a.to_graph_out_channels_replace(c),
                }
                m.to_out(&ma, &ch, rep);
            }
            20 => match nd::below(3) {
                0 => {
                    let Some((a, ma)) = pick(&s2) else { continue };
                    static_out(m, a, &ma);
                }
                1 => {
                    let Some((a, ma)) = pick(&p2) else { continue };
                    static_out(m, a, &ma);
                }
                _ => {
                    let (Some((a, ma)), Some((b, mb))) = (pick(&s1), pick(&p1)) else { continue };
                    let ms = M { outs: [&ma.outs[..], &mb.outs].concat(), ins: vec![] };
                    static_out(m, a.stack(b), &ms);
                }
            },
            21 => {
                // links of parameters
                let Some((l, _, s)) = pick(&links) else { continue };
                let (x, ok) = match nd::below(3) {
                    0 => {
                        let Some((b, mb)) = pick(&s1) else { continue };
                        if nd::any() { drop(l.link("b", b)) } else { drop(l.dynamic().link(1, b)) }
                        (mb.outs[0], true)
                    }
                    1 => {
                        let Some((b, mb)) = pick(&s2) else { continue };
                        let c = nd::below(2);
                        if nd::any() { drop(l.dynamic().link("b", b.out(c as u16))) } else { drop(l.link(1, b.out(c as u16))) }
                        (mb.outs[c], true)
                    }
                    _ => {
                        // an input of the graph is not supported: nothing happens
                        let h = g.from_inputs(1).unwrap();
                        if nd::any() { drop(l.dynamic().link("b", h)) } else { drop(l.link(1, h)) }
                        (0, false)
                    }
                };
                if ok {
                    m.trace.push(format!("link {s} {x}"));
                    m.sinks[s].ins[0] = vec![(x, false)];
                }
            }
            22 => {
                let Some((a, ma)) = pick(&pool) else { continue };
                if ma.ins.is_empty() {
                    continue;
                }
                let c = nd::below(ma.ins.len());
                m.trace.push(format!("disconnect input {:?}", ma.ins[c]));
                a.disconnect_input(c as u16);
                let (s, c) = ma.ins[c];
                m.sinks[s].ins[c].clear();
            }
            _ => {
                let c = nd::below(2);
                let x = if nd::any() {
                    let Some((a, ma)) = pick(&s2) else { continue };
                    a.disconnect_output(c as u16);
                    ma.outs[c]
                } else {
                    let Some((a, ma)) = pick(&pool) else { continue };
                    if c >= ma.outs.len() || matches!(m.ex[ma.outs[c]], E::In(_)) {
                        continue;
                    }
                    a.disconnect_output(c as u16);
                    ma.outs[c]
                };
                m.trace.push(format!("disconnect output {x}"));
                // a link keeps the last value
                if m.sinks.iter().any(|s| s.name.as_deref() == Some("link") && s.ins[0].iter().any(|y| y.0 == x)) {
                    nd::assume(false);
                }
                m.disconnect(x);
            }
        }
        if let Some((h, ms)) = pool.last() {
            let _ = (h, ms);
        }
    }
}
fn eq(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}

/// records every change of a parameter
struct Rp(Rc<RefCell<Vec<(usize, ParameterValue, u64)>>>);
impl UGen for Rp {
    type Sample = f64;
    type Inputs = U0;
    type Outputs = U1;
    type Parameters = U3;
    fn process(&mut self, _: &mut AudioCtx, _: &mut UGenFlags, _: Frame<f64, U0>) -> Frame<f64, U1> {
        [0.0].into()
    }
    fn param_descriptions() -> NumericArray<&'static str, U3> {
        ["one", "two", "three"].into()
    }
    fn param_hints() -> NumericArray<ParameterHint, U3> {
        [ParameterHint::infinite_float(), ParameterHint::infinite_float(), ParameterHint::Trigger].into()
    }
    fn param_apply(&mut self, ctx: &mut AudioCtx, i: usize, v: ParameterValue) {
        self.0.borrow_mut().push((i, v, ctx.frame_clock()));
    }
}

crate::harnesses! {
    native("up to 3 editing sessions of up to 70 steps, at most 3 channels per node, 2 graph inputs and 4 outputs")
    fn c21_expressions() {
        let bs = [1, 4, 16][nd::below(3)];
        let (mut g, mut ap, _log) = AudioProcessor::<f64>::new::<U2, U4>(AudioProcessorOptions { block_size: bs, sample_rate: 48000, ring_buffer_size: 100, ..Default::default() });
        let mut m = Model { ex: vec![], sinks: vec![], outs: vec![vec![]; 4], prev: HashMap::new(), clock: 0, bs, inputs: vec![], srcs: vec![], vals: 0, trace: vec![] };
        for s in 0..1 + nd::below(3) {
            let steps = 10 + nd::below(60);
            g.edit(|e| session(&e, &mut m, s == 0, steps));
            for _ in 0..1 + nd::below(3) {
                m.inputs = (0..2).map(|c| (0..bs).map(|i| ((m.clock as usize + i) * (c + 1)) as f64 - 7.0).collect()).collect();
                let ins: Vec<&[f64]> = m.inputs.iter().map(|v| &v[..]).collect();
                ap.run(&ins);
                let mut memo = HashMap::new();
                for x in 0..m.ex.len() {
                    m.eval(x, &mut memo);
                }
                let out = &*ap.output_block();
                for c in 0..4 {
                    let l: Vec<(X, bool)> = m.outs[c].iter().map(|x| (*x, false)).collect();
                    let want = m.sum(&l, &mut memo);
                    for i in 0..bs {
                        let got = BlockRead::read(out, c, i);
                        assert!(eq(got, want[i]), "output {c} frame {} is {got} and not {}\n{}\n{:?}\n{:?}", m.clock as usize + i, want[i], m.trace.join("\n"), m.outs, m.ex);
                    }
                }
                m.prev = memo;
                m.clock += bs as u64;
            }
        }
    }
    native("up to 30 changes of 3 parameters of 2 nodes, 60 blocks of up to 16 frames")
    fn c21_parameters() {
        let bs = [1usize, 4, 16][nd::below(3)];
        let sr = 8000u32;
        let (mut g, mut ap, _log) = AudioProcessor::<f64>::new::<U0, U1>(AudioProcessorOptions { block_size: bs, sample_rate: sr, ring_buffer_size: 100, ..Default::default() });
        let logs = [Rc::new(RefCell::new(vec![])), Rc::new(RefCell::new(vec![]))];
        let names = ["one", "two", "three"];
        let mut params: Vec<Vec<Parameter>> = g.edit(|e| {
            let e = &e;
            [0, 1].map(|n| {
                let h = e.push(Rp(logs[n].clone()));
                h.to_graph_out();
                let d = h.dynamic();
                assert!(h.try_param(3).is_none() && h.try_param("four").is_none() && d.try_param(3).is_none() && d.try_param("four").is_none() && h.try_param("").is_none() && d.try_param("on").is_none());
                (0..3).map(|p| match nd::below(4) {
                    0 => h.param(p),
                    1 => h.try_param(names[p]).unwrap(),
                    2 => d.param(p),
                    _ => d.try_param(names[p]).unwrap(),
                }).collect()
            }).to_vec()
        });
        // node, parameter, value, frame
        let mut want: Vec<(usize, usize, ParameterValue, u64)> = vec![];
        let mut clock = 0u64;
        let secs = |n: u64| Seconds::from_samples(n, sr as u64);
        for _ in 0..10 + nd::below(20) {
            if nd::any() {
                let (n, p) = (nd::below(2), nd::below(3));
                let h = &mut params[n][p];
                let x = nd::below(200) as f64;
                let s = if nd::any() { ParameterSmoothing::Linear(x as f32) } else { ParameterSmoothing::None };
                let dist = nd::below(bs * 8) as u64;
                let at = clock + dist;
                let (v, t) = match nd::below(12) {
                    0 => (h.set(x), None).pair(ParameterValue::Float(x)),
                    1 => (h.set_time(x, Time::at(secs(at))), Some(at)).pair(ParameterValue::Float(x)),
                    2 => (h.set_at(x, secs(at)), Some(at)).pair(ParameterValue::Float(x)),
                    3 => (h.set_after(x, secs(dist)), Some(at)).pair(ParameterValue::Float(x)),
                    4 => (h.smooth(s), None).pair(s.into()),
                    5 => (h.smooth_time(s, Time::after(secs(dist))), Some(at)).pair(s.into()),
                    6 => (h.smooth_at(s, secs(at)), Some(at)).pair(s.into()),
                    7 => (h.smooth_after(s, secs(dist)), Some(at)).pair(s.into()),
                    8 => (h.trig(), None).pair(ParameterValue::Trigger),
                    9 => (h.trig_time(Time::at(secs(at))), Some(at)).pair(ParameterValue::Trigger),
                    10 => (h.trig_at(secs(at)), Some(at)).pair(ParameterValue::Trigger),
                    _ => (h.trig_after(secs(dist)), Some(at)).pair(ParameterValue::Trigger),
                };
                want.push((n, p, v, t.unwrap_or(clock) / bs as u64 * bs as u64));
            } else {
                ap.run_without_inputs();
                clock += bs as u64;
            }
        }
        for _ in 0..9 {
            ap.run_without_inputs();
        }
        for n in 0..2 {
            let got = logs[n].borrow();
            let mut w: Vec<_> = want.iter().filter(|w| w.0 == n).map(|w| (w.1, format!("{:?}", w.2), w.3)).collect();
            let mut got: Vec<_> = got.iter().map(|w| (w.0, format!("{:?}", w.1), w.2)).collect();
            w.sort();
            got.sort();
            assert!(w == got, "{got:?} and not {w:?}");
        }
    }
}
trait Pair {
    fn pair(self, v: ParameterValue) -> (ParameterValue, Option<u64>);
}
impl Pair for (Result<(), GraphError>, Option<u64>) {
    fn pair(self, v: ParameterValue) -> (ParameterValue, Option<u64>) {
        assert!(self.0.is_ok());
        (v, self.1)
    }
}
