//! C24: parameters. Every parameter function of a UGen made with `impl_ugen` records how it was called;
//! `UGen::param` and the generated `param_apply`, names, types and hints are checked against the declaration.
use crate::nd;
use crate::probe::ctx;

use knaster_graph::typenum::*;
use knaster_graph::*;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Seen {
    Nothing,
    Float(u64),
    Float32(u32),
    Integer(usize),
    Bool(bool),
    Trigger,
}
#[derive(Default)]
pub struct Log {
    calls: usize,
    which: usize,
    seen: Option<Seen>,
    sr: u32,
}
impl Log {
    fn add(&mut self, which: usize, s: Seen, sr: u32) {
        self.calls += 1;
        self.which = which;
        self.seen = Some(s);
        self.sr = sr;
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ty {
    F,
    F32,
    I,
    B,
    T,
}
/// what a parameter function sees of a value, if it has the right type
fn expected(t: Ty, v: ParameterValue) -> Option<Seen> {
    match (t, v) {
        (Ty::F, ParameterValue::Float(x)) => Some(Seen::Float(x.to_bits())),
        (Ty::F32, ParameterValue::Float(x)) => Some(Seen::Float32((x as f32).to_bits())),
        (Ty::I, ParameterValue::Integer(x)) => Some(Seen::Integer(x.0)),
        (Ty::B, ParameterValue::Bool(x)) => Some(Seen::Bool(x)),
        (Ty::T, ParameterValue::Trigger) => Some(Seen::Trigger),
        _ => None,
    }
}
fn same_ty(a: ParameterType, t: Ty) -> bool {
    matches!((a, t), (ParameterType::Float, Ty::F | Ty::F32) | (ParameterType::Integer, Ty::I) | (ParameterType::Bool, Ty::B) | (ParameterType::Trigger, Ty::T))
}

/// one parameter function of each type and order of arguments
pub struct All<F> {
    log: Log,
    _f: core::marker::PhantomData<F>,
}
#[impl_ugen]
impl<F: Float> All<F> {
    fn make() -> Self {
        All { log: Log::default(), _f: core::marker::PhantomData }
    }
    #[param]
    fn bang(&mut self) {
        self.log.add(0, Seen::Trigger, 0);
    }
    #[param]
    fn pfloat(&mut self, v: PFloat) {
        self.log.add(1, Seen::Float(v.to_bits()), 0);
    }
    #[param(default = 0.25, range = 0.5..=1.5, kind = Q, logarithmic = true)]
    fn double(&mut self, v: f64) {
        self.log.add(2, Seen::Float(v.to_bits()), 0);
    }
    fn helper(&mut self, _v: f64) {
        self.log.add(99, Seen::Nothing, 0);
    }
    #[param(kind = Amplitude)]
    fn single(&mut self, v: f32) {
        self.log.add(3, Seen::Float32(v.to_bits()), 0);
    }
    #[param]
    fn integer(&mut self, v: PInteger) {
        self.log.add(4, Seen::Integer(v.0), 0);
    }
    #[param]
    fn toggle(&mut self, v: bool) {
        self.log.add(5, Seen::Bool(v), 0);
    }
    #[param]
    fn bang_ctx(&mut self, ctx: &mut AudioCtx) {
        self.log.add(6, Seen::Trigger, ctx.sample_rate());
    }
    #[param(range = -1.0..=1.0)]
    fn pfloat_ctx(&mut self, v: PFloat, ctx: &mut AudioCtx) {
        self.log.add(7, Seen::Float(v.to_bits()), ctx.sample_rate());
    }
    #[param(logarithmic = false)]
    fn ctx_double(&mut self, ctx: &AudioCtx, v: f64) {
        self.log.add(8, Seen::Float(v.to_bits()), ctx.sample_rate());
    }
    #[param(default = 7.0)]
    fn ctx_single(&mut self, ctx: &mut AudioCtx, v: f32) {
        self.log.add(9, Seen::Float32(v.to_bits()), ctx.sample_rate());
    }
    #[param(from = Done)]
    fn ctx_integer(&mut self, ctx: &mut AudioCtx, v: PInteger) {
        self.log.add(10, Seen::Integer(v.0), ctx.sample_rate());
    }
    #[param]
    fn toggle_ctx(&mut self, v: bool, ctx: &mut AudioCtx) {
        self.log.add(11, Seen::Bool(v), ctx.sample_rate());
    }
    fn process(&mut self, _input: [F; 1]) -> [F; 1] {
        _input
    }
}
const ALL: [(&str, Ty, bool); 12] = [
    ("bang", Ty::T, false),
    ("pfloat", Ty::F, false),
    ("double", Ty::F, false),
    ("single", Ty::F32, false),
    ("integer", Ty::I, false),
    ("toggle", Ty::B, false),
    ("bang_ctx", Ty::T, true),
    ("pfloat_ctx", Ty::F, true),
    ("ctx_double", Ty::F, true),
    ("ctx_single", Ty::F32, true),
    ("ctx_integer", Ty::I, true),
    ("toggle_ctx", Ty::B, true),
];
fn any_value() -> ParameterValue {
    match nd::below(5) {
        0 => ParameterValue::Float(nd::any()),
        1 => ParameterValue::Trigger,
        2 => ParameterValue::Integer(PInteger(nd::any::<u64>() as usize)),
        3 => ParameterValue::Bool(nd::any()),
        _ => ParameterValue::Smoothing(ParameterSmoothing::None, Rate::BlockRate),
    }
}
fn value_ty(v: ParameterValue) -> Ty {
    match v {
        ParameterValue::Float(_) | ParameterValue::Smoothing(..) => Ty::F,
        ParameterValue::Trigger => Ty::T,
        ParameterValue::Integer(_) => Ty::I,
        ParameterValue::Bool(_) => Ty::B,
    }
}
/// the result of setting parameter `i` (if there is one) to `v`
fn check_set(u: &All<f64>, i: Option<usize>, by_name: bool, v: ParameterValue, r: Result<(), ParameterError>) {
    match i {
        None => {
            assert!(u.log.calls == 0, "no parameter was set");
            if by_name {
                assert!(matches!(r, Err(ParameterError::DescriptionNotFound("nothing"))), "a name which no parameter has is an error");
            } else {
                assert!(matches!(r, Err(ParameterError::ParameterIndexOutOfBounds)), "an index which no parameter has is an error");
            }
        }
        Some(i) => {
            let (_, t, with_ctx) = ALL[i];
            match expected(t, v) {
                Some(e) => {
                    assert!(r.is_ok(), "a parameter can be set to a value of its type");
                    assert!(u.log.calls == 1 && u.log.which == i, "exactly the function of the parameter is called, once");
                    assert!(u.log.seen == Some(e), "with the value it was set to");
                    assert!(!with_ctx || u.log.sr == 48000, "with the context");
                }
                None => {
                    assert!(u.log.calls == 0, "a value of another type changes nothing");
                    assert!(matches!(r, Err(ParameterError::WrongParameterType)), "a value of another type is an error");
                }
            }
        }
    }
}
/// hint builders: what one call changes. Any sequence of calls follows by induction, as the hint they start from is arbitrary.
fn any_hint() -> PFloatHint {
    let mut h = PFloatHint::new();
    h.default = if nd::any() { Some(nd::any()) } else { None };
    h.range = match nd::below(6) {
        0 => None,
        1 => Some(FloatParameterRange::Range(nd::any(), nd::any())),
        2 => Some(FloatParameterRange::Nyquist),
        3 => Some(FloatParameterRange::Infinite),
        4 => Some(FloatParameterRange::PositiveInfinite),
        _ => Some(FloatParameterRange::NegativeInfinite),
    };
    h.kind = any_kind();
    h.is_logarithmic = if nd::any() { Some(nd::any()) } else { None };
    h
}
fn any_kind() -> Option<FloatParameterKind> {
    match nd::below(5) {
        0 => None,
        1 => Some(FloatParameterKind::Amplitude),
        2 => Some(FloatParameterKind::Frequency),
        3 => Some(FloatParameterKind::Q),
        _ => Some(FloatParameterKind::Seconds),
    }
}
fn bits(x: Option<f64>) -> Option<u64> {
    x.map(|x| x.to_bits())
}
/// 0: none, 1: nyquist, 2: infinite, 3: positive, 4: negative, 5: range
fn range_key(r: Option<FloatParameterRange>) -> (u8, u64, u64) {
    match r {
        None => (0, 0, 0),
        Some(FloatParameterRange::Nyquist) => (1, 0, 0),
        Some(FloatParameterRange::Infinite) => (2, 0, 0),
        Some(FloatParameterRange::PositiveInfinite) => (3, 0, 0),
        Some(FloatParameterRange::NegativeInfinite) => (4, 0, 0),
        Some(FloatParameterRange::Range(a, b)) => (5, a.to_bits(), b.to_bits()),
    }
}
type HintKey = (Option<u64>, (u8, u64, u64), Option<FloatParameterKind>, Option<bool>);
fn hint_key(h: &PFloatHint) -> HintKey {
    (bits(h.default), range_key(h.range), h.kind, h.is_logarithmic)
}
fn is(h: ParameterHint, k: HintKey) -> bool {
    matches!(h, ParameterHint::Float(f) if hint_key(&f) == k) && h.float_hint().is_some_and(|f| hint_key(f) == k) && h.integer_hint().is_none() && matches!(h.ty(), ParameterType::Float)
}
const NO_HINT: HintKey = (None, (0, 0, 0), None, None);

/// outputs every input times 10 and the frame count, in frames and blocks, with arrays of every small size
macro_rules! channels {
    ($($m:ident $name:ident $i:tt $o:tt),* $(,)?) => {$(
        mod $m {
            use super::*;
            pub struct $name<F> {
                pub k: F,
                pub sr: u32,
                pub bs: usize,
                pub blocks: usize,
            }
            #[impl_ugen]
            impl<F: Float> $name<F> {
                #[init]
                fn prepare(&mut self, sr: u32, bs: usize) {
                    self.sr = sr;
                    self.bs = bs;
                }
                #[process]
                fn one(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, input: [F; $i]) -> [F; $o] {
                    self.k += F::ONE;
                    if self.k == F::new(3.0) {
                        flags.mark_done(2);
                        flags.mark_remove_self(ctx);
                    }
                    let mut r = [F::ZERO; $o];
                    for o in 0..$o {
                        r[o] = F::new(1000.0 * (o + 1) as f64) + self.k;
                        for i in 0..$i {
                            r[o] += input[i] * F::new((i + 1) as f64);
                        }
                    }
                    r
                }
                #[process_block]
                fn many(&mut self, flags: &mut UGenFlags, mut output: [&mut [F]; $o], input: [&[F]; $i], ctx: &mut AudioCtx) {
                    self.blocks += 1;
                    for f in 0..ctx.frames_to_process() {
                        let mut x = [F::ZERO; $i];
                        for i in 0..$i {
                            x[i] = input[i][f];
                        }
                        let y = self.one(ctx, flags, x);
                        for o in 0..$o {
                            output[o][f] = y[o];
                        }
                    }
                }
            }
            pub fn check() {
                let mut u = $name::<f64> { k: 0.0, sr: 0, bs: 0, blocks: 0 };
                assert!(<$name<f64> as UGen>::Inputs::USIZE == $i && <$name<f64> as UGen>::Outputs::USIZE == $o && <$name<f64> as UGen>::Parameters::USIZE == 0, "as many channels as the process function");
                let (sr, n): (u32, usize) = (nd::range_u32(1, 192000), 1 + nd::below(6));
                UGen::init(&mut u, sr, n);
                assert!(u.sr == sr && u.bs == n, "init reaches the init function");
                let mut c = ctx(sr, n);
                let mut flags = UGenFlags::new();
                let want = |k: f64, x: &[f64], o: usize| 1000.0 * (o + 1) as f64 + k + x.iter().enumerate().map(|(i, v)| v * (i + 1) as f64).sum::<f64>();
                let mut x = [0.0; $i];
                for v in x.iter_mut() {
                    *v = nd::below(100) as f64;
                }
                let y = UGen::process(&mut u, &mut c, &mut flags, x.into());
                for o in 0..$o {
                    assert!(y[o] == want(1.0, &x, o), "process passes every channel on");
                }
                let mut ins = [[0.0; 6]; 4];
                let mut bi = VecBlock::<f64>::new($i.max(1), n);
                for i in 0..$i {
                    for f in 0..n {
                        ins[i][f] = nd::below(100) as f64;
                        bi.write(ins[i][f], i, f);
                    }
                }
                let mut bo = VecBlock::<f64>::new($o.max(1), n);
                UGen::process_block(&mut u, &mut c, &mut flags, &bi, &mut bo);
                assert!(u.blocks == 1, "the process_block function is used");
                for f in 0..n {
                    let x: Vec<f64> = (0..$i).map(|i| ins[i][f]).collect();
                    for o in 0..$o {
                        assert!(BlockRead::read(&bo, o, f) == want(f as f64 + 2.0, &x, o), "process_block passes every channel and frame on");
                    }
                }
                assert!(flags.done() == (n >= 2).then_some(2), "flags reach the caller");
            }
        }
    )*};
}
channels!(m00 C00 0 0, m01 C01 0 1, m02 C02 0 2, m03 C03 0 3, m10 C10 1 0, m11 C11 1 1, m12 C12 1 2, m13 C13 1 3, m20 C20 2 0, m21 C21 2 1, m22 C22 2 2, m23 C23 2 3, m30 C30 3 0, m31 C31 3 1, m32 C32 3 2, m33 C33 3 3, m44 C44 4 4);

/// an enum sent as an integer: every value survives, anything else is the default
fn round_trip<T: PIntegerConvertible + Default + Copy + core::fmt::Debug + PartialEq>(all: &[T], n: usize) {
    let i = nd::any::<u64>() as usize;
    let i = if nd::any() { i % 16 } else { i };
    let t: T = PInteger(i).into();
    if i < all.len() {
        assert!(t == all[i], "a number stands for the variant with that number");
        let p: PInteger = t.into();
        assert!(p.0 == i, "and back");
        let v = ParameterValue::from(t);
        assert!(v.integer().is_some_and(|p| p.0 == i) && matches!(v.ty(), ParameterType::Integer), "a variant is sent as its number");
        assert!(T::pinteger_descriptions(PInteger(i)).is_some(), "every variant has a description");
    } else {
        assert!(t == T::default(), "a number of no variant is the default");
        assert!(T::pinteger_descriptions(PInteger(i)).is_none(), "and has no description");
    }
    assert!(all.len() == n && T::pinteger_range().0.0 == 0 && T::pinteger_range().1.0 == n, "the range is the variants'");
    match ParameterHint::from_pinteger_enum::<T>() {
        h @ ParameterHint::Integer(k) => {
            assert!(k.default.map(|d| d.0) == Some(T::default().into().0) && k.range.0.0 == 0 && k.range.1.0 == n, "the hint tells default and range");
            assert!(k.description(PInteger(i)) == T::pinteger_descriptions(PInteger(i)), "and the descriptions");
            assert!(matches!(h.ty(), ParameterType::Integer) && h.integer_hint().is_some() && h.float_hint().is_none(), "it is an integer");
        }
        _ => panic!("an enum is an integer parameter"),
    }
}
const DONES: [Done; 3] = [Done::None, Done::FreeSelf, Done::FreeParent];

/// what a UGen says of its parameters is consistent, and setting by name and by index are the same
#[cfg(not(kani))]
fn consistent<U: UGen>() {
    let n = U::Parameters::USIZE;
    let (names, types, hints) = (U::param_descriptions(), U::param_types(), U::param_hints());
    for i in 0..n {
        assert!(core::mem::discriminant(&types[i]) == core::mem::discriminant(&hints[i].ty()), "types and hints agree");
        assert!(!names[i].is_empty() && (0..i).all(|j| names[j] != names[i]), "every parameter has a name of its own");
        match hints[i] {
            ParameterHint::Float(f) => {
                if let (Some(d), Some(FloatParameterRange::Range(a, b))) = (f.default, f.range) {
                    assert!(a <= d && d <= b, "the default is in the range");
                }
            }
            ParameterHint::Integer(k) => {
                assert!(k.range.0.0 <= k.range.1.0 && k.default.is_none_or(|d| k.range.0.0 <= d.0 && d.0 <= k.range.1.0), "the default is in the range");
            }
            _ => {}
        }
    }
}

crate::harnesses! {
    complete ("every index, every value of every type")
    #[kani::unwind(16)]
    fn c24_set_by_index() {
        let mut u = All::<f64>::make();
        let mut c = ctx(48000, 8);
        let i = nd::any::<u64>() as usize;
        let i = if nd::any() { i % 16 } else { i };
        let v = any_value();
        nd::assume(!(i < 12 && matches!(v, ParameterValue::Smoothing(..)) && matches!(ALL[i].1, Ty::F | Ty::F32)));
        let r = UGen::param(&mut u, &mut c, i, v);
        check_set(&u, (i < 12).then_some(i), false, v, r);
        crate::reach!(i == 11, "last parameter");
    }
    native ("every parameter name and one no parameter has, values of every type")
    fn c24_set_by_name() {
        for i in 0..13 {
            let mut u = All::<f64>::make();
            let mut c = ctx(48000, 8);
            let v = any_value();
            if i < 12 && matches!(v, ParameterValue::Smoothing(..)) && matches!(ALL[i].1, Ty::F | Ty::F32) {
                continue;
            }
            let r = UGen::param(&mut u, &mut c, if i < 12 { ALL[i].0 } else { "nothing" }, v);
            check_set(&u, (i < 12).then_some(i), true, v, r);
            core::mem::forget((u, c));
        }
    }
    complete ("every index; a smoothing setting that no wrapper took")
    #[kani::unwind(16)]
    fn c24_smoothing_without_wrapper() {
        let mut u = All::<f64>::make();
        let mut c = ctx(48000, 8);
        let i = nd::below(16);
        UGen::param_apply(&mut u, &mut c, i, ParameterValue::Smoothing(ParameterSmoothing::Linear(nd::any()), if nd::any() { Rate::BlockRate } else { Rate::AudioRate }));
        assert!(u.log.calls == 0, "smoothing without a wrapper does nothing");
    }
    complete ("every index, every value of the declared type")
    #[kani::unwind(16)]
    fn c24_apply() {
        let mut u = All::<f64>::make();
        let mut c = ctx(48000, 8);
        let i = nd::below(16);
        let v = any_value();
        nd::assume(i >= 12 || expected(ALL[i].1, v).is_some());
        UGen::param_apply(&mut u, &mut c, i, v);
        if i < 12 {
            check_set(&u, Some(i), false, v, Ok(()));
        } else {
            assert!(u.log.calls == 0, "an index which no parameter has changes nothing");
        }
    }
    complete ("every value")
    fn c24_values() {
        let v = any_value();
        let f = v.float();
        assert!(f.is_some() == matches!(v, ParameterValue::Float(_)) && v.integer().is_some() == matches!(v, ParameterValue::Integer(_)) && v.bool().is_some() == matches!(v, ParameterValue::Bool(_)), "a value has one type");
        assert!(same_ty(v.ty(), value_ty(v)), "a value knows its type");
        match v {
            ParameterValue::Float(x) => assert!(f.unwrap().to_bits() == x.to_bits() && v.f::<f64>().unwrap().to_bits() == x.to_bits() && v.f::<f32>().unwrap().to_bits() == (x as f32).to_bits(), "a number is itself"),
            ParameterValue::Integer(x) => assert!(v.integer().unwrap().0 == x.0, "an integer is itself"),
            ParameterValue::Bool(x) => assert!(v.bool() == Some(x), "a boolean is itself"),
            _ => assert!(v.f::<f32>().is_none() && v.f::<f64>().is_none(), "neither triggers nor smoothing are numbers"),
        }
    }
    complete ("every value")
    fn c24_conversions() {
        let (a, b, c, d): (f32, f64, bool, u64) = (nd::any(), nd::any(), nd::any(), nd::any());
        assert!(matches!(ParameterValue::from(a), ParameterValue::Float(x) if x.to_bits() == (a as f64).to_bits() || a.is_nan()), "f32");
        assert!(matches!(ParameterValue::from(b), ParameterValue::Float(x) if x.to_bits() == b.to_bits()), "f64");
        assert!(matches!(ParameterValue::from(c), ParameterValue::Bool(x) if x == c), "bool");
        assert!(matches!(ParameterValue::from(d as usize), ParameterValue::Integer(x) if x.0 == d as usize), "usize");
        assert!(matches!(ParameterValue::from(PTrigger), ParameterValue::Trigger), "trigger");
        assert!(matches!(ParameterValue::from(ParameterSmoothing::Linear(a)), ParameterValue::Smoothing(ParameterSmoothing::Linear(x), Rate::BlockRate) if x.to_bits() == a.to_bits()), "smoothing");
        assert!(matches!(ParameterValue::from((ParameterSmoothing::Linear(a), Rate::AudioRate)), ParameterValue::Smoothing(ParameterSmoothing::Linear(x), Rate::AudioRate) if x.to_bits() == a.to_bits()), "smoothing at a rate");
        assert!(matches!(Param::from(d as usize), Param::Index(x) if x == d as usize) && matches!(Param::from("x"), Param::Desc("x")), "a parameter is an index or a name");
        assert!(range_key(Some((b..=a as f64).into())) == (5, b.to_bits(), (a as f64).to_bits()), "a..=b");
        assert!(range_key(Some((b..).into())) == (5, b.to_bits(), f64::MAX.to_bits()), "a..");
        assert!(range_key(Some((..b).into())) == (5, f64::MIN.to_bits(), b.to_bits()) && range_key(Some((..=b).into())) == (5, f64::MIN.to_bits(), b.to_bits()), "..b");
    }
    complete ("every hint, every call of a builder with every argument; sequences of calls follow, as the hint they start from is arbitrary")
    fn c24_hint_builders() {
        let h = any_hint();
        let old = hint_key(&h);
        let (x, y): (f64, f64) = (nd::any(), nd::any());
        let mut want = old;
        let new = match nd::below(11) {
            0 => { want.0 = Some(x.to_bits()); h.default(x) }
            1 => { want.1 = (5, x.to_bits(), y.to_bits()); h.range(x..=y) }
            2 => { want.1 = (5, x.to_bits(), y.to_bits()); h.minmax(x, y) }
            3 => { want.1 = (2, 0, 0); h.infinite() }
            4 => { want.1 = (5, 0, 1.0f64.to_bits()); h.unipolar() }
            5 => { want.1 = (3, 0, 0); h.positive_infinite() }
            6 => { want.1 = (4, 0, 0); h.negative_infinite() }
            7 => { want.1 = (1, 0, 0); h.nyquist() }
            8 => { want.3 = Some(y > 0.0); h.logarithmic(y > 0.0) }
            9 => { want.2 = Some(FloatParameterKind::Q); h.kind(FloatParameterKind::Q) }
            _ => { want.1 = (2, 0, 0); h.range(FloatParameterRange::Infinite) }
        };
        assert!(hint_key(&new) == want, "a builder call sets its field and no other");
        assert!(is(ParameterHint::Float(new), want), "and so the hint it makes");
        assert!(hint_key(&PFloatHint::new()) == NO_HINT && hint_key(&<PFloatHint as Default>::default()) == NO_HINT, "a new hint says nothing");
    }
    complete ("every hint constructor")
    fn c24_hints() {
        let r = |k| (None, k, None, None);
        #[allow(deprecated)]
        let ny = ParameterHint::nyquist();
        assert!(is(ny, r((1, 0, 0))) && is(ParameterHint::infinite_float(), r((2, 0, 0))) && is(ParameterHint::positive_infinite_float(), r((3, 0, 0))) && is(ParameterHint::negative_infinite_float(), r((4, 0, 0))) && is(ParameterHint::one(), r((5, 0, 1.0f64.to_bits()))) && is(ParameterHint::default(), NO_HINT), "constructors make the hint they are named after");
        assert!(matches!(ParameterHint::boolean(), ParameterHint::Bool) && matches!(ParameterHint::boolean().ty(), ParameterType::Bool) && matches!(ParameterHint::Trigger.ty(), ParameterType::Trigger), "booleans and triggers");
        let (a, b): (u64, u64) = (nd::any(), nd::any());
        match ParameterHint::new_integer((PInteger(a as usize), PInteger(b as usize)), |h| h) {
            h @ ParameterHint::Integer(k) => assert!(k.range.0.0 == a as usize && k.range.1.0 == b as usize && k.default.is_none() && k.description(PInteger(a as usize)).is_none() && matches!(h.ty(), ParameterType::Integer) && h.float_hint().is_none() && h.integer_hint().is_some_and(|k| k.range.0.0 == a as usize), "integers"),
            _ => panic!("an integer hint is one"),
        }
    }
    complete ("every number, every variant")
    #[kani::unwind(26)]
    fn c24_done_numbers() {
        use knaster_core_dsp::polyblep::Waveform::{self as W, *};
        use knaster_core_dsp::svf::SvfFilterType as T;
        match nd::below(3) {
            0 => round_trip(&DONES, 3),
            1 => round_trip::<W>(&[Sawtooth, Sine, Cosine, Triangle, Square, Rectangle, Ramp, ModifiedTriangle, ModifiedSquare, HalfWaveRectifiedSine, FullWaveRectifiedSine, TriangularPulse, TrapezoidFixed, TrapezoidVariable], 14),
            _ => round_trip(&[T::Low, T::High, T::Band, T::Notch, T::Peak, T::All, T::Bell, T::LowShelf, T::HighShelf], 9),
        }
    }
    native ("declarations of one UGen with a parameter function of every type and order of arguments")
    fn c24_declarations() {
        let (names, types, hints) = (All::<f64>::param_descriptions(), All::<f64>::param_types(), All::<f64>::param_hints());
        assert!(<All<f64> as UGen>::Parameters::USIZE == ALL.len(), "as many parameters as functions");
        let q = |d: Option<f64>, r, k, l| (bits(d), r, k, l);
        for i in 0..ALL.len() {
            assert!(names[i] == ALL[i].0, "named after the functions, in their order");
            assert!(same_ty(types[i], ALL[i].1) && same_ty(hints[i].ty(), ALL[i].1), "typed after the functions");
        }
        assert!(is(hints[1], NO_HINT), "no hint");
        assert!(is(hints[2], q(Some(0.25), (5, 0.5f64.to_bits(), 1.5f64.to_bits()), Some(FloatParameterKind::Q), Some(true))), "all hints");
        assert!(is(hints[3], q(None, (0, 0, 0), Some(FloatParameterKind::Amplitude), None)), "kind");
        assert!(is(hints[7], q(None, (5, (-1.0f64).to_bits(), 1.0f64.to_bits()), None, None)), "range");
        assert!(is(hints[8], NO_HINT), "not logarithmic");
        assert!(is(hints[9], q(Some(7.0), (0, 0, 0), None, None)), "default");
        assert!(hints[4].integer_hint().is_some_and(|h| h.range.0.0 == 0 && h.range.1.0 == usize::MAX && h.default.is_none()), "any integer");
        assert!(hints[10].integer_hint().is_some_and(|h| h.range.0.0 == 0 && h.range.1.0 == 3 && h.default.is_some_and(|d| d.0 == 0) && h.description(PInteger(1)) == Some("FreeSelf")), "an enum");
    }
    native ("every number of channels up to 3 in and out and 4 by 4, blocks up to 6 frames, sampled values")
    fn c24_channels() {
        match nd::below(17) {
            0 => m00::check(), 1 => m01::check(), 2 => m02::check(), 3 => m03::check(),
            4 => m10::check(), 5 => m11::check(), 6 => m12::check(), 7 => m13::check(),
            8 => m20::check(), 9 => m21::check(), 10 => m22::check(), 11 => m23::check(),
            12 => m30::check(), 13 => m31::check(), 14 => m32::check(), 15 => m33::check(),
            _ => m44::check(),
        }
    }
    native ("the UGens and enums of the library")
    fn c24_library() {
        use knaster_core_dsp as d;
        consistent::<d::osc::SinWt<f32>>();
        consistent::<d::osc::SinNumeric<f32>>();
        consistent::<d::osc::Phasor<f64>>();
        consistent::<d::osc::OscWt<f32>>();
        consistent::<d::polyblep::PolyBlep<f32>>();
        consistent::<d::svf::SvfFilter<f32>>();
        consistent::<d::pan::Pan2<f32>>();
        consistent::<d::onepole::OnePoleLpf<f32>>();
        consistent::<d::onepole::OnePoleHpf<f32>>();
        consistent::<d::envelopes::EnvAsr<f32>>();
        consistent::<d::envelopes::EnvAr<f32>>();
        consistent::<d::envelopes::Envelope<f32>>();
        consistent::<d::delay::SampleDelay<f32>>();
        consistent::<d::delay::AllpassDelay<f32>>();
        consistent::<d::delay::AllpassFeedbackDelay<f32>>();
        consistent::<d::noise::RandomLin<f32>>();
        consistent::<d::noise::WhiteNoise<f32>>();
        consistent::<d::util::DoneOnTrig<f32>>();
        consistent::<d::util::Constant<f32>>();
        consistent::<d::buffer::BufferReader<f32, U2>>();
        consistent::<d::dynamics::SafetyLimiter<f32>>();
        consistent::<d::math::MathUGen<f32, U2, d::math::Add>>();
        consistent::<d::math::Math1UGen<f32, d::math::Sqrt>>();
        for i in 0..3 {
            assert!(Done::pinteger_descriptions(PInteger(i)) == Some(["None", "FreeSelf", "FreeParent"][i]), "described by its name");
        }
    }
}
