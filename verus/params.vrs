use vstd::prelude::*;
verus! {
type PFloat = f64;
struct PInteger(pub usize);
impl Copy for PInteger {}
impl Clone for PInteger { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
/// Names of parameters: only whether two are equal matters.
struct Name { s: Ghost<Seq<char>> }
impl Copy for Name {}
impl Clone for Name { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body]
fn same_name(a: Name, b: Name) -> (r: bool) ensures r == (a == b) { unimplemented!() }

enum Rate { BlockRate, AudioRate }
impl Copy for Rate {}
impl Clone for Rate { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }

/*@enum knaster_core/src/parameters/types.rs | ParameterSmoothing @*/
impl Copy for ParameterSmoothing {}
impl Clone for ParameterSmoothing { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }

/*@enum knaster_core/src/parameters/types.rs | ParameterValue @*/
impl Copy for ParameterValue {}
impl Clone for ParameterValue { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[derive(PartialEq, Eq, Structural)]
/*@enum knaster_core/src/parameters/types.rs | ParameterType @*/
impl Copy for ParameterType {}
impl Clone for ParameterType { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
/*@enum knaster_core/src/parameters.rs | ParameterError | /&'static str/ => Name @*/
/*@enum knaster_core/src/parameters.rs | Param | /&'static str/ => Name @*/
impl ParameterValue {
    /*@extract knaster_core/src/parameters/types.rs | impl ParameterValue | ty | ret=r
    ensures r == type_of(self),
    @*/
    /*@extract knaster_core/src/parameters/types.rs | impl ParameterValue | float | ret=r
    ensures r == (if let ParameterValue::Float(x) = self { Some(x) } else { None }),
    @*/
    /*@extract knaster_core/src/parameters/types.rs | impl ParameterValue | integer | ret=r
    ensures r == (if let ParameterValue::Integer(x) = self { Some(x) } else { None }),
    @*/
    /*@extract knaster_core/src/parameters/types.rs | impl ParameterValue | bool | ret=r
    ensures r == (if let ParameterValue::Bool(x) = self { Some(x) } else { None }),
    @*/
}
/// the type a value has: smoothing settings are made of parameters that are numbers
spec fn type_of(v: ParameterValue) -> ParameterType {
    match v {
        ParameterValue::Float(_) | ParameterValue::Smoothing(..) => ParameterType::Float,
        ParameterValue::Trigger => ParameterType::Trigger,
        ParameterValue::Integer(_) => ParameterType::Integer,
        ParameterValue::Bool(_) => ParameterType::Bool,
    }
}
struct AudioCtx { x: u8 }
/// A UGen with P parameters, about which nothing else is known: the parameter changes that reach it.
struct U<const P: usize> { applied: Ghost<Seq<(int, ParameterValue)>> }
uninterp spec fn types<const P: usize>() -> Seq<ParameterType>;
uninterp spec fn names<const P: usize>() -> Seq<Name>;
/// the first parameter called `n`
spec fn first(names: Seq<Name>, n: Name, i: int) -> bool { 0 <= i < names.len() && names[i] == n && forall|j: int| 0 <= j < i ==> names[j] != n }
/// what setting parameter i, if there is one, comes to
spec fn outcome(there_is: bool, types: Seq<ParameterType>, i: int, value: ParameterValue, before: Seq<(int, ParameterValue)>, after: Seq<(int, ParameterValue)>, r: Result<(), ParameterError>, missing: ParameterError) -> bool {
    if !there_is { r == Err::<(), ParameterError>(missing) && after == before }
    else if types[i] != type_of(value) { r == Err::<(), ParameterError>(ParameterError::WrongParameterType) && after == before }
    else { r is Ok && after == before.push((i, value)) }
}
impl<const P: usize> U<P> {
    #[verifier::external_body]
    fn param_types() -> (r: [ParameterType; P]) ensures r@ == types::<P>() { unimplemented!() }
    #[verifier::external_body]
    fn param_descriptions() -> (r: [Name; P]) ensures r@ == names::<P>() { unimplemented!() }
    #[verifier::external_body]
    fn param_apply(&mut self, ctx: &mut AudioCtx, index: usize, value: ParameterValue)
        requires index < P, types::<P>()[index as int] == type_of(value)
        ensures final(self).applied@ == old(self).applied@.push((index as int, value)) { unimplemented!() }
    /*@extract knaster_core/src/ugen.rs | pub trait UGen | param | ret=r
    requires types::<P>().len() == P, names::<P>().len() == P,
    ensures
        // exactly the parameter which is meant is set to exactly the value, once, or an error tells why nothing is
        ({
            let (before, after) = (old(self).applied@, final(self).applied@);
            match param {
                Param::Index(i) => outcome(i < P, types::<P>(), i as int, value, before, after, r, ParameterError::ParameterIndexOutOfBounds),
                Param::Desc(n) => {
                    ||| exists|i: int| #[trigger] first(names::<P>(), n, i) && outcome(true, types::<P>(), i, value, before, after, r, ParameterError::ParameterIndexOutOfBounds)
                    ||| outcome(false, types::<P>(), 0, value, before, after, r, ParameterError::DescriptionNotFound(n)) && forall|i: int| 0 <= i < P ==> names::<P>()[i] != n
                }
            }
        }),
    @sig /^/ => #[verifier::loop_isolation(false)]\n
    @sig /impl Into<Param>/ => Param
    @sig /impl Into<ParameterValue>/ => ParameterValue
    @sub /param\.into\(\)/ => param
    @sub? /value\.into\(\)/ => value
    @sub? /for \((\w+), (\w+)\) in Self::param_descriptions\(\)\.into_iter\(\)\.enumerate\(\) \{/ => let ds = Self::param_descriptions(); for \1 in it: 0..P { let \2 = ds[\1];
    @sub? /if d == desc/ => if same_name(d, desc)
    @sub? /Self::Parameters::USIZE/ => P
    @loop 0
        invariant
            it.iter.end == P, it.snapshot.end == P, types::<P>().len() == P, names::<P>().len() == P, ds@ == names::<P>(), param == Param::Desc(desc), self.applied@ == old(self).applied@,
            forall|j: int| 0 <= j < i ==> names::<P>()[j] != desc,
    @loopstart 0
        proof { if names::<P>()[i as int] == desc { assert(first(names::<P>(), desc, i as int)); } }
    @*/
}
}
fn main() {}
