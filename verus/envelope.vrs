use vstd::prelude::*;
verus! {
/*@include fl.inc @*/
uninterp spec fn le(a: F, b: F) -> bool;
uninterp spec fn feq(a: F, b: F) -> bool;
uninterp spec fn fpow3(a: F) -> F;
spec fn unit(x: F) -> bool { le(f0(), x) && le(x, f1()) }
/// frames to seconds: what is added or taken each frame; a time of 0 takes one frame
spec fn rate_of(seconds: F, sr: F) -> F { if feq(seconds, f0()) { f1() } else { fdiv(f1(), fmul(seconds, sr)) } }
/// assumed of floats (none of them NaN): 0..1 is closed under powers and products, sums of positive values are
/// positive, subtracting something positive makes a value smaller, and values are ordered
#[verifier::external_body]
proof fn floats(t: F, s: F, a: F, r: F)
    ensures
        unit(f0()) && unit(f1()),
        unit(t) && unit(s) ==> unit(fmul(fpow3(t), s)),
        unit(t) ==> fmul(fpow3(f1()), t) == t,
        unit(t) && le(f0(), a) ==> le(f0(), fadd(t, a)) && (le(f1(), fadd(t, a)) || le(fadd(t, a), f1())),
        unit(t) && le(f0(), r) ==> le(fsub(t, r), f1()) && (le(fsub(t, r), f0()) || le(f0(), fsub(t, r))),
{ }
/// assumed of floats: 1 / (a * b) of positive values is positive
#[verifier::external_body]
proof fn rates(s: F, sr: F) ensures le(f0(), f1()), le(f0(), s) && le(f0(), sr) ==> le(f0(), fdiv(f1(), fmul(s, sr))) { }
/// assumed: not NaN
#[verifier::external_body]
proof fn reflexive(s: F) ensures feq(s, s) { }
impl F {
    #[verifier::external_body]
    fn at_least(self, o: F) -> (r: bool) ensures r == le(o, self) { unimplemented!() }
    #[verifier::external_body]
    fn at_most(self, o: F) -> (r: bool) ensures r == le(self, o) { unimplemented!() }
    #[verifier::external_body]
    fn same(self, o: F) -> (r: bool) ensures r == feq(self, o) { unimplemented!() }
    #[verifier::external_body]
    fn powi(self, n: i32) -> (r: F) requires n == 3 ensures r == fpow3(self) { unimplemented!() }
}
struct UGenFlags { done: Ghost<Seq<u32>> }
impl UGenFlags {
    #[verifier::external_body]
    fn mark_done(&mut self, frame: u32) ensures final(self).done@ == old(self).done@.push(frame) { unimplemented!() }
}
struct AudioCtx { sr: F }

/*@enum knaster_core_dsp/src/ugens/envelopes.rs | AsrState @*/
/*@struct knaster_core_dsp/src/ugens/envelopes.rs | EnvAsr | /<F: Copy>/ => @*/
impl EnvAsr {
    /// the value the envelope has now
    spec fn now(self) -> F {
        match self.state { AsrState::Stopped => f0(), AsrState::Attacking => self.t, AsrState::Sustaining => f1(), AsrState::Releasing => fmul(fpow3(self.t), self.release_scale) }
    }
    spec fn wf(self) -> bool {
        &&& unit(self.t) && unit(self.release_scale) && le(f0(), self.attack_rate) && le(f0(), self.release_rate)
        &&& (self.state is Stopped ==> self.t == f0())
        &&& (self.state is Sustaining ==> self.t == f1())
    }
    /*@extract knaster_core_dsp/src/ugens/envelopes.rs | impl<F: Float> EnvAsr<F> | next_sample | ret=r
    requires old(self).wf(),
    ensures
        final(self).wf(), r == old(self).now(), unit(r),
        // nothing but the position changes
        final(self).attack_rate == old(self).attack_rate, final(self).release_rate == old(self).release_rate,
        final(self).attack_seconds == old(self).attack_seconds, final(self).release_seconds == old(self).release_seconds,
        match old(self).state {
            AsrState::Stopped => final(self).state is Stopped && final(flags).done@ == old(flags).done@,
            AsrState::Attacking => {
                let t = fadd(old(self).t, old(self).attack_rate);
                &&& final(flags).done@ == old(flags).done@
                &&& if le(f1(), t) { final(self).state is Sustaining && final(self).t == f1() } else { final(self).state is Attacking && final(self).t == t }
            },
            AsrState::Sustaining => final(self).state is Sustaining && final(flags).done@ == old(flags).done@,
            AsrState::Releasing => {
                let t = fsub(old(self).t, old(self).release_rate);
                if le(t, f0()) { final(self).state is Stopped && final(flags).done@ == old(flags).done@.push(sample_in_block) }
                else { final(self).state is Releasing && final(self).t == t && final(self).release_scale == old(self).release_scale && final(flags).done@ == old(flags).done@ }
            },
        },
    @sub? /(self\.\w+) >= F::ONE/ => \1.at_least(F::one())
    @sub? /(self\.\w+) <= F::ZERO/ => \1.at_most(F::zero())
    @sub? /(self\.\w+) \+= (self\.\w+)/ => \1 = \1 + \2
    @sub? /(self\.\w+) -= (self\.\w+)/ => \1 = \1 - \2
    @sub? /(self\.t)\.powi\(3\)/ => \1.powi(3)
    @sub? /F::new\((self\.t)\)/ => \1
    @sub? /F::ONE/ => F::one()
    @sub? /F::ZERO/ => F::zero()
    @start
        proof { floats(self.t, self.release_scale, self.attack_rate, self.release_rate); }
    @*/
    /*@extract knaster_core_dsp/src/ugens/envelopes.rs | impl<F: Float> EnvAsr<F> | trig_start
    requires old(self).wf(),
    ensures
        // attacks from the value it has
        final(self).wf(), final(self).state is Attacking, final(self).now() == (if old(self).state is Attacking { old(self).t } else { old(self).now() }),
        final(self).attack_rate == old(self).attack_rate, final(self).release_rate == old(self).release_rate,
        final(self).attack_seconds == old(self).attack_seconds, final(self).release_seconds == old(self).release_seconds,
    @sub? /(self\.\w+) >= F::ONE/ => \1.at_least(F::one())
    @sub? /(self\.\w+) <= F::ZERO/ => \1.at_most(F::zero())
    @sub? /(self\.\w+) \+= (self\.\w+)/ => \1 = \1 + \2
    @sub? /(self\.\w+) -= (self\.\w+)/ => \1 = \1 - \2
    @sub? /(self\.t)\.powi\(3\)/ => \1.powi(3)
    @sub? /F::new\((self\.t)\)/ => \1
    @sub? /F::ONE/ => F::one()
    @sub? /F::ZERO/ => F::zero()
    @start
        proof { floats(self.t, self.release_scale, self.attack_rate, self.release_rate); }
    @*/
    /*@extract knaster_core_dsp/src/ugens/envelopes.rs | impl<F: Float> EnvAsr<F> | t_release
    requires old(self).wf(),
    ensures
        // releases from the value it has, unless there is nothing to release
        final(self).wf(), final(self).now() == old(self).now(),
        (old(self).state is Stopped || old(self).state is Releasing) ==> *final(self) == *old(self),
        !(old(self).state is Stopped) ==> final(self).state is Releasing,
        (old(self).state is Attacking || old(self).state is Sustaining) ==> final(self).t == f1(),
        final(self).attack_rate == old(self).attack_rate, final(self).release_rate == old(self).release_rate,
        final(self).attack_seconds == old(self).attack_seconds, final(self).release_seconds == old(self).release_seconds,
    @sub? /(self\.\w+) >= F::ONE/ => \1.at_least(F::one())
    @sub? /(self\.\w+) <= F::ZERO/ => \1.at_most(F::zero())
    @sub? /(self\.\w+) \+= (self\.\w+)/ => \1 = \1 + \2
    @sub? /(self\.\w+) -= (self\.\w+)/ => \1 = \1 - \2
    @sub? /(self\.t)\.powi\(3\)/ => \1.powi(3)
    @sub? /F::new\((self\.t)\)/ => \1
    @sub? /F::ONE/ => F::one()
    @sub? /F::ZERO/ => F::zero()
    @start
        proof { floats(self.t, self.release_scale, self.attack_rate, self.release_rate); }
    @*/
    /*@extract knaster_core_dsp/src/ugens/envelopes.rs | impl<F: Float> EnvAsr<F> | attack_time
    requires old(self).wf(), le(f0(), seconds), le(f0(), old(ctx).sr),
    ensures final(self).wf(), *final(ctx) == *old(ctx), final(self).state == old(self).state, final(self).t == old(self).t, final(self).release_scale == old(self).release_scale,
        // the time is the new one, and the other time is left alone
        feq(final(self).attack_seconds, seconds), feq(old(self).attack_seconds, seconds) ==> *final(self) == *old(self),
        !feq(old(self).attack_seconds, seconds) ==> final(self).attack_seconds == seconds && final(self).attack_rate == rate_of(seconds, old(ctx).sr),
        final(self).release_rate == old(self).release_rate, final(self).release_seconds == old(self).release_seconds,
    @sig /seconds: PFloat/ => seconds: F
    @sub? /F::new\(seconds\)/ => seconds
    @sub? /self\.(attack|release)_seconds != (\w+)/ => !self.\1_seconds.same(\2)
    @sub? /(\w+) == F::ZERO/ => \1.same(F::zero())
    @sub? /(self\.\w+) == F::ZERO/ => \1.same(F::zero())
    @sub? /(self\.\w+) == F::ONE/ => \1.same(F::one())
    @sub? /F::from\(ctx\.sample_rate\(\)\)\.unwrap\(\)/ => ctx.sr
    @sub? /F::from\(sample_rate\)\.unwrap\(\)/ => sample_rate
    @sub? /F::ONE/ => F::one()
    @sub? /F::ZERO/ => F::zero()
    @start
        proof { rates(seconds, ctx.sr); reflexive(seconds); }
    @*/
    /*@extract knaster_core_dsp/src/ugens/envelopes.rs | impl<F: Float> EnvAsr<F> | release_time
    requires old(self).wf(), le(f0(), seconds), le(f0(), old(ctx).sr),
    ensures final(self).wf(), *final(ctx) == *old(ctx), final(self).state == old(self).state, final(self).t == old(self).t, final(self).release_scale == old(self).release_scale,
        // the time is the new one, and the other time is left alone
        feq(final(self).release_seconds, seconds), feq(old(self).release_seconds, seconds) ==> *final(self) == *old(self),
        !feq(old(self).release_seconds, seconds) ==> final(self).release_seconds == seconds && final(self).release_rate == rate_of(seconds, old(ctx).sr),
        final(self).attack_rate == old(self).attack_rate, final(self).attack_seconds == old(self).attack_seconds,
    @sig /seconds: PFloat/ => seconds: F
    @sub? /F::new\(seconds\)/ => seconds
    @sub? /self\.(attack|release)_seconds != (\w+)/ => !self.\1_seconds.same(\2)
    @sub? /(\w+) == F::ZERO/ => \1.same(F::zero())
    @sub? /(self\.\w+) == F::ZERO/ => \1.same(F::zero())
    @sub? /(self\.\w+) == F::ONE/ => \1.same(F::one())
    @sub? /F::from\(ctx\.sample_rate\(\)\)\.unwrap\(\)/ => ctx.sr
    @sub? /F::from\(sample_rate\)\.unwrap\(\)/ => sample_rate
    @sub? /F::ONE/ => F::one()
    @sub? /F::ZERO/ => F::zero()
    @start
        proof { rates(seconds, ctx.sr); reflexive(seconds); }
    @*/
    /*@extract knaster_core_dsp/src/ugens/envelopes.rs | impl<F: Float> EnvAsr<F> | init
    requires old(self).wf(), le(f0(), old(self).attack_seconds), le(f0(), old(self).release_seconds), le(f0(), sample_rate),
    ensures final(self).wf(), final(self).state == old(self).state, final(self).t == old(self).t, final(self).release_scale == old(self).release_scale,
        final(self).attack_seconds == old(self).attack_seconds, final(self).release_seconds == old(self).release_seconds,
        final(self).attack_rate == (if feq(old(self).attack_rate, f1()) { rate_of(old(self).attack_seconds, sample_rate) } else { old(self).attack_rate }),
        final(self).release_rate == (if feq(old(self).release_rate, f1()) { rate_of(old(self).release_seconds, sample_rate) } else { old(self).release_rate }),
    @sig /sample_rate: u32/ => sample_rate: F
    @sub? /F::new\(seconds\)/ => seconds
    @sub? /self\.(attack|release)_seconds != (\w+)/ => !self.\1_seconds.same(\2)
    @sub? /(\w+) == F::ZERO/ => \1.same(F::zero())
    @sub? /(self\.\w+) == F::ZERO/ => \1.same(F::zero())
    @sub? /(self\.\w+) == F::ONE/ => \1.same(F::one())
    @sub? /F::from\(ctx\.sample_rate\(\)\)\.unwrap\(\)/ => ctx.sr
    @sub? /F::from\(sample_rate\)\.unwrap\(\)/ => sample_rate
    @sub? /F::ONE/ => F::one()
    @sub? /F::ZERO/ => F::zero()
    @start
        proof { rates(self.attack_seconds, sample_rate); rates(self.release_seconds, sample_rate); }
    @*/
}

/*@enum knaster_core_dsp/src/ugens/envelopes.rs | ArState @*/
/*@struct knaster_core_dsp/src/ugens/envelopes.rs | EnvAr | /<F: Copy>/ => @*/
impl EnvAr {
    /// the value the envelope has now
    spec fn now(self) -> F {
        match self.state { ArState::Stopped => f0(), ArState::Attacking => self.t,  ArState::Releasing => fmul(fpow3(self.t), self.release_scale) }
    }
    spec fn wf(self) -> bool {
        &&& unit(self.t) && unit(self.release_scale) && le(f0(), self.attack_rate) && le(f0(), self.release_rate)
        &&& (self.state is Stopped ==> self.t == f0())
        
    }
    /*@extract knaster_core_dsp/src/ugens/envelopes.rs | impl<F: Float> EnvAr<F> | next_sample | ret=r
    requires old(self).wf(),
    ensures
        final(self).wf(), r == old(self).now(), unit(r),
        // nothing but the position changes
        final(self).attack_rate == old(self).attack_rate, final(self).release_rate == old(self).release_rate,
        final(self).attack_seconds == old(self).attack_seconds, final(self).release_seconds == old(self).release_seconds,
        match old(self).state {
            ArState::Stopped => final(self).state is Stopped && final(flags).done@ == old(flags).done@,
            ArState::Attacking => {
                let t = fadd(old(self).t, old(self).attack_rate);
                &&& final(flags).done@ == old(flags).done@
                &&& if le(f1(), t) { final(self).state is Releasing && final(self).release_scale == f1() && final(self).t == f1() } else { final(self).state is Attacking && final(self).t == t }
            },
            
            ArState::Releasing => {
                let t = fsub(old(self).t, old(self).release_rate);
                if le(t, f0()) { final(self).state is Stopped && final(flags).done@ == old(flags).done@.push(sample_in_block) }
                else { final(self).state is Releasing && final(self).t == t && final(self).release_scale == old(self).release_scale && final(flags).done@ == old(flags).done@ }
            },
        },
    @sub? /(self\.\w+) >= F::ONE/ => \1.at_least(F::one())
    @sub? /(self\.\w+) <= F::ZERO/ => \1.at_most(F::zero())
    @sub? /(self\.\w+) \+= (self\.\w+)/ => \1 = \1 + \2
    @sub? /(self\.\w+) -= (self\.\w+)/ => \1 = \1 - \2
    @sub? /(self\.t)\.powi\(3\)/ => \1.powi(3)
    @sub? /F::new\((self\.t)\)/ => \1
    @sub? /F::ONE/ => F::one()
    @sub? /F::ZERO/ => F::zero()
    @start
        proof { floats(self.t, self.release_scale, self.attack_rate, self.release_rate); }
    @*/
    /*@extract knaster_core_dsp/src/ugens/envelopes.rs | impl<F: Float> EnvAr<F> | trig_start
    requires old(self).wf(),
    ensures
        // attacks from the value it has
        final(self).wf(), final(self).state is Attacking, final(self).now() == (if old(self).state is Attacking { old(self).t } else { old(self).now() }),
        final(self).attack_rate == old(self).attack_rate, final(self).release_rate == old(self).release_rate,
        final(self).attack_seconds == old(self).attack_seconds, final(self).release_seconds == old(self).release_seconds,
    @sub? /(self\.\w+) >= F::ONE/ => \1.at_least(F::one())
    @sub? /(self\.\w+) <= F::ZERO/ => \1.at_most(F::zero())
    @sub? /(self\.\w+) \+= (self\.\w+)/ => \1 = \1 + \2
    @sub? /(self\.\w+) -= (self\.\w+)/ => \1 = \1 - \2
    @sub? /(self\.t)\.powi\(3\)/ => \1.powi(3)
    @sub? /F::new\((self\.t)\)/ => \1
    @sub? /F::ONE/ => F::one()
    @sub? /F::ZERO/ => F::zero()
    @start
        proof { floats(self.t, self.release_scale, self.attack_rate, self.release_rate); }
    @*/
    /*@extract knaster_core_dsp/src/ugens/envelopes.rs | impl<F: Float> EnvAr<F> | attack_time
    requires old(self).wf(), le(f0(), seconds), le(f0(), old(ctx).sr),
    ensures final(self).wf(), *final(ctx) == *old(ctx), final(self).state == old(self).state, final(self).t == old(self).t, final(self).release_scale == old(self).release_scale,
        // the time is the new one, and the other time is left alone
        feq(final(self).attack_seconds, seconds), feq(old(self).attack_seconds, seconds) ==> *final(self) == *old(self),
        !feq(old(self).attack_seconds, seconds) ==> final(self).attack_seconds == seconds && final(self).attack_rate == rate_of(seconds, old(ctx).sr),
        final(self).release_rate == old(self).release_rate, final(self).release_seconds == old(self).release_seconds,
    @sig /seconds: PFloat/ => seconds: F
    @sub? /F::new\(seconds\)/ => seconds
    @sub? /self\.(attack|release)_seconds != (\w+)/ => !self.\1_seconds.same(\2)
    @sub? /(\w+) == F::ZERO/ => \1.same(F::zero())
    @sub? /(self\.\w+) == F::ZERO/ => \1.same(F::zero())
    @sub? /(self\.\w+) == F::ONE/ => \1.same(F::one())
    @sub? /F::from\(ctx\.sample_rate\(\)\)\.unwrap\(\)/ => ctx.sr
    @sub? /F::from\(sample_rate\)\.unwrap\(\)/ => sample_rate
    @sub? /F::ONE/ => F::one()
    @sub? /F::ZERO/ => F::zero()
    @start
        proof { rates(seconds, ctx.sr); reflexive(seconds); }
    @*/
    /*@extract knaster_core_dsp/src/ugens/envelopes.rs | impl<F: Float> EnvAr<F> | release_time
    requires old(self).wf(), le(f0(), seconds), le(f0(), old(ctx).sr),
    ensures final(self).wf(), *final(ctx) == *old(ctx), final(self).state == old(self).state, final(self).t == old(self).t, final(self).release_scale == old(self).release_scale,
        // the time is the new one, and the other time is left alone
        feq(final(self).release_seconds, seconds), feq(old(self).release_seconds, seconds) ==> *final(self) == *old(self),
        !feq(old(self).release_seconds, seconds) ==> final(self).release_seconds == seconds && final(self).release_rate == rate_of(seconds, old(ctx).sr),
        final(self).attack_rate == old(self).attack_rate, final(self).attack_seconds == old(self).attack_seconds,
    @sig /seconds: PFloat/ => seconds: F
    @sub? /F::new\(seconds\)/ => seconds
    @sub? /self\.(attack|release)_seconds != (\w+)/ => !self.\1_seconds.same(\2)
    @sub? /(\w+) == F::ZERO/ => \1.same(F::zero())
    @sub? /(self\.\w+) == F::ZERO/ => \1.same(F::zero())
    @sub? /(self\.\w+) == F::ONE/ => \1.same(F::one())
    @sub? /F::from\(ctx\.sample_rate\(\)\)\.unwrap\(\)/ => ctx.sr
    @sub? /F::from\(sample_rate\)\.unwrap\(\)/ => sample_rate
    @sub? /F::ONE/ => F::one()
    @sub? /F::ZERO/ => F::zero()
    @start
        proof { rates(seconds, ctx.sr); reflexive(seconds); }
    @*/
    /*@extract knaster_core_dsp/src/ugens/envelopes.rs | impl<F: Float> EnvAr<F> | init
    requires old(self).wf(), le(f0(), old(self).attack_seconds), le(f0(), old(self).release_seconds), le(f0(), sample_rate),
    ensures final(self).wf(), final(self).state == old(self).state, final(self).t == old(self).t, final(self).release_scale == old(self).release_scale,
        final(self).attack_seconds == old(self).attack_seconds, final(self).release_seconds == old(self).release_seconds,
        final(self).attack_rate == (if feq(old(self).attack_rate, f1()) { rate_of(old(self).attack_seconds, sample_rate) } else { old(self).attack_rate }),
        final(self).release_rate == (if feq(old(self).release_rate, f1()) { rate_of(old(self).release_seconds, sample_rate) } else { old(self).release_rate }),
    @sig /sample_rate: u32/ => sample_rate: F
    @sub? /F::new\(seconds\)/ => seconds
    @sub? /self\.(attack|release)_seconds != (\w+)/ => !self.\1_seconds.same(\2)
    @sub? /(\w+) == F::ZERO/ => \1.same(F::zero())
    @sub? /(self\.\w+) == F::ZERO/ => \1.same(F::zero())
    @sub? /(self\.\w+) == F::ONE/ => \1.same(F::one())
    @sub? /F::from\(ctx\.sample_rate\(\)\)\.unwrap\(\)/ => ctx.sr
    @sub? /F::from\(sample_rate\)\.unwrap\(\)/ => sample_rate
    @sub? /F::ONE/ => F::one()
    @sub? /F::ZERO/ => F::zero()
    @start
        proof { rates(self.attack_seconds, sample_rate); rates(self.release_seconds, sample_rate); }
    @*/
}

// ------------------------------------------------------------------ Envelope: straight lines between the values of the segments
impl F {
    #[verifier::external_body]
    fn below(self, o: F) -> (r: bool) ensures r == flt(self, o) { unimplemented!() }
    #[verifier::external_body]
    fn min_one(self) -> (r: F) ensures r == fmin1(self) { unimplemented!() }
    #[verifier::external_body]
    fn to_f64(self) -> (r: F) ensures r == self { unimplemented!() }
}
fn id(x: F) -> (r: F) ensures r == x { x }
uninterp spec fn flt(a: F, b: F) -> bool;
uninterp spec fn fmin1(a: F) -> F;
#[derive(Copy, Clone)]
/*@struct knaster_core_dsp/src/ugens/envelopes.rs | EnvelopeSegment | /f64/ => F @*/
#[derive(Copy, Clone)]
/*@enum knaster_core_dsp/src/ugens/envelopes.rs | EnvelopeState | /f64/ => F @*/
/*@struct knaster_core_dsp/src/ugens/envelopes.rs | Envelope | /<F: Float>/ => | /crate::core::vec::Vec/ => Vec | /f64/ => F | /_float: PhantomData<F>,/ => @*/
#[derive(Copy, Clone)]
struct PInteger(usize);
#[derive(Copy, Clone)]
enum ParameterValue { Float(F), Trigger, Integer(PInteger), Bool(bool) }
impl ParameterValue {
    fn float(self) -> (r: Option<F>) ensures r == (match self { ParameterValue::Float(f) => Some(f), _ => None }) { match self { ParameterValue::Float(f) => Some(f), _ => None } }
    fn integer(self) -> (r: Option<PInteger>) ensures r == (match self { ParameterValue::Integer(f) => Some(f), _ => None }) { match self { ParameterValue::Integer(f) => Some(f), _ => None } }
}
/// on the line from a to b, at the part t / d of it
spec fn line(a: F, b: F, part: F) -> F { fadd(a, fmul(part, fsub(b, a))) }
impl Envelope {
    spec fn wf(self) -> bool {
        self.segments@.len() > 0 && match self.state { EnvelopeState::Running { current_segment, .. } => current_segment < self.segments@.len(), EnvelopeState::Stopped => true }
    }
    spec fn same_but_state(self, o: Envelope) -> bool {
        self.segments == o.segments && self.start_value == o.start_value && self.time_scale == o.time_scale && self.base_scale == o.base_scale && self.looping == o.looping
    }
    spec fn step(self) -> F { fmul(self.time_scale, self.base_scale) }
    /*@extract knaster_core_dsp/src/ugens/envelopes.rs | impl<F: Float> UGen for Envelope<F> | process | ret=r
    requires old(self).wf(),
    ensures
        final(self).wf(), final(self).same_but_state(*old(self)),
        match old(self).state {
            EnvelopeState::Stopped => r[0] == old(self).from_value && *final(self) == *old(self) && final(flags).done@ == old(flags).done@,
            EnvelopeState::Running { current_segment: i, current_time: t } => {
                let seg = old(self).segments@[i as int];
                if flt(t, seg.duration) {
                    // on the way
                    &&& r[0] == line(old(self).from_value, seg.value, fmul(t, seg.reciprocal_duration))
                    &&& final(self).from_value == old(self).from_value && final(flags).done@ == old(flags).done@
                    &&& final(self).state == (EnvelopeState::Running { current_segment: i, current_time: fadd(t, old(self).step()) })
                } else {
                    // arrived: exactly at the value of the segment, and on to the next one with the time that is left
                    &&& r[0] == seg.value && final(self).from_value == seg.value
                    &&& i + 1 < old(self).segments@.len() ==> final(flags).done@ == old(flags).done@
                        && final(self).state == (EnvelopeState::Running { current_segment: (i + 1) as usize, current_time: fadd(fsub(t, seg.duration), old(self).step()) })
                    &&& i + 1 == old(self).segments@.len() && old(self).looping ==> final(flags).done@ == old(flags).done@ && final(self).state == (EnvelopeState::Running { current_segment: 0, current_time: f0() })
                    &&& i + 1 == old(self).segments@.len() && !old(self).looping ==> final(flags).done@ == old(flags).done@.push(0) && final(self).state is Stopped
                }
            },
        },
    @sig /_input: Frame<Self::Sample, Self::Inputs>,/ =>
    @sig /Frame<Self::Sample, Self::Outputs>/ => [F; 1]
    @sub? /t < self\.segments\[current_segment\]\.duration/ => t.below(self.segments[current_segment].duration)
    @sub? /F::new\(/ => id(
    @sub? /t \* segment\.reciprocal_duration\)\.min\(1\.0\)/ => t * segment.reciprocal_duration).min_one()
    @sub? /\b0\.0?(?=[,;\s])/ => F::zero()
    @sub? /\[out\]\.into\(\)/ => [out]
    @start
        proof { assert(self.segments.len() == self.segments@.len()); }
    @*/
    /*@extract knaster_core_dsp/src/ugens/envelopes.rs | impl<F: Float> UGen for Envelope<F> | param_apply
    requires old(self).wf(), index == 0 ==> value is Float, index == 1 ==> value is Integer,
    ensures
        final(self).wf(), final(self).segments == old(self).segments, final(self).start_value == old(self).start_value, final(self).base_scale == old(self).base_scale, final(self).looping == old(self).looping,
        index == 0 ==> final(self).time_scale == value->Float_0 && final(self).state == old(self).state && final(self).from_value == old(self).from_value,
        index != 0 ==> final(self).time_scale == old(self).time_scale,
        index == 1 ==> final(self).from_value == old(self).from_value && ({
            let n = old(self).segments@.len();
            let i = (value->Integer_0).0;
            final(self).state == (EnvelopeState::Running { current_segment: (if i < n { i } else { (n - 1) as usize }), current_time: f0() })
        }),
        index == 2 ==> final(self).from_value == old(self).start_value && final(self).state == (EnvelopeState::Running { current_segment: 0, current_time: f0() }),
        // stops at the value it has
        index == 3 ==> final(self).state is Stopped && final(self).from_value == (match old(self).state {
            EnvelopeState::Stopped => old(self).from_value,
            EnvelopeState::Running { current_segment: i, current_time: t } => line(old(self).from_value, old(self).segments@[i as int].value, fmin1(fmul(t, old(self).segments@[i as int].reciprocal_duration))),
        }),
        index > 3 ==> *final(self) == *old(self),
    @sub? /t < self\.segments\[current_segment\]\.duration/ => t.below(self.segments[current_segment].duration)
    @sub? /F::new\(/ => id(
    @sub? /t \* segment\.reciprocal_duration\)\.min\(1\.0\)/ => t * segment.reciprocal_duration).min_one()
    @sub? /\b0\.0?(?=[,;\s])/ => F::zero()
    @sub? /\[out\]\.into\(\)/ => [out]
    @*/
}
}
fn main() {}
