// C22: the one pole and state variable filters, over the real numbers.
use vstd::prelude::*;
verus! {
/*@include rl.inc @*/
/// assumed: pi is positive, exponentials are positive and at most 1 of what is not positive
#[verifier::external_body]
proof fn exponential(x: real) ensures rpi() > 0real, rexp(x) > 0real, x <= 0real ==> rexp(x) <= 1real { }
/// assumed: the tangent is positive between 0 and pi / 2
#[verifier::external_body]
proof fn tangent(x: real) ensures rpi() > 0real, 0real < x && x + x < rpi() ==> rtan(x) > 0real { }
/// assumed: powers of 10 are positive; the square root of what is positive
#[verifier::external_body]
proof fn powers(y: real) ensures rpow(10real, y) > 0real { }
#[verifier::external_body]
proof fn roots(x: real) ensures x > 0real ==> rsqrt(x) > 0real && rsqrt(x) * rsqrt(x) == x { }

type PFloat = F;
#[derive(Copy, Clone)]
struct PInteger(usize);
struct AudioCtx { sr: u32 }
impl AudioCtx { fn sample_rate(&self) -> (r: u32) ensures r == self.sr { self.sr } }
impl F {
    /// a conversion between float types
    fn conv(x: F) -> (r: F) ensures r == x { x }
    /// (the rounding of sample rates above 2^24 Hz to f32 is left out)
    #[verifier::external_body]
    fn of(x: u32) -> (r: F) ensures r.v() == x as real { unimplemented!() }
}
// ------------------------------------------------------------------ one pole
/*@struct knaster_core_dsp/src/ugens/onepole.rs | OnePole | /<T: Float>/ => | /\bT\b/ => F @*/
impl OnePole {
    /// a lowpass which has gain 1 at 0 Hz and no overshoot
    spec fn wf(self) -> bool { self.a0.v() + self.b1.v() == 1real && 0real <= self.b1.v() <= 1real }
    /*@extract knaster_core_dsp/src/ugens/onepole.rs | impl<T: Float> OnePole<T> | new | ret=r
    ensures r.wf(), r.last_output.v() == 0real, r.b1.v() == 0real,
    @sub /T::new\(0\.0\)/ => F::zero()
    @sub /T::new\(1\.0\)/ => F::one()
    @*/
    /*@extract knaster_core_dsp/src/ugens/onepole.rs | impl<T: Float> OnePole<T> | reset
    ensures final(self).last_output.v() == 0real, final(self).a0 == old(self).a0, final(self).b1 == old(self).b1,
    @sub /T::(zero\(\)|ZERO)/ => F::zero()
    @*/
    /*@extract knaster_core_dsp/src/ugens/onepole.rs | impl<T: Float> OnePole<T> | set_freq_lowpass
    requires freq.v() >= 0real, sample_rate.v() > 0real,
    ensures final(self).wf(), final(self).last_output == old(self).last_output,
        final(self).b1.v() == rexp(-2real * rpi() * (freq.v() / sample_rate.v())),
    @start
        proof {
            let q = freq.v() / sample_rate.v();
            assert(q >= 0real) by (nonlinear_arith) requires freq.v() >= 0real, sample_rate.v() > 0real, q == freq.v() / sample_rate.v();
            exponential(-2real * rpi() * q);
            assert(-2real * rpi() * q <= 0real) by (nonlinear_arith) requires rpi() > 0real, q >= 0real;
            assert((-2i64) as real / (1i64 as real) == -2real);
        }
    @sig /\bT\b/ => F
    @sub /T::new\(-2\.0(_f64)?\)/ => F::num(-2, 1)
    @sub? /T::new\(1\.0(_f64)?\)/ => F::one()
    @sub? /T::(one\(\)|ONE)/ => F::one()
    @sub /T::PI/ => F::pi()
    @sub? /: T\b/ => : F
    @*/
    /*@extract knaster_core_dsp/src/ugens/onepole.rs | impl<T: Float> OnePole<T> | set_freq_highpass
    requires freq.v() >= 0real, sample_rate.v() > 0real,
    ensures final(self).wf(), final(self).last_output == old(self).last_output,
        final(self).b1.v() == rexp(-2real * rpi() * (freq.v() / sample_rate.v())),
    @sig /\bT\b/ => F
    @*/
    /*@extract knaster_core_dsp/src/ugens/onepole.rs | impl<T: Float> OnePole<T> | process_lp | ret=r
    ensures step(*old(self), input, *final(self)), r == final(self).last_output,
    @sig /^/ => #[verifier::nonlinear] 
    @sig /\bT\b/ => F
    @sub /#\[cfg\(feature = "no_denormals"\)\]\s*unsafe \{.*?\n        \}\n/ =>
    @sub /#\[cfg\(not\(feature = "no_denormals"\)\)\]/ =>
    @*/
    /*@extract knaster_core_dsp/src/ugens/onepole.rs | impl<T: Float> OnePole<T> | process_hp | ret=r
    ensures step(*old(self), input, *final(self)), r.v() == input.v() - final(self).last_output.v(),
    @sig /^/ => #[verifier::nonlinear] 
    @sig /\bT\b/ => F
    @sub /#\[cfg\(feature = "no_denormals"\)\]\s*unsafe \{.*?\n        \}\n/ =>
    @sub /#\[cfg\(not\(feature = "no_denormals"\)\)\]/ =>
    @*/
    // the same two with the feature no_denormals, the closure given to it in place
    /*@extract knaster_core_dsp/src/ugens/onepole.rs | impl<T: Float> OnePole<T> | process_lp | ret=r
    ensures step(*old(self), input, *final(self)), r == final(self).last_output,
    @sig /process_lp/ => process_lp_nd
    @sig /^/ => #[verifier::nonlinear] 
    @sig /\bT\b/ => F
    @sub /#\[cfg\(feature = "no_denormals"\)\]\s*unsafe \{\s*no_denormals::no_denormals\(\|\| (\{.*?\})\)\s*\}/ => \1
    @sub /#\[cfg\(not\(feature = "no_denormals"\)\)\]\s*\{.*?\n        \}\n/ =>
    @*/
    /*@extract knaster_core_dsp/src/ugens/onepole.rs | impl<T: Float> OnePole<T> | process_hp | ret=r
    ensures step(*old(self), input, *final(self)), r.v() == input.v() - final(self).last_output.v(),
    @sig /process_hp/ => process_hp_nd
    @sig /^/ => #[verifier::nonlinear] 
    @sig /\bT\b/ => F
    @sub /#\[cfg\(feature = "no_denormals"\)\]\s*unsafe \{\s*no_denormals::no_denormals\(\|\| (\{.*?\})\)\s*\}/ => \1
    @sub /#\[cfg\(not\(feature = "no_denormals"\)\)\]\s*\{.*?\n        \}\n/ =>
    @*/
}
/*@struct knaster_core_dsp/src/ugens/onepole.rs | OnePoleLpf | /<F: Float>/ => | /OnePole<F>/ => OnePole @*/
/*@struct knaster_core_dsp/src/ugens/onepole.rs | OnePoleHpf | /<F: Float>/ => | /OnePole<F>/ => OnePole @*/
/// the coefficient of a frequency
spec fn coef(freq: real, sr: real) -> real { rexp(-2real * rpi() * (freq / sr)) }
impl OnePoleLpf {
    /*@extract knaster_core_dsp/src/ugens/onepole.rs | impl<F: Float> OnePoleLpf<F> | new | ret=r
    ensures r.op.a0.v() == 1real, r.op.b1 == cutoff_freq, r.op.last_output.v() == 0real,
    @*/
    /*@extract knaster_core_dsp/src/ugens/onepole.rs | impl<F: Float> OnePoleLpf<F> | init
    requires sample_rate > 0, old(self).op.a0.v() == 1real, old(self).op.b1.v() >= 0real,
    ensures final(self).op.wf(), final(self).op.b1.v() == coef(old(self).op.b1.v(), sample_rate as real), final(self).op.last_output == old(self).op.last_output,
    @sub /F::new\(sample_rate as f32\)/ => F::of(sample_rate)
    @sub /self\.op\.a0 == F::ONE/ => F::same(self.op.a0, F::one())
    @*/
    /*@extract knaster_core_dsp/src/ugens/onepole.rs | impl<F: Float> OnePoleLpf<F> | process | ret=r
    ensures step(old(self).op, input[0], final(self).op), r[0] == final(self).op.last_output,
    @*/
    /*@extract knaster_core_dsp/src/ugens/onepole.rs | impl<F: Float> OnePoleLpf<F> | cutoff_freq
    requires ctx.sr > 0, freq.v() >= 0real,
    ensures final(self).op.wf(), final(self).op.b1.v() == coef(freq.v(), ctx.sr as real), final(self).op.last_output == old(self).op.last_output,
    @sub /F::new\(freq\)/ => F::conv(freq)
    @sub /F::from\(ctx\.sample_rate\(\)\)\.unwrap\(\)/ => F::of(ctx.sample_rate())
    @*/
}
impl OnePoleHpf {
    /*@extract knaster_core_dsp/src/ugens/onepole.rs | impl<F: Float> OnePoleHpf<F> | process | ret=r
    ensures step(old(self).op, input[0], final(self).op), r[0].v() == input[0].v() - final(self).op.last_output.v(),
    @*/
    /*@extract knaster_core_dsp/src/ugens/onepole.rs | impl<F: Float> OnePoleHpf<F> | cutoff_freq
    requires ctx.sr > 0, freq.v() >= 0real,
    ensures final(self).op.wf(), final(self).op.b1.v() == coef(freq.v(), ctx.sr as real), final(self).op.last_output == old(self).op.last_output,
    @sub /F::new\(freq\)/ => F::conv(freq)
    @sub /F::from\(ctx\.sample_rate\(\)\)\.unwrap\(\)/ => F::of(ctx.sample_rate())
    @*/
}
/// What one sample does.
spec fn step(a: OnePole, x: F, b: OnePole) -> bool {
    b.a0 == a.a0 && b.b1 == a.b1 && b.last_output.v() == a.a0.v() * x.v() + a.b1.v() * a.last_output.v()
}
/// The output of a lowpass is always between its last output and its input; so it never leaves an interval which
/// contains its input, whatever changes of frequency there are between the samples.
proof fn no_overshoot(a: OnePole, x: F, b: OnePole, lo: real, hi: real)
    requires step(a, x, b), a.wf(), lo <= x.v() <= hi, lo <= a.last_output.v() <= hi,
    ensures lo <= b.last_output.v() <= hi, b.wf(),
{
    let (a0, b1, y, u, z) = (a.a0.v(), a.b1.v(), a.last_output.v(), x.v(), b.last_output.v());
    assert(z == u + b1 * (y - u)) by (nonlinear_arith) requires z == a0 * u + b1 * y, a0 + b1 == 1real;
    assert(z <= hi) by (nonlinear_arith) requires z == u + b1 * (y - u), 0real <= b1 <= 1real, u <= hi, y <= hi;
    assert(z >= lo) by (nonlinear_arith) requires z == u + b1 * (y - u), 0real <= b1 <= 1real, u >= lo, y >= lo;
}

// ------------------------------------------------------------------ state variable filter
/*@enum knaster_core_dsp/src/ugens/svf.rs | SvfFilterType | / = 0/ => @*/
/*@struct knaster_core_dsp/src/ugens/svf.rs | SvfFilter | /<F: Copy>/ => @*/
/// amplitude of half the gain in dB
spec fn amp(gain_db: real) -> real { rpow(10real, gain_db / 40real) }
/// integrator gain: the cutoff frequency warped by the trapezoidal integration; shelves have theirs in the middle of the slope
spec fn g_of(ty: SvfFilterType, cutoff: real, gain_db: real, sr: real) -> real {
    let g = rtan((rpi() * cutoff) / sr);
    match ty {
        SvfFilterType::LowShelf => g / rsqrt(amp(gain_db)),
        SvfFilterType::HighShelf => g * rsqrt(amp(gain_db)),
        _ => g,
    }
}
/// damping
spec fn k_of(ty: SvfFilterType, q: real, gain_db: real) -> real {
    match ty { SvfFilterType::Bell => 1real / (q * amp(gain_db)), _ => 1real / q }
}
/// What each type makes of its input and the band and low outputs of the two integrators (high = x - k band - low).
spec fn mixed(ty: SvfFilterType, k: real, a: real, x: real, band: real, low: real) -> real {
    let high = x - k * band - low;
    match ty {
        SvfFilterType::Low => low,
        SvfFilterType::High => high,
        SvfFilterType::Band => band,
        SvfFilterType::Notch => high + low,
        SvfFilterType::Peak => high - low,
        SvfFilterType::All => high - k * band + low,
        SvfFilterType::Bell => high + a * a * (k * band) + low,
        SvfFilterType::LowShelf => high + a * (k * band) + a * a * low,
        SvfFilterType::HighShelf => a * a * high + a * (k * band) + low,
    }
}
impl SvfFilter {
    /// the coefficients are those of integrators with gain g and damping k, and of the output of type ty
    spec fn has(self, ty: SvfFilterType, g: real, k: real, a: real) -> bool {
        &&& self.a1.v() * (1real + g * (g + k)) == 1real && self.a2.v() == g * self.a1.v() && self.a3.v() == g * self.a2.v()
        &&& forall|x: real, v1: real, v2: real| self.m0.v() * x + self.m1.v() * v1 + self.m2.v() * v2 == #[trigger] mixed(ty, k, a, x, v1, v2)
    }
    spec fn band(self, x: real) -> real { self.a1.v() * self.ic1eq.v() + self.a2.v() * (x - self.ic2eq.v()) }
    spec fn low(self, x: real) -> real { self.ic2eq.v() + self.a2.v() * self.ic1eq.v() + self.a3.v() * (x - self.ic2eq.v()) }
    spec fn settings(self, o: SvfFilter) -> bool {
        &&& self.ty == o.ty && self.cutoff_freq == o.cutoff_freq && self.q == o.q && self.gain_db == o.gain_db
        &&& self.a1 == o.a1 && self.a2 == o.a2 && self.a3 == o.a3 && self.m0 == o.m0 && self.m1 == o.m1 && self.m2 == o.m2
    }
    spec fn same_settings(self, o: SvfFilter) -> bool { self.ty == o.ty && self.cutoff_freq == o.cutoff_freq && self.q == o.q && self.gain_db == o.gain_db && self.ic1eq == o.ic1eq && self.ic2eq == o.ic2eq }
    /*@extract knaster_core_dsp/src/ugens/svf.rs | impl<F: Float> SvfFilter<F> | new | ret=r
    ensures r.ty == ty, r.cutoff_freq == cutoff_freq, r.q == q, r.gain_db == gain_db, r.ic1eq.v() == 0real, r.ic2eq.v() == 0real,
    @sub? /F::ZERO/ => F::zero()
    @*/
    /*@extract knaster_core_dsp/src/ugens/svf.rs | impl<F: Float> SvfFilter<F> | set_coeffs
    requires sample_rate.v() > 0real, 0real < cutoff.v(), cutoff.v() + cutoff.v() < sample_rate.v(), q.v() > 0real,
    ensures
        final(self).same_settings(*old(self)),
        final(self).has(old(self).ty, g_of(old(self).ty, cutoff.v(), gain_db.v(), sample_rate.v()), k_of(old(self).ty, q.v(), gain_db.v()), amp(gain_db.v())),
        g_of(old(self).ty, cutoff.v(), gain_db.v(), sample_rate.v()) > 0real, k_of(old(self).ty, q.v(), gain_db.v()) > 0real,
    @start
        let ghost ty = self.ty;
        let ghost gg = g_of(self.ty, cutoff.v(), gain_db.v(), sample_rate.v());
        let ghost kk = k_of(self.ty, q.v(), gain_db.v());
        let ghost aa = amp(gain_db.v());
        proof {
            coefficients(ty, cutoff.v(), q.v(), gain_db.v(), sample_rate.v());
            assert((10i64) as real / (1i64 as real) == 10real && (40i64) as real / (1i64 as real) == 40real && (2i64) as real / (1i64 as real) == 2real);
        }
    @sub? /F::ONE/ => F::one()
    @sub? /F::ZERO/ => F::zero()
    @sub? /F::PI/ => F::pi()
    @sub? /F::new\((\d+)\.0?\)/ => F::num(\1, 1)
    @post /\}\s*$/ => proof { inverse(self.a1.v(), gg, kk); let (m0, m1, m2) = (self.m0.v(), self.m1.v(), self.m2.v()); assert forall|x: real, v1: real, v2: real| m0 * x + m1 * v1 + m2 * v2 == #[trigger] mixed(ty, kk, aa, x, v1, v2) by { mixes(ty, kk, aa, m0, m1, m2, x, v1, v2); } } }
    @*/
    /*@extract knaster_core_dsp/src/ugens/svf.rs | impl<F: Float> SvfFilter<F> | process_sample | ret=r
    ensures final(self).settings(*old(self)),
        final(self).ic1eq.v() == 2real * old(self).band(v0.v()) - old(self).ic1eq.v(),
        final(self).ic2eq.v() == 2real * old(self).low(v0.v()) - old(self).ic2eq.v(),
        r.v() == old(self).m0.v() * v0.v() + old(self).m1.v() * old(self).band(v0.v()) + old(self).m2.v() * old(self).low(v0.v()),
    @sig /^/ => #[verifier::nonlinear] \n
    @sub /#\[cfg\(feature = "no_denormals"\)\]\s*unsafe \{.*?\n        \}\n/ =>
    @sub /#\[cfg\(not\(feature = "no_denormals"\)\)\]/ =>
    @sub? /F::new\((\d+)\.0?\)/ => F::num(\1, 1)
    @sub? /let SvfFilter \{.*?\} = self;/ =>
    @sub? /\*(ic1eq|ic2eq|a1|a2|a3|m0|m1|m2)\b/ => self.\1
    @*/
    /// the settings are these and the coefficients are those of the settings
    spec fn is(self, ty: SvfFilterType, cutoff: F, q: F, gain_db: F, sr: real) -> bool {
        &&& self.ty == ty && self.cutoff_freq == cutoff && self.q == q && self.gain_db == gain_db
        &&& self.has(ty, g_of(ty, cutoff.v(), gain_db.v(), sr), k_of(ty, q.v(), gain_db.v()), amp(gain_db.v()))
        &&& g_of(ty, cutoff.v(), gain_db.v(), sr) > 0real && k_of(ty, q.v(), gain_db.v()) > 0real
    }
    /*@extract knaster_core_dsp/src/ugens/svf.rs | impl<F: Float> SvfFilter<F> | cutoff_freq
    requires ctx.sr > 0, in_range(cutoff_freq, old(self).q, ctx.sr as real),
    ensures final(self).is(old(self).ty, cutoff_freq, old(self).q, old(self).gain_db, ctx.sr as real), final(self).ic1eq == old(self).ic1eq, final(self).ic2eq == old(self).ic2eq,
    @sub /F::new\((ctx\.sample_rate\(\)|sample_rate) as f32\)/ => F::of(\1)
    @sub /F::new\((\w+)\)/ => F::conv(\1)
    @*/
    /*@extract knaster_core_dsp/src/ugens/svf.rs | impl<F: Float> SvfFilter<F> | q
    requires ctx.sr > 0, in_range(old(self).cutoff_freq, q, ctx.sr as real),
    ensures final(self).is(old(self).ty, old(self).cutoff_freq, q, old(self).gain_db, ctx.sr as real), final(self).ic1eq == old(self).ic1eq, final(self).ic2eq == old(self).ic2eq,
    @sub /F::new\((ctx\.sample_rate\(\)|sample_rate) as f32\)/ => F::of(\1)
    @sub /F::new\((\w+)\)/ => F::conv(\1)
    @*/
    /*@extract knaster_core_dsp/src/ugens/svf.rs | impl<F: Float> SvfFilter<F> | gain
    requires ctx.sr > 0, in_range(old(self).cutoff_freq, old(self).q, ctx.sr as real),
    ensures final(self).is(old(self).ty, old(self).cutoff_freq, old(self).q, gain_db, ctx.sr as real), final(self).ic1eq == old(self).ic1eq, final(self).ic2eq == old(self).ic2eq,
    @sub /F::new\((ctx\.sample_rate\(\)|sample_rate) as f32\)/ => F::of(\1)
    @sub /F::new\((\w+)\)/ => F::conv(\1)
    @*/
    /*@extract knaster_core_dsp/src/ugens/svf.rs | impl<F: Float> SvfFilter<F> | filter
    requires ctx.sr > 0, in_range(old(self).cutoff_freq, old(self).q, ctx.sr as real),
    ensures final(self).is(type_of(filter), old(self).cutoff_freq, old(self).q, old(self).gain_db, ctx.sr as real), final(self).ic1eq == old(self).ic1eq, final(self).ic2eq == old(self).ic2eq,
    @sub /F::new\((ctx\.sample_rate\(\)|sample_rate) as f32\)/ => F::of(\1)
    @*/
    /*@extract knaster_core_dsp/src/ugens/svf.rs | impl<F: Float> SvfFilter<F> | t_calculate_coefficients
    requires ctx.sr > 0, in_range(old(self).cutoff_freq, old(self).q, ctx.sr as real),
    ensures final(self).is(old(self).ty, old(self).cutoff_freq, old(self).q, old(self).gain_db, ctx.sr as real), final(self).ic1eq == old(self).ic1eq, final(self).ic2eq == old(self).ic2eq,
    @sub /F::new\((ctx\.sample_rate\(\)|sample_rate) as f32\)/ => F::of(\1)
    @*/
    /*@extract knaster_core_dsp/src/ugens/svf.rs | impl<F: Float> SvfFilter<F> | init
    requires sample_rate > 0, in_range(old(self).cutoff_freq, old(self).q, sample_rate as real),
    ensures final(self).is(old(self).ty, old(self).cutoff_freq, old(self).q, old(self).gain_db, sample_rate as real), final(self).ic1eq == old(self).ic1eq, final(self).ic2eq == old(self).ic2eq,
    @sub /F::new\((ctx\.sample_rate\(\)|sample_rate) as f32\)/ => F::of(\1)
    @*/
}
/// The outputs of two trapezoidal integrators in a loop: s is what an integrator has stored, its output is
/// s + g * input, and it then stores its output + g * input, which is 2 * output - s.
spec fn solved(b: SvfFilter, x: real, e: SvfFilter, g: real, k: real, band: real, low: real) -> bool {
    &&& band == b.ic1eq.v() + g * (x - k * band - low) && low == b.ic2eq.v() + g * band
    &&& e.ic1eq.v() == 2real * band - b.ic1eq.v() && e.ic2eq.v() == 2real * low - b.ic2eq.v()
}
/// With the coefficients of set_coeffs, what process_sample calculates is the solution of the loop and the output of the type.
proof fn solves(b: SvfFilter, x: real, e: SvfFilter, r: real, ty: SvfFilterType, g: real, k: real, a: real)
    requires b.has(ty, g, k, a), e.settings(b),
        e.ic1eq.v() == 2real * b.band(x) - b.ic1eq.v(), e.ic2eq.v() == 2real * b.low(x) - b.ic2eq.v(),
        r == b.m0.v() * x + b.m1.v() * b.band(x) + b.m2.v() * b.low(x),
    ensures solved(b, x, e, g, k, b.band(x), b.low(x)), r == mixed(ty, k, a, x, b.band(x), b.low(x)), e.has(ty, g, k, a),
{
    let (a1, a2, a3, i1, i2) = (b.a1.v(), b.a2.v(), b.a3.v(), b.ic1eq.v(), b.ic2eq.v());
    let (band, low) = (b.band(x), b.low(x));
    assert(low == i2 + g * band) by (nonlinear_arith)
        requires a2 == g * a1, a3 == g * a2, band == a1 * i1 + a2 * (x - i2), low == i2 + a2 * i1 + a3 * (x - i2);
    let (n, d) = (i1 + g * (x - i2), 1real + g * (g + k));
    assert(band == a1 * n) by (nonlinear_arith) requires a2 == g * a1, band == a1 * i1 + a2 * (x - i2), n == i1 + g * (x - i2);
    assert(band * d == n * (a1 * d)) by (nonlinear_arith) requires band == a1 * n;
    assert(n * (a1 * d) == n) by (nonlinear_arith) requires a1 * d == 1real;
    assert(i1 + g * (x - k * band - low) == n - (band * d - band)) by (nonlinear_arith) requires low == i2 + g * band, n == i1 + g * (x - i2), d == 1real + g * (g + k);
    assert(b.m0.v() * x + b.m1.v() * band + b.m2.v() * low == mixed(ty, k, a, x, band, low));
    assert forall|x: real, v1: real, v2: real| e.m0.v() * x + e.m1.v() * v1 + e.m2.v() * v2 == #[trigger] mixed(ty, k, a, x, v1, v2) by {
        assert(b.m0.v() * x + b.m1.v() * v1 + b.m2.v() * v2 == mixed(ty, k, a, x, v1, v2));
    }
}
/// Without input what is stored never grows, whatever the gains and dampings were and however they change.
proof fn dissipates(b: SvfFilter, e: SvfFilter, g: real, k: real, band: real, low: real)
    requires solved(b, 0real, e, g, k, band, low), g > 0real, k > 0real,
    ensures e.ic1eq.v() * e.ic1eq.v() + e.ic2eq.v() * e.ic2eq.v() <= b.ic1eq.v() * b.ic1eq.v() + b.ic2eq.v() * b.ic2eq.v(),
{
    let (s1, s2, t1, t2) = (b.ic1eq.v(), b.ic2eq.v(), e.ic1eq.v(), e.ic2eq.v());
    let h = 0real - k * band - low;
    // t1^2 - s1^2 = (t1 - s1)(t1 + s1) = 2 g h * 2 band, t2^2 - s2^2 = 2 g band * 2 low
    assert(t1 * t1 - s1 * s1 == (t1 - s1) * (t1 + s1)) by (nonlinear_arith);
    assert(t2 * t2 - s2 * s2 == (t2 - s2) * (t2 + s2)) by (nonlinear_arith);
    let (gh, gb) = (g * h, g * band);
    assert((t1 - s1) * (t1 + s1) == 4real * (gh * band)) by (nonlinear_arith) requires t1 - s1 == 2real * gh, t1 + s1 == 2real * band;
    assert((t2 - s2) * (t2 + s2) == 4real * (gb * low)) by (nonlinear_arith) requires t2 - s2 == 2real * gb, t2 + s2 == 2real * low;
    let (bb, lb) = (band * band, low * band);
    assert(h * band == -(k * bb) - lb) by (nonlinear_arith) requires h == 0real - k * band - low, bb == band * band, lb == low * band;
    assert(gh * band == g * (h * band)) by (nonlinear_arith) requires gh == g * h;
    assert(gb * low == g * lb) by (nonlinear_arith) requires gb == g * band, lb == low * band;
    assert(g * (h * band) == -(g * k * bb) - g * lb) by (nonlinear_arith) requires h * band == -(k * bb) - lb;
    assert(g * k * bb >= 0real) by (nonlinear_arith) requires g > 0real, k > 0real, bb == band * band;
}
spec fn in_range(cutoff: F, q: F, sr: real) -> bool { 0real < cutoff.v() && cutoff.v() + cutoff.v() < sr && q.v() > 0real }
/// the type with a number: generated by the derive macro, see C24
uninterp spec fn type_of(i: PInteger) -> SvfFilterType;
impl SvfFilterType {
    #[verifier::external_body]
    fn from(i: PInteger) -> (r: SvfFilterType) ensures r == type_of(i) { unimplemented!() }
}
proof fn coefficients(ty: SvfFilterType, c: real, q: real, db: real, sr: real)
    requires sr > 0real, 0real < c, c + c < sr, q > 0real,
    ensures
        amp(db) > 0real, rsqrt(amp(db)) > 0real, q * amp(db) > 0real,
        g_of(ty, c, db, sr) > 0real, k_of(ty, q, db) > 0real,
        1real + g_of(ty, c, db, sr) * (g_of(ty, c, db, sr) + k_of(ty, q, db)) > 0real,
{
    let a = amp(db);
    let r = rsqrt(a);
    powers(db / 40real);
    roots(a);
    let w = (rpi() * c) / sr;
    tangent(w);
    assert(w > 0real && w + w < rpi()) by (nonlinear_arith) requires w == (rpi() * c) / sr, rpi() > 0real, sr > 0real, 0real < c, c + c < sr;
    let t = rtan(w);
    assert(q * a > 0real) by (nonlinear_arith) requires q > 0real, a > 0real;
    assert(1real / q > 0real) by (nonlinear_arith) requires q > 0real;
    assert(1real / (q * a) > 0real) by (nonlinear_arith) requires q * a > 0real;
    assert(t / r > 0real) by (nonlinear_arith) requires t > 0real, r > 0real;
    assert(t * r > 0real) by (nonlinear_arith) requires t > 0real, r > 0real;
    let (g, k) = (g_of(ty, c, db, sr), k_of(ty, q, db));
    assert(g * (g + k) > 0real) by (nonlinear_arith) requires g > 0real, k > 0real;
}
proof fn mixes(ty: SvfFilterType, k: real, a: real, m0: real, m1: real, m2: real, x: real, v1: real, v2: real)
    requires
        match ty {
            SvfFilterType::Low => m0 == 0real && m1 == 0real && m2 == 1real,
            SvfFilterType::High => m0 == 1real && m1 == -k && m2 == -1real,
            SvfFilterType::Band => m0 == 0real && m1 == 1real && m2 == 0real,
            SvfFilterType::Notch => m0 == 1real && m1 == -k && m2 == 0real,
            SvfFilterType::Peak => m0 == 1real && m1 == -k && m2 == -2real,
            SvfFilterType::All => m0 == 1real && m1 == -2real * k && m2 == 0real,
            SvfFilterType::Bell => m0 == 1real && m1 == k * (a * a - 1real) && m2 == 0real,
            SvfFilterType::LowShelf => m0 == 1real && m1 == k * (a - 1real) && m2 == a * a - 1real,
            SvfFilterType::HighShelf => m0 == a * a && m1 == k * (1real - a) * a && m2 == 1real - a * a,
        },
    ensures m0 * x + m1 * v1 + m2 * v2 == mixed(ty, k, a, x, v1, v2),
{
    match ty {
        SvfFilterType::Low => { assert(m0 * x + m1 * v1 + m2 * v2 == v2) by (nonlinear_arith) requires m0 == 0real && m1 == 0real && m2 == 1real; }
        SvfFilterType::High => { assert(m0 * x + m1 * v1 + m2 * v2 == x - k * v1 - v2) by (nonlinear_arith) requires m0 == 1real && m1 == -k && m2 == -1real; }
        SvfFilterType::Band => { assert(m0 * x + m1 * v1 + m2 * v2 == v1) by (nonlinear_arith) requires m0 == 0real && m1 == 1real && m2 == 0real; }
        SvfFilterType::Notch => { assert(m0 * x + m1 * v1 + m2 * v2 == x - k * v1) by (nonlinear_arith) requires m0 == 1real && m1 == -k && m2 == 0real; }
        SvfFilterType::Peak => { assert(m0 * x + m1 * v1 + m2 * v2 == x - k * v1 - 2real * v2) by (nonlinear_arith) requires m0 == 1real && m1 == -k && m2 == -2real; }
        SvfFilterType::All => { assert(m0 * x + m1 * v1 + m2 * v2 == x - 2real * (k * v1)) by (nonlinear_arith) requires m0 == 1real && m1 == -2real * k && m2 == 0real; }
        SvfFilterType::Bell => {
            let aa = a * a;
            assert(m1 * v1 == aa * (k * v1) - k * v1) by (nonlinear_arith) requires m1 == k * (aa - 1real);
        }
        SvfFilterType::LowShelf => {
            let aa = a * a;
            assert(m1 * v1 == a * (k * v1) - k * v1) by (nonlinear_arith) requires m1 == k * (a - 1real);
            assert(m2 * v2 == aa * v2 - v2) by (nonlinear_arith) requires m2 == aa - 1real;
        }
        SvfFilterType::HighShelf => {
            let aa = a * a;
            assert(m1 * v1 == a * (k * v1) - aa * (k * v1)) by (nonlinear_arith) requires m1 == k * (1real - a) * a, aa == a * a;
            assert(m2 * v2 == v2 - aa * v2) by (nonlinear_arith) requires m2 == 1real - aa;
            assert(aa * (x - k * v1 - v2) == aa * x - aa * (k * v1) - aa * v2) by (nonlinear_arith);
        }
    }
}
proof fn inverse(a1: real, g: real, k: real)
    requires a1 == 1real / (1real + g * (g + k)), 1real + g * (g + k) > 0real,
    ensures a1 * (1real + g * (g + k)) == 1real,
{ assert(a1 * (1real + g * (g + k)) == 1real) by (nonlinear_arith) requires a1 == 1real / (1real + g * (g + k)), 1real + g * (g + k) > 0real; }
} // verus!
fn main() {}
