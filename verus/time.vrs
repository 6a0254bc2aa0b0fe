use vstd::prelude::*;
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
use std::cmp;
verus! {

/*@const knaster_primitives/src/time.rs | SUBSECOND_TESIMALS_PER_SECOND @*/
/*@const knaster_primitives/src/time.rs | SUBBEAT_TESIMALS_PER_BEAT @*/

spec const T: int = 282_240_000;
spec const B: int = 1_476_034_560;

// ---------------------------------------------------------------- Seconds
#[derive(Clone, Copy)]
/*@struct knaster_primitives/src/time.rs | Seconds @*/

impl Seconds {
    spec fn total(self) -> int { self.seconds as int * T + self.subsecond_tesimals as int }
    spec fn wf(self) -> bool { self.subsecond_tesimals < T }

    /*@extract knaster_primitives/src/time.rs | impl Seconds | new | ret=r
    ensures r.seconds == seconds, r.subsecond_tesimals == subsample_tesimals,
    @*/
    /*@extract knaster_primitives/src/time.rs | impl Seconds | from_subsample_tesimals_u64 | ret=r
    requires subsample_tesimals < 0x1_0000_0000 * T,
    ensures r.wf(), r.total() == subsample_tesimals,
    @start
    proof {
        assert(subsample_tesimals as int / T < 0x1_0000_0000) by (nonlinear_arith) requires subsample_tesimals < 0x1_0000_0000 * T, T == 282_240_000;
        lemma_fundamental_div_mod(subsample_tesimals as int, T);
        lemma_mod_bound(subsample_tesimals as int, T);
        assert((subsample_tesimals as int / T) * T == T * (subsample_tesimals as int / T)) by (nonlinear_arith);
    }
    @*/
    /*@extract knaster_primitives/src/time.rs | impl Seconds | to_subsample_tesimals_u64 | ret=r
    requires self.wf(),
    ensures r == self.total(),
    @start
    proof {
        assert(self.seconds as int * T <= 0xffff_ffff * T) by (nonlinear_arith) requires 0 <= self.seconds as int <= 0xffff_ffff, T == 282_240_000;
    }
    @*/
    /*@extract knaster_primitives/src/time.rs | impl Seconds | from_samples | ret=r
    requires 0 < sample_rate <= 0xffff_ffff, samples as int / sample_rate as int <= 0xffff_ffff,
    ensures r.wf(), r.total() == (samples as int * T) / (sample_rate as int),
    @start
    proof {
        let (n, s) = (samples as int, sample_rate as int);
        lemma_fundamental_div_mod(n, s);
        lemma_mod_bound(n, s);
        let (q, m) = (n / s, n % s);
        assert(m * T <= 0xffff_ffff * T) by (nonlinear_arith) requires 0 <= m <= 0xffff_ffff, T == 282_240_000;
        assert(0 <= m * T < T * s) by (nonlinear_arith) requires 0 <= m < s, T == 282_240_000;
        lemma_div_is_ordered_by_denominator_ok(m * T, s, T);
        assert(n * T == (q * T) * s + m * T) by (nonlinear_arith) requires n == s * q + m;
        lemma_div_shift(q * T, m * T, s);
    }
    @*/
    /*@extract knaster_primitives/src/time.rs | impl Seconds | to_samples | ret=r
    requires self.wf(), 0 < sample_rate <= 0xffff_ffff,
    ensures r == (self.total() * (sample_rate as int)) / T,
    @start
    proof {
        let (q, m, s) = (self.seconds as int, self.subsecond_tesimals as int, sample_rate as int);
        assert(0 <= q * s <= 0xffff_ffff * 0xffff_ffff) by (nonlinear_arith) requires 0 <= q <= 0xffff_ffff, 0 <= s <= 0xffff_ffff;
        assert(0 <= m * s <= T * 0xffff_ffff) by (nonlinear_arith) requires 0 <= m <= T, 0 <= s <= 0xffff_ffff, T == 282_240_000;
        assert(m * s <= (T - 1) * s) by (nonlinear_arith) requires 0 <= m <= T - 1, 0 <= s;
        assert(0 <= m * s < T * s) by (nonlinear_arith) requires 0 <= m <= T - 1, 0 < s;
        lemma_div_is_ordered_by_denominator_ok(m * s, T, s);
        assert((q * T + m) * s == (q * s) * T + m * s) by (nonlinear_arith);
        lemma_div_shift(q * s, m * s, T);
    }
    @*/
    /*@extract knaster_primitives/src/time.rs | impl Ord for Seconds | cmp | ret=r
    requires self.wf(), other.wf(),
    ensures r == (if self.total() < other.total() { cmp::Ordering::Less } else if self.total() == other.total() { cmp::Ordering::Equal } else { cmp::Ordering::Greater }),
    @sub? /self\.(\w+)\.cmp\(&other\.(\w+)\)/ => u32_cmp(self.\1, other.\2)
    @start
    proof { lemma_total_order(*self, *other); }
    @*/
    fn lt(&self, other: &Seconds) -> (r: bool)
        requires self.wf(), other.wf(),
        ensures r == (self.total() < other.total()),
    { matches!(self.cmp(other), cmp::Ordering::Less) }
    fn le(&self, other: &Seconds) -> (r: bool)
        requires self.wf(), other.wf(),
        ensures r == (self.total() <= other.total()),
    { !matches!(self.cmp(other), cmp::Ordering::Greater) }
    /*@extract knaster_primitives/src/time.rs | impl Seconds | checked_sub | ret=r
    requires self.wf(), rhs.wf(),
    ensures match r { None => self.total() < rhs.total(), Some(d) => d.wf() && d.total() == self.total() - rhs.total() },
    @sub /self < rhs/ => self.lt(&rhs)
    @start
    proof { lemma_total_order(self, rhs); }
    @*/
    /*@extract knaster_primitives/src/time.rs | impl Seconds | saturating_sub | ret=r
    requires self.wf(), rhs.wf(),
    ensures r.wf(), r.total() == (if self.total() < rhs.total() { 0 } else { self.total() - rhs.total() }),
    @sub /self <= rhs/ => self.le(&rhs)
    @sub /Seconds::ZERO/ => Seconds::new(0, 0)
    @start
    proof { lemma_total_order(self, rhs); }
    @*/
    /*@extract knaster_primitives/src/time.rs | impl ops::Add<Seconds> for Seconds | add | ret=r
    requires self.wf(), rhs.wf(), self.total() + rhs.total() < 0x1_0000_0000 * T,
    ensures r.wf(), r.total() == self.total() + rhs.total(),
    @loop 0
        invariant
            self.wf(), rhs.wf(), self.total() + rhs.total() < 0x1_0000_0000 * T,
            seconds as int * T + subsample_tesimals as int == self.total() + rhs.total(),
        decreases subsample_tesimals,
    @*/
}

spec fn divides(a: int, b: int) -> bool { a > 0 && b % a == 0 }

// Lossless for every sample rate that divides the tesimal base, i.e. every common one; the
// conversion between two rates is the exact floor.
proof fn lemma_samples_roundtrip(n: int, r: int, r2: int)
    requires n >= 0, r > 0, r2 > 0, divides(r, T),
    ensures (((n * T) / r) * r) / T == n, (((n * T) / r) * r2) / T == (n * r2) / r,
{
    let k = T / r;
    lemma_fundamental_div_mod(T, r);
    assert(T == r * k);
    assert(n * T == (n * k) * r) by (nonlinear_arith) requires T == r * k;
    lemma_div_multiples_vanish(n * k, r);
    assert((n * T) / r == n * k) by { lemma_div_shift(n * k, 0, r); lemma_basic_div(0, r); }
    assert((n * k) * r == n * T + 0) by (nonlinear_arith) requires T == r * k;
    lemma_div_shift(n, 0, T);
    lemma_basic_div(0, T);
    assert(k > 0) by (nonlinear_arith) requires T == r * k, T > 0, r > 0;
    assert((n * k) * r2 == k * (n * r2)) by (nonlinear_arith);
    assert(T == k * r) by (nonlinear_arith) requires T == r * k;
    assert(n * r2 >= 0) by (nonlinear_arith) requires n >= 0, r2 > 0;
    lemma_truncate_middle_free(n * r2, r, k);
}
proof fn lemma_truncate_middle_free(x: int, r: int, k: int)
    requires x >= 0, r > 0, k > 0,
    ensures (k * x) / (k * r) == x / r,
{
    lemma_div_multiples_vanish_quotient(k, x, r);
}
proof fn lemma_common_rates()
    ensures divides(8000, T), divides(11025, T), divides(16000, T), divides(22050, T), divides(24000, T), divides(32000, T),
        divides(44100, T), divides(48000, T), divides(88200, T), divides(96000, T), divides(176400, T), divides(192000, T),
{}
proof fn lemma_div_shift(a: int, b: int, s: int)
    requires s > 0,
    ensures (a * s + b) / s == a + b / s,
{
    lemma_hoist_over_denominator_local(a, b, s);
}
proof fn lemma_hoist_over_denominator_local(a: int, b: int, s: int)
    requires s > 0,
    ensures (a * s + b) / s == a + b / s,
{
    lemma_fundamental_div_mod(b, s);
    lemma_mod_bound(b, s);
    let q = b / s;
    let m = b % s;
    assert(a * s + b == (a + q) * s + m) by (nonlinear_arith) requires b == s * q + m;
    lemma_fundamental_div_mod_converse(a * s + b, s, a + q, m);
}
// 0 <= x < t*s  ==>  x / s < t
proof fn lemma_div_is_ordered_by_denominator_ok(x: int, s: int, t: int)
    requires s > 0, 0 <= x < t * s,
    ensures 0 <= x / s < t,
{
    lemma_fundamental_div_mod(x, s);
    lemma_mod_bound(x, s);
    let q = x / s;
    assert(q < t) by (nonlinear_arith) requires s * q <= x, x < t * s, s > 0;
    assert(q >= 0) by (nonlinear_arith) requires s * q > x - s, x >= 0, s > 0;
}
proof fn lemma_total_order(a: Seconds, b: Seconds)
    requires a.wf(), b.wf(),
    ensures a.total() < b.total() <==> (a.seconds < b.seconds || (a.seconds == b.seconds && a.subsecond_tesimals < b.subsecond_tesimals)),
        a.total() == b.total() <==> (a.seconds == b.seconds && a.subsecond_tesimals == b.subsecond_tesimals),
{}
fn u32_cmp(a: u32, b: u32) -> (r: cmp::Ordering)
    ensures r == (if a < b { cmp::Ordering::Less } else if a == b { cmp::Ordering::Equal } else { cmp::Ordering::Greater }),
{ if a < b { cmp::Ordering::Less } else if a == b { cmp::Ordering::Equal } else { cmp::Ordering::Greater } }

// ---------------------------------------------------------------- Beats
#[derive(Clone, Copy)]
/*@struct knaster_primitives/src/time.rs | Beats @*/

impl Beats {
    spec fn total(self) -> int { self.beats as int * B + self.beat_tesimals as int }
    spec fn wf(self) -> bool { self.beat_tesimals < B }
    /*@extract knaster_primitives/src/time.rs | impl Beats | new | ret=r
    ensures r.beats == beats, r.beat_tesimals == beat_tesimals,
    @*/
    /*@extract knaster_primitives/src/time.rs | impl Ord for Beats | cmp | ret=r
    requires self.wf(), other.wf(),
    ensures r == (if self.total() < other.total() { cmp::Ordering::Less } else if self.total() == other.total() { cmp::Ordering::Equal } else { cmp::Ordering::Greater }),
    @sub? /self\.(\w+)\.cmp\(&other\.(\w+)\)/ => u32_cmp(self.\1, other.\2)
    @*/
    fn lt(&self, other: &Beats) -> (r: bool)
        requires self.wf(), other.wf(),
        ensures r == (self.total() < other.total()),
    { matches!(self.cmp(other), cmp::Ordering::Less) }
    /*@extract knaster_primitives/src/time.rs | impl Beats | checked_sub | ret=r
    requires self.wf(), v.wf(),
    ensures match r { None => self.total() < v.total(), Some(d) => d.wf() && d.total() == self.total() - v.total() },
    @sub /self < &v/ => self.lt(&v)
    @*/
    /*@extract knaster_primitives/src/time.rs | impl ops::Add<Beats> for Beats | add | ret=r
    requires self.wf(), rhs.wf(), self.total() + rhs.total() < 0x1_0000_0000 * B,
    ensures r.wf(), r.total() == self.total() + rhs.total(),
    @loop 0
        invariant
            self.wf(), rhs.wf(), self.total() + rhs.total() < 0x1_0000_0000 * B,
            beats as int * B + beat_tesimals as int == self.total() + rhs.total(),
        decreases beat_tesimals,
    @*/
    /*@extract knaster_primitives/src/time.rs | impl Beats | from_fractional_beats | ret=r
    requires 0 < FRACTION, divides(FRACTION as int, B), fractional_beats < FRACTION,
    ensures r.wf(), r.total() * FRACTION == (beats as int * FRACTION + fractional_beats) * B,
    @sub /assert!\(/ => vstd::pervasive::runtime_assert(
    @start
    proof {
        let k = B / FRACTION as int;
        lemma_fundamental_div_mod(B, FRACTION as int);
        assert(B == FRACTION * k);
        assert(k > 0) by (nonlinear_arith) requires B == FRACTION * k, B > 0, FRACTION > 0;
        assert(k * fractional_beats <= k * (FRACTION - 1)) by (nonlinear_arith) requires fractional_beats <= FRACTION - 1, k >= 0;
        assert(k * fractional_beats < B) by (nonlinear_arith) requires k * fractional_beats <= k * (FRACTION - 1), B == FRACTION * k, k > 0;
        assert(0 <= k * fractional_beats) by (nonlinear_arith) requires k >= 0, fractional_beats >= 0;
        assert((beats as int * B + k * fractional_beats) * FRACTION == (beats as int * FRACTION + fractional_beats) * B) by (nonlinear_arith) requires B == FRACTION * k;
    }
    @*/
}


// ---------------------------------------------------------------- when a scheduled change is due
#[derive(Clone, Copy)]
/*@struct knaster_graph/src/scheduling.rs | Time @*/
impl Time {
    /*@extract knaster_graph/src/scheduling.rs | impl Time | to_samples_until_due | ret=r
    requires old(self).seconds.wf(), 0 < sample_rate <= 0xffff_ffff, block_size as int / sample_rate as int <= 0xffff_ffff,
    ensures
        final(self).seconds.wf(), final(self).absolute == old(self).absolute,
        // an absolute time: the distance from the clock, or nothing if it has passed; the time does not change
        old(self).absolute ==> final(self).seconds == old(self).seconds && r == ({
            let t = (old(self).seconds.total() * (sample_rate as int)) / T;
            if t < frame_clock { 0 } else { t - frame_clock }
        }),
        // a relative time: counts down by one block
        !old(self).absolute ==> r == (old(self).seconds.total() * (sample_rate as int)) / T,
        !old(self).absolute ==> final(self).seconds.total() == ({
            let left = old(self).seconds.total() - (block_size as int * T) / (sample_rate as int);
            if left < 0 { 0 } else { left }
        }),
    @sig? /,\s*(#\[[^\]]*\]\s*)?logger: &mut ArLogSender,?/ =>
    @sub? /#\[cfg\(debug_assertions\)\]\s*if t < frame_clock \{\s*rt_log!\([^;]*;[^;]*;\s*\}/ =>
    @sub? /#\[allow\([^)]*\)\]/ =>
    @sub? /self\.seconds == Seconds::ZERO/ => is_zero(self.seconds)
    @sub? /t\.saturating_sub\(frame_clock\)/ => sat_sub(t, frame_clock)
    @sub? /\bself\s*\.seconds\s*\.saturating_sub/ => self.seconds.saturating_sub
    @start
    proof {
        let (b, s) = (block_size as int, sample_rate as int);
        assert(b * T >= 0) by (nonlinear_arith) requires b >= 0, T == 282_240_000;
        lemma_div_pos_is_pos(b * T, s);
        assert(self.seconds.total() == 0 ==> (self.seconds.total() * s) / T == 0) by (nonlinear_arith) requires T == 282_240_000;
    }
    @*/
}
fn is_zero(s: Seconds) -> (r: bool) requires s.wf(), ensures r == (s.total() == 0) { s.seconds == 0 && s.subsecond_tesimals == 0 }
fn sat_sub(a: u64, b: u64) -> (r: u64) ensures r == (if a < b { 0 } else { a - b }) { if a < b { 0 } else { a - b } }
} // verus!
fn main() {}
