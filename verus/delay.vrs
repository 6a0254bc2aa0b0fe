use vstd::prelude::*;
verus! {
/*@include fl.inc @*/
struct AudioCtx;
struct UGenFlags;
struct Seconds { t: u64 }
/// position `k` places before `w` in a ring of `n`
spec fn back(w: int, k: int, n: int) -> int { if k <= w { w - k } else { w - k + n } }
proof fn ring(a: usize, n: usize)
    ensures 0 < n && a < n ==> (a + 1) % (n as int) == (if a + 1 == n { 0 } else { a + 1 }),
        0 < n && n <= a < 2 * n ==> a % n == a - n,
        0 < n && a < n ==> a % n == a,
{
    if 0 < n {
        if a < n { vstd::arithmetic::div_mod::lemma_small_mod(a as nat, n as nat); if a + 1 < n { vstd::arithmetic::div_mod::lemma_small_mod((a + 1) as nat, n as nat); } else { assert((a + 1) % (n as int) == 0) by (nonlinear_arith) requires a + 1 == n, n > 0; } }
        if n <= a && a < 2 * n { assert(a % n == a - n) by (nonlinear_arith) requires 0 < n, n <= a, a < 2 * n; }
    }
}

// ------------------------------------------------------------------ SampleDelay: a shift register
/*@struct knaster_core_dsp/src/ugens/delay.rs | SampleDelay | /<F: Copy = f32>/ => @*/
uninterp spec fn delay_buffer_len(m: Seconds, sr: u32) -> usize;
#[verifier::external_body]
fn max_frames(m: &Seconds, sr: u32) -> (r: usize) ensures r == delay_buffer_len(*m, sr), r < usize::MAX / 2 { unimplemented!() }
impl SampleDelay {
    spec fn wf(self) -> bool { 0 < self.buffer.len() <= usize::MAX / 2 && self.write_position < self.buffer.len() }
    /// the input `k` frames ago
    spec fn past(self, k: int) -> F { self.buffer@[back(self.write_position as int, k + 1, self.buffer.len() as int)] }
    /*@extract knaster_core_dsp/src/ugens/delay.rs | impl<F: Float> SampleDelay<F> | process | ret=r
    requires old(self).wf(),
    ensures
        final(self).wf(), final(self).buffer.len() == old(self).buffer.len(), final(self).delay_samples == old(self).delay_samples,
        final(self).past(0) == input[0],
        forall|k: int| 1 <= k < old(self).buffer.len() ==> #[trigger] final(self).past(k) == old(self).past(k - 1),
        // the input of `delay_samples` frames ago, or of as many as there are
        r[0] == final(self).past(if old(self).delay_samples < old(self).buffer.len() { old(self).delay_samples as int } else { old(self).buffer.len() - 1 }),
    @sub? /self\s*\.delay_samples\.min\(\s*self\.buffer\.len\(\) - 1\s*\)/ => min_usize(self.delay_samples, self.buffer.len() - 1)
    @start
        proof {
            ring(self.write_position, self.buffer.len());
            let m = min_usize_spec(self.delay_samples as int, self.buffer.len() - 1);
            ring((self.write_position + self.buffer.len() - m) as usize, self.buffer.len());
        }
    @*/
    /*@extract knaster_core_dsp/src/ugens/delay.rs | impl<F: Float> SampleDelay<F> | init
    ensures
        final(self).wf(), final(self).buffer.len() == delay_buffer_len(old(self).max_delay_length, sample_rate) + 1,
        final(self).delay_samples == old(self).delay_samples,
        forall|k: int| 0 <= k < final(self).buffer.len() ==> #[trigger] final(self).past(k) == f0(),
    @sub /vec!\[F::ZERO; \(self\.max_delay_length\.to_secs_f64\(\) \* sample_rate as f64\) as usize \+ 1\]/ => filled(F::zero(), max_frames(&self.max_delay_length, sample_rate) + 1)
    @*/
}
spec fn min_usize_spec(a: int, b: int) -> int { if a < b { a } else { b } }

// ------------------------------------------------------------------ AllpassInterpolator, AllpassDelay, AllpassFeedbackDelay
/*@struct knaster_core_dsp/src/ugens/delay.rs | AllpassInterpolator | /<F: Copy = f32>/ => @*/
spec fn ap(a: AllpassInterpolator, x: F) -> F { fadd(fmul(a.coeff, fsub(x, a.prev_output)), a.prev_input) }
impl AllpassInterpolator {
    /*@extract knaster_core_dsp/src/ugens/delay.rs | impl<F: Float> AllpassInterpolator<F> | process_sample | ret=r
    ensures r == ap(*old(self), input), *final(self) == (AllpassInterpolator { coeff: old(self).coeff, prev_input: input, prev_output: r }),
    @*/
    /*@extract knaster_core_dsp/src/ugens/delay.rs | impl<F: Float> AllpassInterpolator<F> | set_delta
    ensures *final(self) == (AllpassInterpolator { coeff: fdiv(fsub(f1(), delta), fadd(f1(), delta)), ..*old(self) }),
    @sub? /F::ONE/ => F::one()
    @*/
    /*@extract knaster_core_dsp/src/ugens/delay.rs | impl<F: Float> AllpassInterpolator<F> | clear
    ensures *final(self) == (AllpassInterpolator { prev_input: f0(), prev_output: f0(), ..*old(self) }),
    @sub? /F::ZERO/ => F::zero()
    @*/
}
/*@struct knaster_core_dsp/src/ugens/delay.rs | AllpassDelay | /<F: Copy = f32>/ => | /AllpassInterpolator<F>/ => AllpassInterpolator @*/
/// (whole frames, fraction in 0.5..1.5 or less than 1.5 at one frame) of a delay of `x` frames in a buffer of `n`
uninterp spec fn fclamp(x: F, n: usize) -> F;
uninterp spec fn ffloor(x: F) -> F;
uninterp spec fn fint(x: F) -> usize;
uninterp spec fn under_half(x: F) -> bool;
spec fn whole(x: F, n: usize) -> usize { fint(ffloor(fclamp(x, n))) }
spec fn frac(x: F, n: usize) -> F { fsub(fclamp(x, n), ffloor(fclamp(x, n))) }
/// assumed of floats: the whole part of a value clamped to 1..=n is in 1..=n
#[verifier::external_body]
proof fn clamped(x: F, n: usize) ensures n >= 1 ==> 1 <= whole(x, n) <= n { }
#[verifier::external_body]
fn clamp_frames(x: F, n: usize) -> (r: F) ensures r == fclamp(x, n) { unimplemented!() }
impl F {
    #[verifier::external_body]
    fn floor(self) -> (r: F) ensures r == ffloor(self) { unimplemented!() }
    #[verifier::external_body]
    fn whole_usize(self) -> (r: usize) ensures r == fint(self) { unimplemented!() }
    #[verifier::external_body]
    fn under_half(self) -> (r: bool) ensures r == under_half(self) { unimplemented!() }
}
impl AllpassDelay {
    spec fn wf(self) -> bool {
        &&& 0 < self.buffer.len() <= usize::MAX / 2 && self.write_frame < self.buffer.len()
        &&& 1 <= self.num_frames <= self.buffer.len()
    }
    /// reading is num_frames behind writing
    spec fn tuned(self) -> bool { self.wf() && self.read_frame == back(self.write_frame as int, self.num_frames as int, self.buffer.len() as int) % (self.buffer.len() as int) }
    spec fn past(self, k: int) -> F { self.buffer@[back(self.write_frame as int, k + 1, self.buffer.len() as int)] }
    /*@extract knaster_core_dsp/src/ugens/delay.rs | impl<F: Float> AllpassDelay<F> | write_and_advance
    requires old(self).wf(),
    ensures
        final(self).wf(), final(self).past(0) == input, final(self).buffer.len() == old(self).buffer.len(),
        forall|k: int| 1 <= k < old(self).buffer.len() ==> #[trigger] final(self).past(k) == old(self).past(k - 1),
        final(self).write_frame == (old(self).write_frame + 1) % (old(self).buffer.len() as int),
        final(self).read_frame == old(self).read_frame, final(self).num_frames == old(self).num_frames, final(self).allpass == old(self).allpass,
        final(self).clear_nr_of_samples_left == old(self).clear_nr_of_samples_left,
    @start
        proof { ring(self.write_frame, self.buffer.len()); }
    @*/
    /*@extract knaster_core_dsp/src/ugens/delay.rs | impl<F: Float> AllpassDelay<F> | read | ret=r
    requires old(self).tuned(),
    ensures
        final(self).wf(), final(self).buffer == old(self).buffer, final(self).write_frame == old(self).write_frame, final(self).num_frames == old(self).num_frames,
        final(self).read_frame == (old(self).read_frame + 1) % (old(self).buffer.len() as int),
        // the input of num_frames ago goes through the interpolator, except for what was cleared
        old(self).clear_nr_of_samples_left == 0 ==> r == ap(old(self).allpass, old(self).past(old(self).num_frames - 1)) && final(self).clear_nr_of_samples_left == 0
            && final(self).allpass == (AllpassInterpolator { coeff: old(self).allpass.coeff, prev_input: old(self).past(old(self).num_frames - 1), prev_output: r }),
        old(self).clear_nr_of_samples_left > 0 ==> r == f0() && final(self).clear_nr_of_samples_left == old(self).clear_nr_of_samples_left - 1 && final(self).allpass == old(self).allpass,
    @sub? /F::ZERO/ => F::zero()
    @start
        proof { ring(self.read_frame, self.buffer.len()); wrap(self.write_frame, self.num_frames, self.buffer.len()); }
    @*/
    /*@extract knaster_core_dsp/src/ugens/delay.rs | impl<F: Float> AllpassDelay<F> | process | ret=r
    requires old(self).tuned(),
    ensures
        // stays tuned for ever, and is the interpolated input of num_frames ago
        final(self).tuned(), final(self).num_frames == old(self).num_frames, final(self).buffer.len() == old(self).buffer.len(),
        final(self).past(0) == input[0],
        forall|k: int| 1 <= k < old(self).buffer.len() ==> #[trigger] final(self).past(k) == old(self).past(k - 1),
        old(self).clear_nr_of_samples_left == 0 ==> r[0] == ap(old(self).allpass, old(self).past(old(self).num_frames - 1)) && final(self).clear_nr_of_samples_left == 0
            && final(self).allpass == (AllpassInterpolator { coeff: old(self).allpass.coeff, prev_input: old(self).past(old(self).num_frames - 1), prev_output: r[0] }),
        old(self).clear_nr_of_samples_left > 0 ==> r[0] == f0() && final(self).clear_nr_of_samples_left == old(self).clear_nr_of_samples_left - 1 && final(self).allpass == old(self).allpass,
    @start
        proof { both(self.write_frame, self.num_frames, self.buffer.len()); }
    @*/
    /*@extract knaster_core_dsp/src/ugens/delay.rs | impl<F: Float> AllpassDelay<F> | set_delay_in_frames
    requires 0 < old(self).buffer.len() <= usize::MAX / 2, old(self).write_frame < old(self).buffer.len(),
    ensures
        // reading and writing are tuned to a distance from 1 to the length of the buffer, whatever length is asked for
        final(self).tuned(), final(self).buffer == old(self).buffer, final(self).write_frame == old(self).write_frame,
        ({
            let (w, d, n) = (whole(num_frames, old(self).buffer.len()), frac(num_frames, old(self).buffer.len()), final(self).num_frames);
            // whole part and fraction are together the delay, and the fraction is not too small for the interpolator
            if w > 1 && under_half(d) {
                &&& n == w - 1 && final(self).allpass == (AllpassInterpolator { coeff: fdiv(fsub(f1(), fadd(d, f1())), fadd(f1(), fadd(d, f1()))), ..old(self).allpass })
            } else {
                &&& n == w && final(self).allpass == (AllpassInterpolator { coeff: fdiv(fsub(f1(), d), fadd(f1(), d)), ..old(self).allpass })
            }
        }),
        final(self).clear_nr_of_samples_left == old(self).clear_nr_of_samples_left,
    @sub /num_frames\s*\.min\(F::from_usize\(self\.buffer\.len\(\)\)\)\s*\.max\(F::ONE\)/ => clamp_frames(num_frames, self.buffer.len())
    @sub? /num_frames_float\.to_usize\(\)\.unwrap\(\)/ => num_frames_float.whole_usize()
    @sub? /delta < F::new\(0\.5\)/ => delta.under_half()
    @sub? /delta \+= F::ONE/ => delta = delta + F::one()
    @start
        proof {
            clamped(num_frames, self.buffer.len());
            let w = whole(num_frames, self.buffer.len());
            wrap(self.write_frame, w, self.buffer.len());
            if w > 1 { wrap(self.write_frame, (w - 1) as usize, self.buffer.len()); }
        }
    @*/
    /*@extract knaster_core_dsp/src/ugens/delay.rs | impl<F: Float> AllpassDelay<F> | clear
    ensures final(self).clear_nr_of_samples_left == old(self).num_frames, final(self).num_frames == old(self).num_frames, final(self).buffer == old(self).buffer,
        final(self).write_frame == old(self).write_frame, final(self).read_frame == old(self).read_frame,
        final(self).allpass == (AllpassInterpolator { prev_input: f0(), prev_output: f0(), ..old(self).allpass }),
    @*/
}
/// one more of both pointers keeps their distance
proof fn both(w: usize, d: usize, n: usize)
    requires 0 < n <= usize::MAX / 2, w < n, 1 <= d <= n,
    ensures (back(w as int, d as int, n as int) % (n as int) + 1) % (n as int) == back((w + 1) % (n as int), d as int, n as int) % (n as int),
        0 <= back(w as int, d as int, n as int) % (n as int) < n,
{
    wrap(w, d, n);
    ring(w, n);
    let w2 = (w + 1) % (n as int);
    wrap(w2 as usize, d, n);
    let b = back(w as int, d as int, n as int) % (n as int);
    ring(b as usize, n);
}
proof fn wrap(w: usize, d: usize, n: usize)
    requires 0 < n <= usize::MAX / 2, w < n, 1 <= d <= n,
    ensures 0 <= back(w as int, d as int, n as int) < n, back(w as int, d as int, n as int) % (n as int) == back(w as int, d as int, n as int),
{
    let b = back(w as int, d as int, n as int);
    vstd::arithmetic::div_mod::lemma_small_mod(b as nat, n as nat);
}
/*@struct knaster_core_dsp/src/ugens/delay.rs | AllpassFeedbackDelay | /<F: Copy = f32>/ => | /AllpassDelay<F>/ => AllpassDelay @*/
impl AllpassFeedbackDelay {
    /*@extract knaster_core_dsp/src/ugens/delay.rs | impl<F: Float> AllpassFeedbackDelay<F> | process_sample | ret=r
    requires old(self).allpass_delay.tuned(), old(self).allpass_delay.clear_nr_of_samples_left == 0,
    ensures
        final(self).allpass_delay.tuned(), final(self).feedback == old(self).feedback, final(self).allpass_delay.clear_nr_of_samples_left == 0,
        final(self).allpass_delay.num_frames == old(self).allpass_delay.num_frames, final(self).allpass_delay.buffer.len() == old(self).allpass_delay.buffer.len(),
        ({
            let d = ap(old(self).allpass_delay.allpass, old(self).allpass_delay.past(old(self).allpass_delay.num_frames - 1));
            let w = fadd(fmul(d, old(self).feedback), input);
            &&& final(self).allpass_delay.past(0) == w
            &&& r == fsub(d, fmul(old(self).feedback, w))
        }),
        forall|k: int| 1 <= k < old(self).allpass_delay.buffer.len() ==> #[trigger] final(self).allpass_delay.past(k) == old(self).allpass_delay.past(k - 1),
    @start
        proof { both(self.allpass_delay.write_frame, self.allpass_delay.num_frames, self.allpass_delay.buffer.len()); }
    @*/
}

// ------------------------------------------------------------------ StaticSampleDelay
/*@struct knaster_core_dsp/src/ugens/delay.rs | StaticSampleDelay | /Delay<F>/ => Delay @*/
impl StaticSampleDelay {
    spec fn wf(self) -> bool { 1 <= self.delay_length <= self.buffer.len() <= usize::MAX / 2 && self.position < self.delay_length }
    /// what will be read in `k` frames: the input of `delay_length - k` frames ago
    spec fn queue(self, k: int) -> F { let p = self.position + k; self.buffer@[if p < self.delay_length { p } else { p - self.delay_length }] }
    /*@extract knaster_core_dsp/src/ugens/delay.rs | impl<F: Float> StaticSampleDelay<F> | new | ret=r
    requires delay_length_in_samples != 0, delay_length_in_samples <= usize::MAX / 2,
    ensures r.wf(), r.delay_length == delay_length_in_samples, r.buffer.len() == delay_length_in_samples, forall|k: int| 0 <= k < r.delay_length ==> #[trigger] r.queue(k) == f0(),
    @sub? /vec!\[F::ZERO; (\w+)\]/ => filled(F::zero(), \1)
    @*/
    /*@extract knaster_core_dsp/src/ugens/delay.rs | impl<F: Float> StaticSampleDelay<F> | set_delay_length
    requires 1 <= old(self).delay_length <= old(self).buffer.len() <= usize::MAX / 2,
    ensures final(self).wf(), final(self).buffer == old(self).buffer,
        final(self).delay_length == (if delay_length_in_samples > old(self).buffer.len() { old(self).buffer.len() as int } else if delay_length_in_samples < 1 { 1 } else { delay_length_in_samples as int }),
        // the position stays where it is unless that isn't part of the delay any longer
        old(self).position < final(self).delay_length ==> final(self).position == old(self).position,
    @sub? /delay_length_in_samples\.min\(self\.buffer\.len\(\)\)\.max\(1\)/ => max_usize(min_usize(delay_length_in_samples, self.buffer.len()), 1)
    @sub? /self\.position %= self\.delay_length/ => self.position = self.position % self.delay_length
    @start
        proof {
            let l = if delay_length_in_samples > self.buffer.len() { self.buffer.len() } else if delay_length_in_samples < 1 { 1usize } else { delay_length_in_samples };
            ring(self.position, l);
        }
    @*/
    /*@extract knaster_core_dsp/src/ugens/delay.rs | impl<F: Float> StaticSampleDelay<F> | read | ret=r
    requires old(self).wf(),
    ensures *final(self) == *old(self), r == old(self).queue(0),
    @*/
    /*@extract knaster_core_dsp/src/ugens/delay.rs | impl<F: Float> StaticSampleDelay<F> | write_and_advance
    requires old(self).wf(),
    ensures
        final(self).wf(), final(self).delay_length == old(self).delay_length, final(self).buffer.len() == old(self).buffer.len(),
        final(self).queue(old(self).delay_length - 1) == input,
        forall|k: int| 1 <= k < old(self).delay_length ==> final(self).queue(k - 1) == #[trigger] old(self).queue(k),
    @start
        proof { ring(self.position, self.delay_length); }
    @*/
    /*@extract knaster_core_dsp/src/ugens/delay.rs | impl<F: Float> StaticSampleDelay<F> | read_block
    requires old(self).wf(), old(output)@.len() <= old(self).delay_length,
    ensures
        *final(self) == *old(self), final(output)@.len() == old(output)@.len(),
        forall|k: int| 0 <= k < final(output)@.len() ==> #[trigger] final(output)@[k] == old(self).queue(k),
    @sub? /output\.copy_from_slice\(&self\.buffer\[([^;\]]*?)\.\.([^;\]]*?)\]\)/ => copy_to(output, 0, block_size, &self.buffer, \1, \2)
    @sub? /output\[([^;\]]*?)\.\.([^;\]]+?)\]\s*\.copy_from_slice\(&self\.buffer\[([^;\]]*?)\.\.([^;\]]*?)\]\)/ => copy_to(output, \1, \2, &self.buffer, \3, \4)
    @sub? /output\[([^;\]]*?)\.\.\]\s*\.copy_from_slice\(&self\.buffer\[([^;\]]*?)\.\.([^;\]]*?)\]\)/ => copy_to(output, \1, block_size, &self.buffer, \2, \3)
    @*/
    /*@extract knaster_core_dsp/src/ugens/delay.rs | impl<F: Float> StaticSampleDelay<F> | write_block_and_advance
    requires old(self).wf(), input@.len() <= old(self).delay_length,
    ensures
        final(self).wf(), final(self).delay_length == old(self).delay_length, final(self).buffer.len() == old(self).buffer.len(),
        // the block is the newest input
        forall|k: int| 0 <= k < input@.len() ==> final(self).queue(old(self).delay_length - input@.len() + k) == #[trigger] input@[k],
        forall|k: int| input@.len() <= k < old(self).delay_length ==> final(self).queue(k - input@.len()) == #[trigger] old(self).queue(k),
    @sub? /self\.buffer\[([^;\]]*?)\.\.([^;\]]*?)\]\s*\.copy_from_slice\(input\)/ => copy_from(&mut self.buffer, \1, \2, input, 0, block_size)
    @sub? /self\.buffer\[([^;\]]*?)\.\.([^;\]]*?)\]\s*\.copy_from_slice\(&input\[([^;\]]*?)\.\.([^;\]]+?)\]\)/ => copy_from(&mut self.buffer, \1, \2, input, \3, \4)
    @sub? /self\.buffer\[([^;\]]*?)\.\.([^;\]]*?)\]\s*\.copy_from_slice\(&input\[([^;\]]*?)\.\.\]\)/ => copy_from(&mut self.buffer, \1, \2, input, \3, block_size)
    @start
        proof { ring(self.position, self.delay_length); ring((self.position + input@.len()) as usize, self.delay_length); }
    @*/
    /*@extract knaster_core_dsp/src/ugens/delay.rs | impl<F: Float> StaticSampleDelay<F> | process
    requires old(self).wf(), input@.len() == block_size, old(output)@.len() == block_size, old(self).delay_length > block_size || block_size < usize::MAX / 2,
    ensures
        final(self).wf(), final(self).delay_length == old(self).delay_length, final(output)@.len() == block_size,
        // a queue: first what was in it, then the input
        forall|k: int| 0 <= k < block_size ==> #[trigger] final(output)@[k] == (if k < old(self).delay_length { old(self).queue(k) } else { input@[k - old(self).delay_length] }),
        forall|k: int| 0 <= k < old(self).delay_length ==> #[trigger] final(self).queue(k) == (if k + block_size < old(self).delay_length { old(self).queue(k + block_size) } else { input@[k + block_size - old(self).delay_length] }),
    @sub? /for \(i, o\) in input\.iter\(\)\.zip\(output\.iter_mut\(\)\)/ => for n in 0..input.len()
    @sub? /\*o = (.*?);/ => output[n] = \1;
    @sub? /\(\*i\)/ => (input[n])
    @start
        let ghost s = *self;
    @loop 0
        invariant
            self.wf(), self.delay_length == s.delay_length, s.wf(), input@.len() == block_size, output@.len() == block_size,
            forall|k: int| 0 <= k < n ==> #[trigger] output@[k] == (if k < s.delay_length { s.queue(k) } else { input@[k - s.delay_length] }),
            forall|k: int| 0 <= k < s.delay_length ==> #[trigger] self.queue(k) == (if k + n < s.delay_length { s.queue(k + n) } else { input@[k + n - s.delay_length] }),
    @loopstart 0
        let ghost before = *self;
    @loopend 0
        proof {
            assert forall|k: int| 0 <= k < s.delay_length implies #[trigger] self.queue(k) == (if k + n + 1 < s.delay_length { s.queue(k + n + 1) } else { input@[k + n + 1 - s.delay_length] }) by {
                if k + 1 < s.delay_length { assert(self.queue(k) == before.queue(k + 1)); }
            }
        }
    @*/
}
/// dst[a..b].copy_from_slice(&src[c..d])
#[verifier::external_body]
fn copy_to(dst: &mut [F], a: usize, b: usize, src: &Vec<F>, c: usize, d: usize)
    requires a <= b <= old(dst)@.len(), c <= d <= src@.len(), b - a == d - c,
    ensures final(dst)@.len() == old(dst)@.len(), forall|i: int| 0 <= i < final(dst)@.len() ==> #[trigger] final(dst)@[i] == (if a <= i < b { src@[c + i - a] } else { old(dst)@[i] }),
{ unimplemented!() }
#[verifier::external_body]
fn copy_from(dst: &mut Vec<F>, a: usize, b: usize, src: &[F], c: usize, d: usize)
    requires a <= b <= old(dst)@.len(), c <= d <= src@.len(), b - a == d - c,
    ensures final(dst)@.len() == old(dst)@.len(), forall|i: int| 0 <= i < final(dst)@.len() ==> #[trigger] final(dst)@[i] == (if a <= i < b { src@[c + i - a] } else { old(dst)@[i] }),
{ unimplemented!() }
}
fn main() {}
