//! C01: Seconds and Beats are exact integers of sub-units.
use crate::{harnesses, nd, reach};
use knaster_primitives::{Beats, SUBBEAT_TESIMALS_PER_BEAT as BT, SUBSECOND_TESIMALS_PER_SECOND as ST, Seconds};

fn s_norm() -> (u32, u32, Seconds) {
    let (s, t) = (nd::any::<u32>(), nd::range_u32(0, ST - 1));
    (s, t, Seconds::new(s, t))
}
fn tot(s: u32, t: u32) -> u64 {
    s as u64 * ST as u64 + t as u64
}

harnesses! {
    complete("")
    #[kani::unwind(3)]
    fn c01_seconds_add() {
        let (s0, t0, a) = s_norm();
        let (s1, t1, b) = s_norm();
        let carry = (t0 as u64 + t1 as u64 >= ST as u64) as u64;
        nd::assume(s0 as u64 + s1 as u64 + carry <= u32::MAX as u64);
        let c = a + b;
        reach!(carry == 1, "carry");
        reach!(carry == 0, "no carry");
        // exact: the sum of the totals, in normal form
        let e = Seconds::new((s0 as u64 + s1 as u64 + carry) as u32, (t0 as u64 + t1 as u64 - carry * ST as u64) as u32);
        assert!(c == e, "Seconds + Seconds is the exact normalised sum");
        let mut d = a;
        d += b;
        assert!(d == e, "+= agrees with +");
    }
    complete("")
    fn c01_seconds_sub() {
        let (s0, t0, a) = s_norm();
        let (s1, t1, b) = s_norm();
        let less = s0 < s1 || (s0 == s1 && t0 < t1);
        reach!(less, "less");
        reach!(!less, "not less");
        let c = a.checked_sub(b);
        let d = a.saturating_sub(b);
        if less {
            assert!(c.is_none(), "checked_sub is None when self < rhs");
            assert!(d == Seconds::ZERO, "saturating_sub is zero when self < rhs");
        } else {
            let borrow = (t0 < t1) as u64;
            let e = Seconds::new((s0 as u64 - s1 as u64 - borrow) as u32, (t0 as u64 + borrow * ST as u64 - t1 as u64) as u32);
            assert!(c == Some(e), "checked_sub is the exact difference");
            assert!(d == e, "saturating_sub is the exact difference");
        }
    }
    complete("")
    fn c01_seconds_order() {
        let (s0, t0, a) = s_norm();
        let (s1, t1, b) = s_norm();
        let e = (s0, t0).cmp(&(s1, t1));
        assert!(a.cmp(&b) == e, "order agrees with the order of the totals");
        assert!(a.partial_cmp(&b) == Some(e), "partial_cmp agrees with cmp");
        assert!((a == b) == (e == std::cmp::Ordering::Equal), "equality agrees with order");
        assert!((a < b) == (e == std::cmp::Ordering::Less), "< agrees");
    }
    complete("")
    fn c01_seconds_pack() {
        let (s, t, a) = s_norm();
        let v = a.to_subsample_tesimals_u64();
        assert!(v == tot(s, t), "total number of sub-units");
    }
    native("sampled; the unbounded proof is verus/time.vrs")
    fn c01_seconds_unpack() {
        let v = nd::range_u64(0, tot(u32::MAX, ST - 1));
        let b = Seconds::from_subsample_tesimals_u64(v);
        let e = Seconds::new((v / ST as u64) as u32, (v % ST as u64) as u32);
        assert!(b == e, "normal form");
        assert!(b.to_subsample_tesimals_u64() == v, "from/to total sub-units is the identity");
    }
    native("sampled; the unbounded proof is verus/time.vrs")
    fn c01_samples_exact() {
        let r = nd::range_u32(1, u32::MAX) as u64;
        let q = nd::any::<u32>() as u64;
        let n = q * r + nd::range_u32(0, (r - 1) as u32) as u64;
        let s = Seconds::from_samples(n, r);
        let e = n as u128 * ST as u128 / r as u128;
        let en = Seconds::new((e / ST as u128) as u32, (e % ST as u128) as u32);
        assert!(s == en, "from_samples is the exact floor, normalised");
        let r2 = nd::range_u32(1, u32::MAX) as u64;
        assert!(s.to_samples(r2) as u128 == e * r2 as u128 / ST as u128, "to_samples is the exact floor");
    }
    native("sampled; the unbounded proof is verus/time.vrs")
    fn c01_samples_lossless() {
        // every rate that divides the sub-unit base
        const RATES: [u64; 14] = [8000, 11025, 16000, 22050, 24000, 32000, 44100, 48000, 88200, 96000, 176400, 192000, 1, 282_240_000];
        let r = RATES[nd::below(14)];
        let r2 = RATES[nd::below(14)];
        let n = nd::range_u64(0, r * u32::MAX as u64 + r - 1);
        let s = Seconds::from_samples(n, r);
        assert!(s.to_samples(r) == n, "round trip at the same rate");
        assert!(s.to_samples(r2) as u128 == n as u128 * r2 as u128 / r as u128, "conversion between rates is the exact floor");
    }
    complete("")
    #[kani::unwind(3)]
    fn c01_beats_add() {
        let (b0, t0) = (nd::any::<u32>(), nd::range_u32(0, BT - 1));
        let (b1, t1) = (nd::any::<u32>(), nd::range_u32(0, BT - 1));
        let carry = (t0 as u64 + t1 as u64 >= BT as u64) as u64;
        nd::assume(b0 as u64 + b1 as u64 + carry <= u32::MAX as u64);
        let e = Beats::new((b0 as u64 + b1 as u64 + carry) as u32, (t0 as u64 + t1 as u64 - carry * BT as u64) as u32);
        let (a, b) = (Beats::new(b0, t0), Beats::new(b1, t1));
        assert!(a + b == e, "Beats + Beats is the exact normalised sum");
        let mut d = a;
        d += b;
        assert!(d == e, "+= agrees with +");
        let m: Beats = [a, b].into_iter().sum();
        assert!(m == e, "sum agrees with +");
    }
    complete("")
    fn c01_beats_sub() {
        let (b0, t0) = (nd::any::<u32>(), nd::range_u32(0, BT - 1));
        let (b1, t1) = (nd::any::<u32>(), nd::range_u32(0, BT - 1));
        let (a, b) = (Beats::new(b0, t0), Beats::new(b1, t1));
        let less = b0 < b1 || (b0 == b1 && t0 < t1);
        let c = a.checked_sub(b);
        let d = a.saturating_sub(b);
        if less {
            assert!(c.is_none(), "checked_sub is None when self < rhs");
            assert!(d == Beats::ZERO, "saturating_sub is zero when self < rhs");
        } else {
            let borrow = (t0 < t1) as u64;
            let e = Beats::new((b0 as u64 - b1 as u64 - borrow) as u32, (t0 as u64 + borrow * BT as u64 - t1 as u64) as u32);
            assert!(c == Some(e), "checked_sub is the exact difference");
            assert!(d == e, "saturating_sub is the exact difference");
        }
    }
    complete("")
    #[kani::unwind(9)]
    fn c01_beats_fraction() {
        // k/F of a beat, F times, is exactly k beats (F a documented exact subdivision)
        fn one<const F: u32>(b: u32, k: u32) {
            if k < F {
                let x = Beats::from_fractional_beats::<F>(b, k);
                assert!(x == Beats::new(b, (BT as u64 * k as u64 / F as u64) as u32) && BT as u64 * k as u64 % F as u64 == 0, "exact fraction of a beat");
            }
        }
        let b = nd::any::<u32>();
        let k = nd::range_u32(0, 1919);
        one::<2>(b, k); one::<3>(b, k); one::<4>(b, k); one::<5>(b, k); one::<6>(b, k); one::<7>(b, k); one::<8>(b, k);
        one::<9>(b, k); one::<10>(b, k); one::<12>(b, k); one::<14>(b, k); one::<15>(b, k); one::<16>(b, k); one::<18>(b, k);
        one::<20>(b, k); one::<24>(b, k); one::<32>(b, k); one::<64>(b, k); one::<128>(b, k); one::<256>(b, k); one::<512>(b, k);
        one::<1920>(b, k);
    }
    complete("")
    fn c01_beats_order() {
        let (b0, t0) = (nd::any::<u32>(), nd::range_u32(0, BT - 1));
        let (b1, t1) = (nd::any::<u32>(), nd::range_u32(0, BT - 1));
        let (a, b) = (Beats::new(b0, t0), Beats::new(b1, t1));
        let e = (b0, t0).cmp(&(b1, t1));
        assert!(a.cmp(&b) == e, "order agrees with the order of the totals");
        assert!(a.partial_cmp(&b) == Some(e));
        assert!((a == b) == (e == std::cmp::Ordering::Equal));
    }
}
