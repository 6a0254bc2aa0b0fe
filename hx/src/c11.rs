//! C11: a block is a map from (channel, frame) to a sample; every view accesses exactly what it stands for.
use crate::{nd, reach};
use knaster_graph::block::*;
use knaster_graph::typenum::*;
use knaster_graph::*;

const X: u32 = 0x7f00_0000;
fn v0(c: usize, f: usize) -> f32 {
    (c * 16 + f) as f32 + 0.5
}
/// The contract of `Block`: reads see the last write to the same channel and frame, a write changes nothing else.
fn block_contract<B: Block<Sample = f32> + ?Sized>(b: &mut B, ch: usize, bs: usize) {
    assert!(b.channels() == ch);
    assert!(b.block_size() == bs);
    for c in 0..ch {
        for f in 0..bs {
            b.write(v0(c, f), c, f);
        }
    }
    if ch > 0 && bs > 0 {
        let (wc, wf, val) = (nd::below(ch), nd::below(bs), nd::any::<f32>());
        let by_slice: bool = nd::any();
        if by_slice {
            b.channel_as_slice_mut(wc)[wf] = val;
        } else {
            b.write(val, wc, wf);
        }
        let (rc, rf) = (nd::below(ch), nd::below(bs));
        let want = if rc == wc && rf == wf { val } else { v0(rc, rf) };
        assert!(b.read(rc, rf).to_bits() == want.to_bits());
        assert!(b.channel_as_slice(rc).len() == bs);
        assert!(b.channel_as_slice(rc)[rf].to_bits() == want.to_bits());
        assert!(b.channel_as_slice_mut(rc).len() == bs);
        assert!(b.channel_as_slice_mut(rc)[rf].to_bits() == want.to_bits());
        reach!(by_slice && rc != wc, "slice write, other channel read");
    }
    let mut n = 0;
    for s in b.iter_mut() {
        assert!(s.len() == bs);
        for f in 0..bs {
            s[f] = v0(n, f) + 100.0;
        }
        n += 1;
    }
    assert!(n == ch);
    for c in 0..ch {
        for f in 0..bs {
            assert!(b.read(c, f) == v0(c, f) + 100.0);
        }
    }
}
fn sub(bs: usize) -> (usize, usize) {
    let o = nd::below(bs + 1);
    let l = nd::below(bs - o + 1);
    (o, l)
}
/// Contract of the partial views: the frames `o..o + l` of the block they were made from, nothing else.
fn partial_contract<B: Block<Sample = f32>>(b: &mut B, ch: usize, bs: usize) {
    for c in 0..ch {
        for f in 0..bs {
            b.write(v0(c, f), c, f);
        }
    }
    let (o, l) = sub(bs);
    {
        let p = b.partial(o, l);
        assert!(p.channels() == ch && p.block_size() == l);
        if l > 0 {
            let (c, f) = (nd::below(ch), nd::below(l));
            assert!(p.read(c, f) == v0(c, o + f));
            assert!(p.channel_as_slice(c).len() == l);
            assert!(p.channel_as_slice(c)[f] == v0(c, o + f));
            // a view of a view
            let o2 = nd::below(l);
            let q = PartialBlock::from_block(&p, o2, l - o2);
            if f < l - o2 {
                assert!(q.read(c, f) == v0(c, o + o2 + f));
                assert!(q.channel_as_slice(c)[f] == v0(c, o + o2 + f));
            }
            reach!(o > 0 && o2 > 0, "inner view");
        }
    }
    let val: f32 = nd::any();
    let (mut at, mut by) = (None, false);
    {
        let mut p = b.partial_mut(o, l);
        assert!(Block::channels(&p) == ch && Block::block_size(&p) == l);
        if l > 0 {
            let (c, f) = (nd::below(ch), nd::below(l));
            by = nd::any();
            if by {
                p.channel_as_slice_mut(c)[f] = val;
            } else {
                p.write(val, c, f);
            }
            assert!(Block::channel_as_slice(&p, c).len() == l);
            assert!(Block::read(&p, c, f).to_bits() == val.to_bits());
            assert!(Block::channel_as_slice(&p, c)[f].to_bits() == val.to_bits());
            let o2 = nd::below(l);
            let mut q = p.partial_mut(o2, l - o2);
            if f < l - o2 {
                assert!(Block::read(&q, c, f).to_bits() == if o2 == 0 { val.to_bits() } else { v0(c, o + o2 + f).to_bits() });
                q.write(val, c, f);
                if o2 > 0 {
                    p.write(v0(c, o + f), c, f);
                }
                at = Some((c, o + o2 + f));
            } else {
                at = Some((c, o + f));
            }
        }
    }
    for c in 0..ch {
        for f in 0..bs {
            let want = if at == Some((c, f)) { val } else { v0(c, f) };
            assert!(b.read(c, f).to_bits() == want.to_bits());
        }
    }
    {
        let mut p = b.partial_mut(o, l);
        let mut n = 0;
        for s in p.iter_mut() {
            assert!(s.len() == l);
            for f in 0..l {
                s[f] = v0(n, f) + 200.0;
            }
            n += 1;
        }
        assert!(n == ch);
    }
    for c in 0..ch {
        for f in 0..bs {
            let want = if f >= o && f < o + l { v0(c, f - o) + 200.0 } else if at == Some((c, f)) { val } else { v0(c, f) };
            assert!(b.read(c, f).to_bits() == want.to_bits());
        }
    }
    reach!(by && l > 0, "write through a slice of a view");
}

crate::harnesses! {
    bounded("2 channels of 3 frames, 3 of 2, 0 of 2, 2 of 0")
    #[kani::unwind(8)]
    fn c11_vec_block() {
        for (ch, bs) in [(2, 3), (3, 2), (0, 2), (2, 0)] {
            let mut b = VecBlock::<f32>::new(ch, bs);
            for c in 0..ch { for f in 0..bs { assert!(Block::read(&b, c, f).to_bits() == 0); } }
            block_contract(&mut b, ch, bs);
        }
    }
    bounded("2 channels of 4 frames, all views and views of views")
    #[kani::unwind(6)]
    fn c11_partial_vec() {
        partial_contract(&mut VecBlock::<f32>::new(2, 4), 2, 4);
    }
    complete("2 channels of 3 frames (the type is concrete)")
    #[kani::unwind(8)]
    fn c11_static_block() {
        let mut b = StaticBlock::<f32, U2, U3>::new();
        for c in 0..2 { for f in 0..3 { assert!(Block::read(&b, c, f).to_bits() == 0); } }
        block_contract(&mut b, 2, 3);
        block_contract(&mut StaticBlock::<f32, U3, U2>::new(), 3, 2);
    }
    complete("2 channels of 3 frames, all views and views of views")
    #[kani::unwind(8)]
    fn c11_partial_static() {
        partial_contract(&mut StaticBlock::<f32, U2, U3>::new(), 2, 3);
    }
    bounded("2 channels of 3 frames and 3 of 2; the samples around the block are untouched")
    #[kani::unwind(10)]
    fn c11_raw_contiguous() {
        for (ch, bs) in [(2, 3), (3, 2)] {
            let mut mem = [f32::from_bits(X); 8];
            {
                let mut b = unsafe { RawContiguousBlock::new(mem.as_mut_ptr().wrapping_add(1), ch, bs) };
                block_contract(&mut b, ch, bs);
            }
            assert!(mem[0].to_bits() == X && mem[7].to_bits() == X);
            for i in 0..6 {
                assert!(mem[1 + i] == v0(i / bs, i % bs) + 100.0);
            }
        }
    }
    bounded("2 channels of up to 3 frames; the samples around the channels are untouched")
    #[kani::unwind(6)]
    fn c11_raw_aggregate() {
        let bs = nd::below(4);
        let swap: bool = nd::any();
        let mut m0 = [f32::from_bits(X); 5];
        let mut m1 = [f32::from_bits(X); 5];
        {
            let (p0, p1) = (m0.as_mut_ptr().wrapping_add(1), m1.as_mut_ptr().wrapping_add(1));
            let ptrs = if swap { [p1, p0] } else { [p0, p1] };
            let mut b = unsafe { RawAggregateBlock::new(&ptrs, bs) };
            block_contract(&mut b, 2, bs);
        }
        for f in 0..5 {
            let inside = f >= 1 && f < 1 + bs;
            let (a, b) = if swap { (m1[f], m0[f]) } else { (m0[f], m1[f]) };
            assert!(if inside { a == v0(0, f - 1) + 100.0 && b == v0(1, f - 1) + 100.0 } else { a.to_bits() == X && b.to_bits() == X });
        }
    }
    bounded("2 channels of up to 3 frames")
    #[kani::unwind(6)]
    fn c11_raw_aggregate_read() {
        let bs = nd::below(4);
        let m: [[f32; 4]; 2] = [[nd::any(), nd::any(), nd::any(), nd::any()], [nd::any(), nd::any(), nd::any(), nd::any()]];
        let ptrs = [m[1].as_ptr(), m[0].as_ptr()];
        let b = unsafe { RawAggregateBlockRead::new(&ptrs, bs) };
        assert!(b.channels() == 2 && b.block_size() == bs);
        if bs > 0 {
            let (c, f) = (nd::below(2), nd::below(bs));
            assert!(b.read(c, f).to_bits() == m[1 - c][f].to_bits());
            assert!(b.channel_as_slice(c).len() == bs);
            assert!(b.channel_as_slice(c)[f].to_bits() == m[1 - c][f].to_bits());
            let o = nd::below(bs);
            let p = PartialBlock::from_block(&b, o, bs - o);
            assert!(p.block_size() == bs - o && p.channels() == 2);
            if o + f < bs {
                assert!(p.read(c, f).to_bits() == m[1 - c][o + f].to_bits());
                assert!(p.channel_as_slice(c)[f].to_bits() == m[1 - c][o + f].to_bits());
            }
        }
    }
    bounded("the block has no channels")
    fn c11_empty() {
        let mut b = EmptyBlock::<f32>::new();
        assert!(Block::channels(&b) == 0 && Block::block_size(&b) == 0);
        assert!(b.iter_mut().next().is_none());
    }
    complete("all offsets, lengths and clocks that do not overflow")
    fn c11_metadata() {
        let (bs, t) = (nd::any::<usize>(), nd::any::<u64>());
        let mut m = BlockMetadata::new(bs);
        assert!(m.frames_to_process() == bs && m.block_start_offset() == 0 && m.frame_clock() == 0);
        m.set_frame_clock(t);
        assert!(m.frames_to_process() == bs && m.block_start_offset() == 0 && m.frame_clock() == t);
        let (a, l, b, k) = (nd::any::<u32>() as usize, nd::any::<u32>() as usize, nd::any::<u32>() as usize, nd::any::<usize>());
        nd::assume(t < u64::MAX / 2);
        let p = m.make_partial(a, l);
        assert!(p.frames_to_process() == l && p.block_start_offset() == a && p.frame_clock() == t + a as u64);
        let q = p.make_partial(b, k);
        assert!(q.frames_to_process() == k && q.block_start_offset() == a + b && q.frame_clock() == t + a as u64 + b as u64);
        assert!(m.frames_to_process() == bs && m.frame_clock() == t);
    }
    complete("all sequences of up to 3 calls on the flags")
    #[kani::unwind(5)]
    fn c11_flags() {
        let mut ctx = AudioCtx::new(48000, 8, knaster_core::log::ArLogSender::non_rt());
        let mut fl = UGenFlags::new();
        let (mut sup, mut done, mut rs, mut rp) = (false, None, false, None);
        for _ in 0..3 {
            let f: u32 = nd::any();
            match nd::below(6) {
                0 => { if sup { fl.mark_remove_self(&mut ctx); rs = true; } }
                1 => { fl.mark_remove_parent(f); rp = Some(f); }
                2 => { fl.mark_done(f); done = Some(f); }
                3 => { fl.mark_remove_self_supported(); sup = true; }
                4 => { fl.clear_parent_flags(); rp = None; }
                _ => { fl.clear_node_flags(); sup = false; done = None; rs = false; }
            }
            assert!(fl.done() == done && fl.remove_self() == rs && fl.remove_graph() == rp);
        }
        reach!(rs && rp.is_some(), "both removal flags");
    }
}
