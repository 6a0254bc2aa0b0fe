use vstd::prelude::*;
verus! {
pub struct Seconds { x: u64 }
/*@enum knaster_core/src/log.rs | ArLogMessage @*/
impl ArLogMessage {
    /*@extract knaster_core/src/log.rs | impl ArLogMessage | is_end | ret=r
    ensures r == (self is End),
    @*/
    /*@extract knaster_core/src/log.rs | impl From<usize> for ArLogMessage | from | ret=r
    ensures r == ArLogMessage::Unsigned(value as u64),
    @sig /fn from/ => fn from_usize
    @*/
    /*@extract knaster_core/src/log.rs | impl From<u64> for ArLogMessage | from | ret=r
    ensures r == ArLogMessage::Unsigned(value),
    @sig /fn from/ => fn from_u64
    @*/
    /*@extract knaster_core/src/log.rs | impl From<u32> for ArLogMessage | from | ret=r
    ensures r == ArLogMessage::Unsigned(value as u64),
    @sig /fn from/ => fn from_u32
    @*/
    /*@extract knaster_core/src/log.rs | impl From<u16> for ArLogMessage | from | ret=r
    ensures r == ArLogMessage::Unsigned(value as u64),
    @sig /fn from/ => fn from_u16
    @*/
    /*@extract knaster_core/src/log.rs | impl From<u8> for ArLogMessage | from | ret=r
    ensures r == ArLogMessage::Unsigned(value as u64),
    @sig /fn from/ => fn from_u8
    @*/
    /*@extract knaster_core/src/log.rs | impl From<i64> for ArLogMessage | from | ret=r
    ensures r == ArLogMessage::Signed(value),
    @sig /fn from/ => fn from_i64
    @*/
    /*@extract knaster_core/src/log.rs | impl From<i32> for ArLogMessage | from | ret=r
    ensures r == ArLogMessage::Signed(value as i64),
    @sig /fn from/ => fn from_i32
    @*/
    /*@extract knaster_core/src/log.rs | impl From<i16> for ArLogMessage | from | ret=r
    ensures r == ArLogMessage::Signed(value as i64),
    @sig /fn from/ => fn from_i16
    @*/
    /*@extract knaster_core/src/log.rs | impl From<i8> for ArLogMessage | from | ret=r
    ensures r == ArLogMessage::Signed(value as i64),
    @sig /fn from/ => fn from_i8
    @*/
    /*@extract knaster_core/src/log.rs | impl From<Seconds> for ArLogMessage | from | ret=r
    ensures r == ArLogMessage::Timestamp(value),
    @sig /fn from/ => fn from_seconds
    @*/
    /*@extract knaster_core/src/log.rs | impl From<f64> for ArLogMessage | from | ret=r
    ensures r == ArLogMessage::Float(value),
    @sig /fn from/ => fn from_f64
    @*/
}
type Msgs = Seq<ArLogMessage>;
/// the consumer of a ring buffer: what was sent and not yet taken, and for how many messages there is space
#[verifier::external_body]
pub struct Rec { x: u8 }
impl Rec {
    uninterp spec fn q(self) -> Msgs;
    uninterp spec fn cap(self) -> nat;
    /// The sender may add messages at any time: what is in the buffer is what is there when slots() is called, and what comes later is behind it.
    #[verifier::external_body]
    fn slots(&self) -> (r: usize) ensures r == self.q().len(), self.q().len() <= self.cap() { unimplemented!() }
    #[verifier::external_body]
    fn capacity(&self) -> (r: usize) ensures r == self.cap() { unimplemented!() }
    #[verifier::external_body]
    fn read_chunk(&self, n: usize) -> (r: Result<Chunk, ()>)
        ensures r is Ok <==> n <= self.q().len(), r is Ok ==> r->Ok_0.m() == self.q().take(n as int) { unimplemented!() }
    /// ReadChunk::commit
    #[verifier::external_body]
    fn commit(&mut self, c: &Chunk, n: usize)
        requires n <= c.m().len()
        ensures final(self).q() == old(self).q().skip(n as int), final(self).cap() == old(self).cap() { unimplemented!() }
}
#[verifier::external_body]
pub struct Chunk { x: u8 }
impl Chunk {
    uninterp spec fn m(self) -> Msgs;
    #[verifier::external_body]
    fn as_slices(&self) -> (r: (&[ArLogMessage], &[ArLogMessage])) ensures r.0@ + r.1@ == self.m(), r.0@.len() + r.1@.len() <= usize::MAX { unimplemented!() }
}
/// the function which is given the messages: what it was given by each call
#[verifier::external_body]
pub struct Handler { x: u8 }
impl Handler {
    uninterp spec fn got(self) -> Seq<Msgs>;
    #[verifier::external_body]
    fn call(&mut self, s: &[ArLogMessage]) ensures final(self).got() == old(self).got().push(s@) { unimplemented!() }
}
/// everything given, in order
spec fn flat(g: Seq<Msgs>) -> Msgs decreases g.len() { if g.len() == 0 { Seq::empty() } else { flat(g.drop_last()) + g.last() } }
proof fn flat_push(g: Seq<Msgs>, m: Msgs) ensures flat(g.push(m)) == flat(g) + m { assert(g.push(m).drop_last() =~= g); }
proof fn flat_add(a: Seq<Msgs>, b: Seq<Msgs>) ensures flat(a + b) == flat(a) + flat(b) decreases b.len() {
    if b.len() == 0 { assert(a + b =~= a); assert(flat(a) + flat(b) =~= flat(a)); } else {
        flat_add(a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert(flat(a + b) =~= flat(a) + flat(b));
    }
}
/// messages of one chain, or a part of it: no End but at the end
spec fn of_one_chain(m: Msgs) -> bool { forall|i: int| 0 <= i < m.len() - 1 ==> !((#[trigger] m[i]) is End) }
/// no End in m from i on
spec fn none_from(m: Msgs, i: int) -> bool { forall|k: int| i <= k < m.len() ==> !((#[trigger] m[k]) is End) }
/// What recv may do with the messages q: the calls g are made, k messages are taken
spec fn received(q: Msgs, cap: nat, g: Seq<Msgs>, k: int) -> bool {
    &&& 0 <= k <= q.len()
    // everything taken is given, once, in its order, and no call crosses the end of a chain
    &&& flat(g) =~= q.take(k)
    &&& forall|i: int| 0 <= i < g.len() ==> of_one_chain(#[trigger] g[i])
    // no whole chain is left, and unless the buffer is full of the beginning of one chain, only whole chains are taken
    &&& none_from(q, k)
    &&& if q.len() == cap && none_from(q, 0) { k == q.len() } else { k == 0 || q[k - 1] is End }
}
/// s0.iter().chain(s1).skip(from).position(End)
#[verifier::external_body]
fn position_of_end(s0: &[ArLogMessage], s1: &[ArLogMessage], from: usize) -> (r: Option<usize>)
    ensures
        r is None ==> none_from(s0@ + s1@, from as int),
        r is Some ==> from + r->0 < (s0@ + s1@).len() && (s0@ + s1@)[from + r->0] is End && forall|k: int| from <= k < from + r->0 ==> !((#[trigger] (s0@ + s1@)[k]) is End),
{ unimplemented!() }
#[verifier::external_body]
fn part(s: &[ArLogMessage], a: usize, b: usize) -> (r: &[ArLogMessage]) requires a <= b <= s@.len() ensures r@ == s@.subrange(a as int, b as int) { unimplemented!() }
#[verifier::external_body]
fn nothing() -> (r: &'static [ArLogMessage]) ensures r@.len() == 0 { unimplemented!() }
fn min_usize(a: usize, b: usize) -> (r: usize) ensures r == (if a < b { a } else { b }) { if a < b { a } else { b } }
#[verifier::external_body]
fn nth(v: &mut Vec<Rec>, i: usize) -> (r: &mut Rec) requires i < old(v)@.len() ensures *r == old(v)@[i as int], final(v)@ == old(v)@.update(i as int, *final(r)) { unimplemented!() }
spec fn one_received(a: Rec, b: Rec, g: Seq<Msgs>) -> bool { b.cap() == a.cap() && exists|k: int| #[trigger] received(a.q(), a.cap(), g, k) && b.q() == a.q().skip(k) }
/// everything between two states of the receivers, one after the other
spec fn all_received(a: Seq<Rec>, b: Seq<Rec>, g: Seq<Seq<Msgs>>, n: int) -> bool {
    &&& a.len() == b.len()
    &&& g.len() == n
    &&& forall|i: int| 0 <= i < n ==> one_received(a[i], b[i], #[trigger] g[i])
    &&& forall|i: int| n <= i < a.len() ==> #[trigger] b[i] == a[i]
}
spec fn joined(g: Seq<Seq<Msgs>>) -> Seq<Msgs> decreases g.len() { if g.len() == 0 { Seq::empty() } else { joined(g.drop_last()) + g.last() } }
pub struct ArLogReceiver { receivers: Vec<Rec> }
impl ArLogReceiver {
    /*@extract knaster_core/src/log.rs | impl<N: Size> ArLogReceiver<N> | recv
    ensures
        exists|g: Seq<Seq<Msgs>>| #[trigger] all_received(old(self).receivers@, final(self).receivers@, g, old(self).receivers@.len() as int) && final(log_handler).got() =~= old(log_handler).got() + joined(g),
    @sig /mut log_handler: impl FnMut\(&\[ArLogMessage\]\)/ => log_handler: &mut Handler
    @sub /for rec in &mut self\.receivers \{/ => let ghost mut g: Seq<Seq<Msgs>> = Seq::empty(); let n = self.receivers.len(); for r in 0..n { let ghost before = log_handler.got(); let ghost mut new: Seq<Msgs> = Seq::empty(); let ghost recs = self.receivers@; let ghost mut taken: int = 0; let rec = nth(&mut self.receivers, r); let ghost rec0 = *rec; proof { assert(rec0.q().take(0) =~= Seq::empty()); assert(before + new =~= before); assert(rec0.q().skip(0) =~= rec0.q()); }
    @sub? /rec\.buffer\(\)\.capacity\(\)/ => rec.capacity()
    @sub? /while let Some\(pos\) = s0\s*\.iter\(\)\s*\.chain\(s1\)\s*\.skip\(last_end\)\s*\.position\(\|m\| matches!\(m, &ArLogMessage::End\)\)\s*\{/ => while let Some(pos) = position_of_end(s0, s1, last_end) {
    @sub? /&\[\]/ => nothing()
    @sub? /&s0\[last_end\.\.\(last_end \+ pos \+ 1\)\.min\(s0\.len\(\)\)\]/ => part(s0, last_end, min_usize(last_end + pos + 1, s0.len()))
    @sub? /&(s[01])\[([^\]]*?)\.\.=([^\]]*)\]/ => part(\1, \2, \3 + 1)
    @sub? /&(s[01])\[([^\]]*?)\.\.([^\]]*)\]/ => part(\1, \2, \3)
    @sub? /log_handler\(([^)]*)\)/ => log_handler.call(\1)
    @sub? /read_chunk\.commit\(([^()]*)\)/ => proof { let full = log_handler.got().skip(before.len() as int); let a = s0@; let b = s1@; assert(rec0.q().take(rec0.q().len() as int) =~= rec0.q()); if last_end as int == e2 && log_handler.got() =~= before2 { assert(full =~= new); } else { assert(log_handler.got() =~= before + new.push(a).push(b)); assert(full =~= new.push(a).push(b)); flat_push(new, a); flat_push(new.push(a), b); assert forall|i: int| 0 <= i < a.len() implies a[i] == rec0.q()[i] by { assert((a + b)[i] == a[i]); } assert forall|i: int| 0 <= i < b.len() implies b[i] == rec0.q()[a.len() + i] by { assert((a + b)[a.len() + i] == b[i]); } } new = full; taken = last_end as int; assert(received(rec0.q(), rec0.cap(), new, taken)); } rec.commit(&read_chunk, \1)
    @loop 0
        invariant
            n == self.receivers@.len(), 
            all_received(old(self).receivers@, self.receivers@, g, r as int),
            log_handler.got() =~= old(log_handler).got() + joined(g),
    @loop 1
        invariant
            s0@ + s1@ == rec0.q(), s0@.len() + s1@.len() <= usize::MAX, rec0.q().len() == s0@.len() + s1@.len(),
            log_handler.got() =~= before + new,
            last_end <= rec0.q().len(), flat(new) =~= rec0.q().take(last_end as int),
            forall|i: int| 0 <= i < new.len() ==> of_one_chain(#[trigger] new[i]),
            last_end == 0 || rec0.q()[last_end - 1] is End,
        ensures none_from(rec0.q(), last_end as int),
        decreases rec0.q().len() - last_end,
    @loopend 1
        proof {
            let e = last_end as int; let from = e - pos - 1;
            assert(slice0@ + slice1@ =~= rec0.q().subrange(from, e));
            flat_push(new, slice0@);
            flat_push(new.push(slice0@), slice1@);
            assert(rec0.q().take(e) =~= rec0.q().take(from) + rec0.q().subrange(from, e));
            assert forall|i: int| 0 <= i < slice0@.len() implies slice0@[i] == rec0.q()[from + i] by { assert((slice0@ + slice1@)[i] == slice0@[i]); }
            assert forall|i: int| 0 <= i < slice1@.len() implies slice1@[i] == rec0.q()[from + slice0@.len() + i] by { assert((slice0@ + slice1@)[slice0@.len() + i] == slice1@[i]); }
            new = new.push(slice0@).push(slice1@);
        }
    @afterloop 1
        let ghost before2 = log_handler.got(); let ghost e2 = last_end as int;
    @loopend 0
        proof {
            assert(log_handler.got() =~= before + new);
            assert(received(recs[r as int].q(), recs[r as int].cap(), new, taken));
            let now = self.receivers@;
            assert(now[r as int].q() == recs[r as int].q().skip(taken) && now[r as int].cap() == recs[r as int].cap());
            assert forall|i: int| 0 <= i < now.len() && i != r implies #[trigger] now[i] == recs[i] by { }
            assert(recs[r as int] == old(self).receivers@[r as int]);
            assert(now.len() == old(self).receivers@.len());
            let g0 = g;
            g = g0.push(new);
            assert(g.drop_last() =~= g0); assert(g[r as int] == new); assert(received(old(self).receivers@[r as int].q(), old(self).receivers@[r as int].cap(), g[r as int], taken)); assert(g.len() == r + 1); assert forall|i: int| r + 1 <= i < now.len() implies #[trigger] old(self).receivers@[i] == now[i] by { assert(now[i] == recs[i]); } 
 
            let olds = old(self).receivers@;
            assert forall|i: int| 0 <= i < r + 1 implies one_received(olds[i], now[i], #[trigger] g[i]) by { if i < r { assert(g[i] == g0[i]); assert(now[i] == recs[i]); } }
            assert(all_received(olds, now, g, r + 1));
            assert(old(log_handler).got() + joined(g0) + new =~= old(log_handler).got() + (joined(g0) + new));
        }
    @*/
}
}
fn main() {}
