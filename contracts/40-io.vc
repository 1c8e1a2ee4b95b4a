%root vxp
pub use crate::io::*;
pub use crate::errors::{AmqpCodecError, ProtocolIdError};
// ------------------------------------------------------------------ frame extraction (P08)
/// what one call of the frame decoder finds
pub ghost enum Ev { Need, Bad, Frame(Seq<u8>) }
pub open spec fn st_ok(st: DecodeState) -> bool { st matches DecodeState::Frame(n) ==> n >= 4 }
pub open spec fn fstep(n: usize, b: Seq<u8>) -> (Ev, DecodeState, Seq<u8>) {
    if b.len() < n { (Ev::Need, DecodeState::Frame(n), b) } else { (Ev::Frame(b.take(n as int)), DecodeState::FrameHeader, b.skip(n as int)) }
}
/// The decoder is this function of its state and the bytes received so far: a frame is the four bytes of its size and
/// as many bytes more as the size says, nothing else is looked at to find the boundaries.
pub open spec fn step(st: DecodeState, b: Seq<u8>) -> (Ev, DecodeState, Seq<u8>) {
    match st {
        DecodeState::FrameHeader =>
            if b.len() < 8 { (Ev::Need, st, b) }
            else if rd32(b) < 8 { (Ev::Bad, st, b) }
            else { fstep((rd32(b) - 4) as usize, b.skip(4)) },
        DecodeState::Frame(n) => fstep(n, b),
    }
}
/// what is reported for a frame with the content `f`
pub open spec fn reported<T: Decode>(e: Ev, r: Result<Option<T>, AmqpCodecError>) -> bool {
    match e {
        Ev::Need => r == Ok::<Option<T>, AmqpCodecError>(None),
        Ev::Bad => r is Err,
        Ev::Frame(f) => match T::drest1(f) {
            Some(t) => if t.len() == 0 { match r { Ok(Some(v)) => T::dval1(f, v), _ => false } } else { r is Err },
            None => r is Err,
        },
    }
}
/// all frames of a byte sequence (after a bad length nothing more is found), and what remains
pub open spec fn run(st: DecodeState, b: Seq<u8>) -> (Seq<Ev>, DecodeState, Seq<u8>)
    decreases b.len(), (if st is FrameHeader { 0int } else { 1int }),
{
    let (e, st1, b1) = step(st, b);
    match e {
        Ev::Need => (Seq::empty(), st1, b1),
        Ev::Bad => (seq![e], st1, b1),
        Ev::Frame(f) => if b1.len() < b.len() { let (es, st2, b2) = run(st1, b1); (seq![e] + es, st2, b2) } else { (seq![e], st1, b1) },
    }
}
pub open spec fn stuck(es: Seq<Ev>) -> bool { es.len() > 0 && es.last() is Bad }
/// waiting bytes are kept: more bytes later give what they would have given at once
pub proof fn step_more(st: DecodeState, a: Seq<u8>, b: Seq<u8>)
    requires st_ok(st),
    ensures
        step(st, a).0 is Need ==> step(st, a + b) == step(step(st, a).1, step(st, a).2 + b) && step(st, a).2.len() <= a.len(),
        step(st, a).0 is Bad ==> step(st, a + b) == (Ev::Bad, step(st, a).1, step(st, a).2 + b),
        step(st, a).0 matches Ev::Frame(f) ==> step(st, a + b) == (Ev::Frame(f), step(st, a).1, step(st, a).2 + b) && step(st, a).2.len() < a.len(),
        st_ok(step(st, a).1),
{
    let ab = a + b;
    match st {
        DecodeState::FrameHeader => {
            if a.len() >= 8 {
                rd32_prefix(a, b);
                assert(ab.skip(4) =~= a.skip(4) + b);
                if rd32(a) >= 8 {
                    let n = (rd32(a) - 4) as usize;
                    let c = a.skip(4);
                    if c.len() >= n { assert((c + b).take(n as int) =~= c.take(n as int)); assert((c + b).skip(n as int) =~= c.skip(n as int) + b); }
                }
            }
        }
        DecodeState::Frame(n) => {
            if a.len() >= n { assert(ab.take(n as int) =~= a.take(n as int)); assert(ab.skip(n as int) =~= a.skip(n as int) + b); }
        }
    }
}
/// Splitting the stream at any point changes nothing: the frames of `a + b` are those found in `a`, then those found
/// when `b` is added to what remained.
pub proof fn run_split(st: DecodeState, a: Seq<u8>, b: Seq<u8>)
    requires st_ok(st),
    ensures ({
        let (ea, sa, ra) = run(st, a);
        let (eb, sb, rb) = run(sa, ra + b);
        let (e, s, r) = run(st, a + b);
        st_ok(sa) && if stuck(ea) { e == ea && s == sa && r == ra + b } else { e == ea + eb && s == sb && r == rb }
    }),
    decreases a.len(),
{
    step_more(st, a, b);
    let (e, st1, a1) = step(st, a);
    let (ea, sa, ra) = run(st, a);
    match e {
        Ev::Need => {
            let c = run(sa, ra + b);
            assert(step(st, a + b) == step(sa, ra + b));
            assert(ea + c.0 =~= c.0);
            match step(sa, ra + b).0 {
                Ev::Frame(f) => {
                    step_more(sa, ra + b, Seq::empty());
                    step_more(st, a + b, Seq::empty());
                }
                _ => {}
            }
        }
        Ev::Bad => {}
        Ev::Frame(f) => {
            run_split(st1, a1, b);
            let (e1, s1, r1) = run(st1, a1);
            let c = run(s1, r1 + b);
            assert(ea == seq![e] + e1);
            if e1.len() > 0 { assert(ea.last() == e1.last()); } else { assert(ea.last() == e); }
            assert((seq![e] + e1) + c.0 =~= seq![e] + (e1 + c.0));
        }
    }
}
pub open spec fn flat(cs: Seq<Seq<u8>>) -> Seq<u8>
    decreases cs.len(),
{ if cs.len() == 0 { Seq::empty() } else { cs[0] + flat(cs.drop_first()) } }
/// frames found when the chunks arrive one after the other; reception ends at a bad length
pub open spec fn fed(st: DecodeState, b: Seq<u8>, cs: Seq<Seq<u8>>) -> Seq<Ev>
    decreases cs.len(),
{
    let (es, s, r) = run(st, b);
    if cs.len() == 0 || stuck(es) { es } else { es + fed(s, r + cs[0], cs.drop_first()) }
}
/// P08: any partition into chunks gives the frames of the whole
pub proof fn frames_any_partition(st: DecodeState, b: Seq<u8>, cs: Seq<Seq<u8>>)
    requires st_ok(st),
    ensures fed(st, b, cs) == run(st, b + flat(cs)).0,
    decreases cs.len(),
{
    if cs.len() == 0 {
        assert(b + flat(cs) =~= b);
    } else {
        let (es, s, r) = run(st, b);
        run_split(st, b, flat(cs));
        if !stuck(es) {
            frames_any_partition(s, r + cs[0], cs.drop_first());
            assert((r + cs[0]) + flat(cs.drop_first()) =~= r + flat(cs));
        }
    }
}
/// a frame that was written is extracted again: its first four bytes hold its length
pub proof fn frame_found(f: Seq<u8>, t: Seq<u8>)
    requires f.len() >= 8, f.len() <= u32::MAX, rd32(f) == f.len(),
    ensures step(DecodeState::FrameHeader, f + t) == (Ev::Frame(f.skip(4)), DecodeState::FrameHeader, t),
{
    let ft = f + t;
    rd32_prefix(f, t);
    let n = f.len() - 4;
    assert(ft.skip(4).take(n) =~= f.skip(4));
    assert(ft.skip(4).skip(n) =~= t);
}
// ------------------------------------------------------------------ protocol headers (P10)
pub open spec fn protocol_code(p: ProtocolId) -> u8 { match p { ProtocolId::Amqp => 0, ProtocolId::AmqpTls => 2, ProtocolId::AmqpSasl => 3 } }
pub open spec fn protocol_header(p: ProtocolId) -> Seq<u8> { seq![0x41u8, 0x4d, 0x51, 0x50, protocol_code(p), 1, 0, 0] }
pub open spec fn protocol_found(h: Seq<u8>) -> Result<Option<ProtocolId>, ProtocolIdError> {
    if h.take(4) != seq![0x41u8, 0x4d, 0x51, 0x50] { Err(ProtocolIdError::InvalidHeader) }
    else if h.subrange(5, 8) != seq![1u8, 0, 0] { Err(ProtocolIdError::Incompatible) }
    else if h[4] == 0 { Ok(Some(ProtocolId::Amqp)) }
    else if h[4] == 2 { Ok(Some(ProtocolId::AmqpTls)) }
    else if h[4] == 3 { Ok(Some(ProtocolId::AmqpSasl)) }
    else { Err(ProtocolIdError::Unknown) }
}
/// exactly the three headers are recognised, each as what the encoder writes it for
pub proof fn protocol_exact(h: Seq<u8>, p: ProtocolId)
    requires h.len() == 8,
    ensures protocol_found(h) == Ok::<Option<ProtocolId>, ProtocolIdError>(Some(p)) <==> h == protocol_header(p),
{
    let k = protocol_header(p);
    assert(k.take(4) =~= seq![0x41u8, 0x4d, 0x51, 0x50]);
    assert(k.subrange(5, 8) =~= seq![1u8, 0, 0]);
    if protocol_found(h) == Ok::<Option<ProtocolId>, ProtocolIdError>(Some(p)) {
        assert(h.take(4)[0] == 0x41 && h.take(4)[1] == 0x4d && h.take(4)[2] == 0x51 && h.take(4)[3] == 0x50);
        assert(h.subrange(5, 8)[0] == 1 && h.subrange(5, 8)[1] == 0 && h.subrange(5, 8)[2] == 0);
        assert(h =~= k);
    }
}
%%
%fn io::AmqpCodec<T>::new
ensures r.state is FrameHeader,
%impl io::Decoder for AmqpCodec<T>
open spec fn dreq(&self) -> bool { crate::vxp::st_ok(self.state) }
open spec fn dens(pre: Self, b: Seq<u8>, post: Self, a: Seq<u8>, r: Result<Option<T>, AmqpCodecError>) -> bool {
    let (e, st, rest) = crate::vxp::step(pre.state, b);
    post.state == st && a == rest && crate::vxp::reported::<T>(e, r)
}
%loop io::Decoder for AmqpCodec<T>::decode *
invariant
    crate::vxp::st_ok(self.state),
    crate::vxp::step(old(self).state, old($buf)@) == crate::vxp::step(self.state, $buf@),
decreases $buf@.len() + (if self.state is FrameHeader { 1int } else { 0int }),
%impl io::Encoder for AmqpCodec<T>
open spec fn ereq(item: T) -> bool { item.inv() && item.enc().len() <= u32::MAX }
open spec fn eenc(item: T) -> Seq<u8> { item.enc() }
%impl io::Decoder for ProtocolIdCodec
open spec fn dreq(&self) -> bool { true }
open spec fn dens(pre: Self, b: Seq<u8>, post: Self, a: Seq<u8>, r: Result<Option<ProtocolId>, ProtocolIdError>) -> bool {
    if b.len() < 8 { a == b && r == Ok::<Option<ProtocolId>, ProtocolIdError>(None) }
    else { a == b.skip(8) && r == crate::vxp::protocol_found(b.take(8)) }
}
%impl io::Encoder for ProtocolIdCodec
open spec fn ereq(item: ProtocolId) -> bool { true }
open spec fn eenc(item: ProtocolId) -> Seq<u8> { crate::vxp::protocol_header(item) }
%fn framing::AmqpFrame::new
ensures r.channel_id == $p0, r.performative == $p1,
%fn framing::AmqpFrame::channel_id
ensures r == self.channel_id,
%fn framing::AmqpFrame::performative
ensures *r == self.performative,
%fn framing::AmqpFrame::into_parts
ensures r.0 == self.channel_id, r.1 == self.performative,
%fn framing::SaslFrame::new
ensures r.body == $p0,
%%
