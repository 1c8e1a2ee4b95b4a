//! One random case per call, for each property. A case is decided by (seed, property, index) alone.
#![allow(dead_code, unused_macros)]
use crate::av::*;
use crate::msg::{self, What};
use crate::rng::Rng;
use crate::sample::*;
use amqp_codec::protocol::*;
use amqp_codec::types::*;
use amqp_codec::*;
use bytes::{BufMut, Bytes, BytesMut};
use chrono::{DateTime, Utc};
use hashbrown::HashMap;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicBool, Ordering};
use tokio_io::codec::{Decoder, Encoder};
use uuid::Uuid;

pub type Res = Result<(), String>;
pub fn fail(s: String) -> Res {
    Err(short(&s))
}
pub static TRACE: AtomicBool = AtomicBool::new(false);
pub fn note(f: impl FnOnce() -> String) {
    if TRACE.load(Ordering::Relaxed) {
        println!("note: {}", f());
    }
}
pub fn note_bytes(b: &[u8]) {
    note(|| format!("input {}", hex(b)));
}
pub fn bytes_of<T: Encode + ?Sized>(v: &T) -> Vec<u8> {
    let mut b = BytesMut::with_capacity(v.encoded_size().min(1 << 24) * 2 + 8192);
    v.encode(&mut b);
    b.to_vec()
}
pub fn enc_check<T: std::fmt::Debug>(av: &AV, enc: &[u8], v: &T) -> Res {
    match conforms(av, enc) {
        Err(e) => fail(format!("{:?} is encoded as {}: {}", v, hex(enc), e)),
        Ok(rest) if !rest.is_empty() => fail(format!("{:?} is encoded as {}: {} bytes too many", v, hex(enc), rest.len())),
        _ => Ok(()),
    }
}

// ------------------------------------------------------------------ the types
type Case = fn(&mut Rng) -> Res;
macro_rules! table {
    ($f:ident: $($t:ty),* $(,)*) => { [$( (stringify!($t), $f::<$t> as Case) ),*] };
}
macro_rules! prims {
    ($f:ident) => { table![$f: bool, u8, u16, u32, u64, i8, i16, i32, i64, f32, f64, char, DateTime<Utc>, Uuid, Bytes, ByteStr,
        Str, Symbol, Option<bool>, Option<u8>, Option<u16>, Option<u32>, Option<u64>, Option<i32>, Option<i64>, Option<f64>,
        Option<Bytes>, Option<ByteStr>, Option<Str>, Option<Symbol>, Option<DateTime<Utc>>, Option<Uuid>, Option<char>] };
}
macro_rules! arrays {
    ($f:ident) => { table![$f: Vec<bool>, Vec<u8>, Vec<u16>, Vec<u32>, Vec<u64>, Vec<i8>, Vec<i16>, Vec<i32>, Vec<i64>, Vec<f32>,
        Vec<f64>, Vec<char>, Vec<DateTime<Utc>>, Vec<Uuid>, Vec<Bytes>, Vec<ByteStr>, Vec<Symbol>, Multiple<Symbol>, Option<Multiple<Symbol>>] };
}
macro_rules! colls {
    ($f:ident) => { table![$f: List, Variant, Variant, HashMap<Variant, Variant>, HashMap<Symbol, Variant>, HashMap<Str, Variant>,
        HashMap<Symbol, Option<ByteStr>>, HashMap<u32, Bytes>, VecVariantMap, Option<List>] };
}
macro_rules! restr {
    ($f:ident) => { table![$f: Role, SenderSettleMode, ReceiverSettleMode, AmqpError, ConnectionError, SessionError, LinkError,
        SaslCode, TerminusDurability, TerminusExpiryPolicy] };
}
macro_rules! open_ids {
    ($f:ident) => { table![$f: MessageId, ErrorCondition, DistributionMode] };
}
macro_rules! comps {
    ($f:ident) => { table![$f: Error, Open, Begin, Attach, Flow, Disposition, Detach, End, Close, SaslMechanisms, SaslInit,
        SaslChallenge, SaslResponse, SaslOutcome, Source, Target, Header, Properties, Received, Accepted, Rejected, Released, Modified,
        Outcome, DeliveryState, SaslFrameBody] };
}
macro_rules! tailed {
    ($f:ident) => { table![$f: Transfer, Frame, AmqpFrame, SaslFrame] };
}
fn run(r: &mut Rng, t: &[&[(&'static str, Case)]]) -> Res {
    let l = r.pick(t);
    let (n, f) = r.pick(l);
    note(|| format!("type {}", n));
    f(r).map_err(|e| format!("{}: {}", n, e))
}
impl Sample for AmqpFrame {
    fn gen(r: &mut Rng, d: u32) -> Self {
        AmqpFrame::new(r.int() as u16, if r.one_in(12) { Frame::Empty } else { Frame::gen(r, d) })
    }
    fn av(&self) -> AV {
        frame_av(self.performative().av(), 0, self.channel_id(), &[])
    }
}
impl Sample for SaslFrame {
    fn gen(r: &mut Rng, d: u32) -> Self {
        SaslFrame::new(SaslFrameBody::gen(r, d))
    }
    fn av(&self) -> AV {
        frame_av(self.body.av(), 1, 0, &[])
    }
}
/// what follows the length field
fn frame_av(body: AV, ty: u8, ch: u16, ext: &[u8]) -> AV {
    let mut h = vec![2 + (ext.len() / 4) as u8, ty, (ch >> 8) as u8, ch as u8];
    h.extend_from_slice(ext);
    AV::Seq(vec![AV::Tail(h), body])
}

// ------------------------------------------------------------------ round trips
fn round<T: Sample + Encode + Decode>(r: &mut Rng) -> Res {
    let v = T::gen(r, 0);
    let enc = bytes_of(&v);
    back(&v, &enc, r)
}
fn back<T: Sample + Encode + Decode>(v: &T, enc: &[u8], r: &mut Rng) -> Res {
    let tail = gen_bytes(r, 3);
    let mut b = enc.to_vec();
    b.extend_from_slice(&tail);
    note_bytes(&b);
    match T::decode(&b) {
        Err(e) => fail(format!("{:?} is encoded as {}, which does not decode: {:?}", v, hex(enc), e)),
        Ok((rest, w)) => {
            if norm(&v.av()) != norm(&w.av()) {
                return fail(format!("{:?} is encoded as {}, which decodes as {:?}", v, hex(enc), w));
            }
            if rest != &tail[..] {
                return fail(format!("{:?} is encoded as {}; decoding that followed by {} leaves {}", v, hex(enc), hex(&tail), hex(rest)));
            }
            Ok(())
        }
    }
}
fn ordered_map(r: &mut Rng) -> Res {
    let v = VecVariantMap::gen(r, 0);
    let enc = bytes_of(&v);
    match VecVariantMap::decode(&enc) {
        Ok((_, w)) => {
            let k = |m: &VecVariantMap| m.0.iter().map(|(k, v)| (k.av(), norm(&v.av()))).collect::<Vec<_>>();
            if k(&v) != k(&w) {
                return fail(format!("the order of {:?} is not kept: {:?}", v, w));
            }
            Ok(())
        }
        Err(e) => fail(format!("{:?} is encoded as {}, which does not decode: {:?}", v, hex(&enc), e)),
    }
}
fn frame_round(r: &mut Rng) -> Res {
    let (ty, enc, want, chan);
    if r.one_in(3) {
        let f = SaslFrame::gen(r, 0);
        enc = bytes_of(&f);
        want = f.av();
        ty = 1;
        chan = 0;
        frame_header(&enc, ty, chan, f.encoded_size())?;
        let (rest, g) = SaslFrame::decode(&enc[4..]).map_err(|e| format!("{:?} does not decode from its encoding {}: {:?}", f, hex(&enc), e))?;
        if !rest.is_empty() || norm(&g.av()) != norm(&want) {
            return fail(format!("{:?} is read back as {:?}", f, g));
        }
    } else {
        let f = AmqpFrame::gen(r, 0);
        enc = bytes_of(&f);
        want = f.av();
        ty = 0;
        chan = f.channel_id();
        frame_header(&enc, ty, chan, f.encoded_size())?;
        let (rest, g) = AmqpFrame::decode(&enc[4..]).map_err(|e| format!("{:?} does not decode from its encoding {}: {:?}", f, hex(&enc), e))?;
        if !rest.is_empty() || norm(&g.av()) != norm(&want) || g.channel_id() != chan {
            return fail(format!("{:?} is read back as {:?}", f, g));
        }
        let (c, p) = g.clone().into_parts();
        if c != chan || norm(&p.av()) != norm(&g.performative().av()) {
            return fail(format!("into_parts of {:?} gives {:?}", g, (c, p)));
        }
    }
    // extended headers, and all other header bytes
    let body = &enc[8..];
    let doff = if r.one_in(2) { 2 + r.below(6) as u8 } else { r.next() as u8 };
    let ext: Vec<u8> = if doff > 2 { (0..(doff as usize - 2) * 4).map(|_| r.next() as u8).collect() } else { vec![] };
    let ty2 = if r.one_in(3) { r.below(4) as u8 } else { ty };
    let mut b = vec![doff, ty2, (chan >> 8) as u8, chan as u8];
    b.extend_from_slice(&ext);
    b.extend_from_slice(body);
    let cut = r.one_in(4) && !b.is_empty();
    if cut {
        let hl = 4 + ext.len();
        b.truncate(r.below(hl));
    }
    note_bytes(&b);
    let bad = ty2 != ty || doff < 2 || cut;
    let got = if ty == 0 {
        AmqpFrame::decode(&b).map(|(rest, f)| (rest.len(), f.channel_id(), f.performative().av()))
    } else {
        SaslFrame::decode(&b).map(|(rest, f)| (rest.len(), 0, f.body.av()))
    };
    let body_av = match want {
        AV::Seq(mut l) => l.pop().unwrap(),
        x => x,
    };
    match (bad, got) {
        (true, Ok(x)) => fail(format!("the frame {} (type {} expected) is accepted as {:?}", hex(&b), ty, x)),
        (false, Err(e)) => fail(format!("the frame {} (type {} expected) is refused: {:?}", hex(&b), ty, e)),
        (false, Ok((left, c, av))) => {
            if left != 0 || norm(&av) != norm(&body_av) || (ty == 0 && c != chan) {
                return fail(format!("the frame {} is read as channel {} with {:?}, {} bytes left", hex(&b), c, av, left));
            }
            Ok(())
        }
        _ => Ok(()),
    }
}
fn frame_header(enc: &[u8], ty: u8, ch: u16, size: usize) -> Res {
    let n = enc.len();
    let want = [(n >> 24) as u8, (n >> 16) as u8, (n >> 8) as u8, n as u8, 2, ty, (ch >> 8) as u8, ch as u8];
    if n < 8 || enc[..8] != want || size != n {
        return fail(format!("a frame of {} bytes (reported {}) starts with {}, expected {}", n, size, hex(&enc[..n.min(8)]), hex(&want)));
    }
    Ok(())
}

// ------------------------------------------------------------------ sizes and buffers
fn size<T: Sample + Encode>(r: &mut Rng) -> Res {
    let v = T::gen(r, 0);
    size_of(&v, r)
}
fn size_of<T: Encode + std::fmt::Debug>(v: &T, r: &mut Rng) -> Res {
    let prefix = gen_bytes(r, 3);
    let n = v.encoded_size();
    let mut b = BytesMut::with_capacity(n + prefix.len() + 4096);
    b.put_slice(&prefix);
    v.encode(&mut b);
    if b.len() != prefix.len() + n {
        return fail(format!("the size reported for {:?} is {}, encoding it writes {} bytes", v, n, b.len() as i64 - prefix.len() as i64));
    }
    if b[..prefix.len()] != prefix[..] {
        return fail(format!("encoding {:?} changed the {} bytes in the buffer before", v, prefix.len()));
    }
    Ok(())
}
fn exact<T: Sample + Encode>(r: &mut Rng) -> Res {
    let v = T::gen(r, 0);
    exact_of(&v, r)
}
fn exact_of<T: Encode + std::fmt::Debug>(v: &T, r: &mut Rng) -> Res {
    let n = v.encoded_size();
    note(|| format!("{:?}", short(&format!("{:?}", v))));
    let mut b = BytesMut::with_capacity(n.max(40) + r.below(40));
    while b.remaining_mut() > n {
        b.put_u8(7);
    }
    v.encode(&mut b);
    Ok(())
}
fn codec_encode(r: &mut Rng) -> Res {
    let mut b = BytesMut::with_capacity(40 + r.below(6000));
    let fill = r.below(b.remaining_mut() + 1);
    for _ in 0..fill {
        b.put_u8(9);
    }
    let before = b.to_vec();
    let n;
    if r.one_in(3) {
        let f = SaslFrame::gen(r, 0);
        n = f.encoded_size();
        AmqpCodec::<SaslFrame>::new().encode(f, &mut b).map_err(|e| format!("{:?}", e))?;
    } else {
        let f = AmqpFrame::gen(r, 0);
        n = f.encoded_size();
        AmqpCodec::<AmqpFrame>::new().encode(f, &mut b).map_err(|e| format!("{:?}", e))?;
    }
    if b.len() != before.len() + n || b[..before.len()] != before[..] {
        return fail(format!("the frame codec wrote {} bytes after {}, the frame has {}", b.len() as i64 - before.len() as i64, before.len(), n));
    }
    Ok(())
}

// ------------------------------------------------------------------ decoding of permitted encodings
fn reference<T: Sample + Decode>(r: &mut Rng) -> Res {
    let v = T::gen(r, 0);
    let want = v.av();
    let mut b = vec![];
    enc(&want, r, &mut b);
    let n = b.len();
    let tail = gen_bytes(r, 3);
    b.extend_from_slice(&tail);
    note_bytes(&b);
    match T::decode(&b) {
        Err(e) => fail(format!("{}, an encoding of {:?}, is refused: {:?}", hex(&b[..n]), v, e)),
        Ok((rest, w)) => {
            if norm(&w.av()) != norm(&want) {
                return fail(format!("{}, an encoding of {:?}, is read as {:?}", hex(&b[..n]), v, w));
            }
            if rest != &tail[..] {
                return fail(format!("reading {}, an encoding of {:?}, followed by {} leaves {}", hex(&b[..n]), v, hex(&tail), hex(rest)));
            }
            Ok(())
        }
    }
}
fn conform<T: Sample + Encode>(r: &mut Rng) -> Res {
    let v = T::gen(r, 0);
    enc_check(&v.av(), &bytes_of(&v), &v)
}
fn compact(r: &mut Rng) -> Res {
    // compact forms only where they represent the value is part of conform; array elements share one constructor
    let v = Multiple::<Symbol>::gen(r, 0);
    enc_check(&v.av(), &bytes_of(&v), &v)
}
fn static_symbol(r: &mut Rng) -> Res {
    let v = StaticSymbol::gen(r, 0);
    let b = bytes_of(&v);
    match Symbol::decode(&b) {
        Ok((rest, s)) if rest.is_empty() && s.as_str() == v.0 && b.len() == v.encoded_size() => enc_check(&v.av(), &b, &v),
        x => fail(format!("{:?} is encoded as {} ({} reported), which is read as {:?}", v, hex(&b), v.encoded_size(), x)),
    }
}
/// the codes a type accepts
fn kinds(name: &str) -> Option<&'static [u8]> {
    Some(match name {
        "bool" => &[0x56, 0x41, 0x42],
        "u8" => &[0x50],
        "u16" => &[0x60],
        "u32" => &[0x70, 0x52, 0x43],
        "u64" => &[0x80, 0x53, 0x44],
        "i8" => &[0x51],
        "i16" => &[0x61],
        "i32" => &[0x71, 0x54],
        "i64" => &[0x81, 0x55],
        "f32" => &[0x72],
        "f64" => &[0x82],
        "char" => &[0x73],
        "DateTime<Utc>" => &[0x83],
        "Uuid" => &[0x98],
        "Bytes" => &[0xa0, 0xb0],
        "ByteStr" | "Str" => &[0xa1, 0xb1],
        "Symbol" => &[0xa3, 0xb3],
        "List" => &[0x45, 0xc0, 0xd0],
        "HashMap<u32, Bytes>" | "VecVariantMap" | "HashMap<Symbol, Variant>" => &[0xc1, 0xd1],
        "Vec<u32>" | "Vec<Symbol>" | "Vec<u8>" => &[0xe0, 0xf0],
        "MessageId" => &[0x80, 0x53, 0x44, 0x98, 0xa0, 0xb0, 0xa1, 0xb1],
        "Descriptor" => &[0x80, 0x53, 0x44, 0xa3, 0xb3],
        "Variant" => &[
            0x00, 0x40, 0x41, 0x42, 0x56, 0x43, 0x44, 0x45, 0x50, 0x51, 0x52, 0x53, 0x54, 0x55, 0x60, 0x61, 0x70, 0x71, 0x72, 0x73, 0x80,
            0x81, 0x82, 0x83, 0x98, 0xa0, 0xb0, 0xa1, 0xb1, 0xa3, 0xb3, 0xc0, 0xd0, 0xc1, 0xd1,
        ],
        _ => return None,
    })
}
fn code_one<T: Decode + std::fmt::Debug>(name: &str, r: &mut Rng) -> Res {
    let ok = match kinds(name) {
        Some(x) => x,
        None => return Ok(()),
    };
    for c in 0..=255u8 {
        if ok.contains(&c) {
            continue;
        }
        let mut b = vec![c];
        let n = r.below(40);
        b.extend((0..n).map(|_| r.next() as u8 >> r.below(8)));
        note_bytes(&b);
        if let Ok((_, v)) = T::decode(&b) {
            return fail(format!("{}: format code 0x{:02x} in {} is accepted as {:?}", name, c, hex(&b), v));
        }
    }
    Ok(())
}
fn other_codes(r: &mut Rng) -> Res {
    macro_rules! go { ($($t:ty),*) => { $( code_one::<$t>(stringify!($t), r)?; )* } }
    go!(bool, u8, u16, u32, u64, i8, i16, i32, i64, f32, f64, char, DateTime<Utc>, Uuid, Bytes, ByteStr, Str, Symbol);
    go!(List, VecVariantMap, HashMap<Symbol, Variant>, HashMap<u32, Bytes>, Vec<u32>, Vec<Symbol>, Vec<u8>, MessageId, Descriptor, Variant);
    Ok(())
}

// ------------------------------------------------------------------ arbitrary bytes
/// an encoding of some value, damaged
fn damaged(av: &AV, r: &mut Rng) -> Vec<u8> {
    let mut b = vec![];
    enc(av, r, &mut b);
    let n = *r.pick(&[0, 1, 1, 1, 2, 2, 3, 5]);
    for _ in 0..n {
        if b.is_empty() {
            b.push(r.next() as u8);
            continue;
        }
        let i = if r.one_in(3) { r.below(b.len().min(12)) } else { r.below(b.len()) };
        match r.below(10) {
            0 => b[i] = r.next() as u8,
            1 => b[i] ^= 1 << r.below(8),
            2 => {
                b[i] = *r.pick(&[
                    0x00, 0x40, 0x41, 0x43, 0x44, 0x45, 0x52, 0x53, 0x56, 0x70, 0x73, 0x80, 0x83, 0xa0, 0xa1, 0xa3, 0xb0, 0xb1, 0xb3, 0xc0,
                    0xc1, 0xd0, 0xd1, 0xe0, 0xf0, 0xff, 0x7f, 1, 2, 3, 4, 5,
                ])
            }
            3 => b[i] = b[i].wrapping_add(1),
            4 => b[i] = b[i].wrapping_sub(1),
            5 => b.truncate(i),
            6 => b.insert(i, r.next() as u8),
            7 => {
                b.remove(i);
            }
            8 => {
                let x = *r.pick(&[0u32, 1, 2, 3, 4, 5, 0xff, 0x100, 0xffff, 0x7fff_ffff, 0x8000_0000, 0xffff_fffb, 0xffff_fffc, 0xffff_ffff]);
                for k in 0..4 {
                    if i + k < b.len() {
                        b[i + k] = (x >> (24 - 8 * k)) as u8;
                    }
                }
            }
            _ => {
                let j = r.below(b.len());
                let (i, j) = if i < j { (i, j) } else { (j, i) };
                let part: Vec<u8> = b[i..j].iter().take(40).cloned().collect();
                for (k, x) in part.into_iter().enumerate() {
                    b.insert(j + k, x);
                }
            }
        }
    }
    b
}
fn noise<T: Sample>(r: &mut Rng) -> Vec<u8> {
    match r.below(12) {
        0 => (0..r.below(30)).map(|_| r.next() as u8).collect(),
        1 => {
            // a code and plausible small numbers
            let mut b = vec![*r.pick(&[
                0x00u8, 0x40, 0x41, 0x42, 0x56, 0x43, 0x44, 0x45, 0x50, 0x51, 0x52, 0x53, 0x54, 0x55, 0x60, 0x61, 0x70, 0x71, 0x72, 0x73,
                0x80, 0x81, 0x82, 0x83, 0x98, 0xa0, 0xb0, 0xa1, 0xb1, 0xa3, 0xb3, 0xc0, 0xd0, 0xc1, 0xd1, 0xe0, 0xf0,
            ])];
            for _ in 0..r.below(24) {
                b.push(if r.one_in(2) { r.below(6) as u8 } else { r.next() as u8 });
            }
            b
        }
        2 => {
            let v = Variant::gen(r, 1);
            damaged(&v.av(), r)
        }
        _ => {
            let d = if r.one_in(4) { 0 } else { 1 };
            damaged(&T::gen(r, d).av(), r)
        }
    }
}
/// arrays of elements without content of their own: any count fits (recorded as a known finding for memory)
pub fn zero_width(b: &[u8]) -> bool {
    let n = b.len();
    (0..n).any(|i| (b[i] == 0xe0 && i + 3 < n && b[i + 3] >= 0x40 && b[i + 3] <= 0x45) || (b[i] == 0xf0 && i + 9 < n && b[i + 9] >= 0x40 && b[i + 9] <= 0x45))
}
fn no_panic<T: Sample + Decode>(r: &mut Rng) -> Res {
    let b = noise::<T>(r);
    if zero_width(&b) {
        return Ok(());
    }
    note_bytes(&b);
    let res = T::decode(&b);
    if let Ok((rest, _)) = res {
        if rest.len() > b.len() {
            return fail(format!("decoding {} leaves more than there was", hex(&b)));
        }
    }
    Ok(())
}
fn no_panic_msg(r: &mut Rng) -> Res {
    let m = msg::M::gen(r, 1);
    let b = if r.one_in(2) { damaged(&m.av(), r) } else { noise::<Properties>(r) };
    note_bytes(&b);
    let _ = InMessage::decode(&b);
    let _ = OutMessage::decode(&b);
    Ok(())
}
fn no_panic_codec(r: &mut Rng) -> Res {
    let s = stream::<AmqpFrame>(r, true);
    note_bytes(&s);
    let mut b = BytesMut::from(s.clone());
    if r.one_in(2) {
        let _ = feed(&mut AmqpCodec::<AmqpFrame>::new(), &mut b);
    } else {
        let _ = feed(&mut AmqpCodec::<SaslFrame>::new(), &mut b);
    }
    let _ = ProtocolIdCodec.decode(&mut BytesMut::from(s));
    Ok(())
}
fn has_odd_map(v: &AV) -> bool {
    match v {
        AV::Map(m) => {
            let odd = |k: &AV| match k {
                AV::F32(b) => f32::from_bits(*b).is_nan() || *b << 1 == 0,
                AV::F64(b) => f64::from_bits(*b).is_nan() || *b << 1 == 0,
                _ => false,
            };
            m.iter().enumerate().any(|(i, (k, x))| {
                odd(k) || has_nan(k) || has_odd_map(k) || has_odd_map(x) || m[..i].iter().any(|p| norm(&p.0) == norm(k))
            })
        }
        AV::List(l) | AV::Array(l) | AV::Seq(l) => l.iter().any(has_odd_map),
        AV::Desc(a, b) => has_odd_map(a) || has_odd_map(b),
        _ => false,
    }
}
fn has_nan(v: &AV) -> bool {
    match v {
        AV::F32(b) => f32::from_bits(*b).is_nan() || *b << 1 == 0,
        AV::F64(b) => f64::from_bits(*b).is_nan() || *b << 1 == 0,
        AV::Map(m) => m.iter().any(|(k, x)| has_nan(k) || has_nan(x)),
        AV::List(l) | AV::Array(l) | AV::Seq(l) => l.iter().any(has_nan),
        AV::Desc(a, b) => has_nan(a) || has_nan(b),
        _ => false,
    }
}
#[derive(PartialEq, Clone, Copy)]
enum Of {
    Consumed,
    Malformed,
    Value,
}
fn differ<T: Sample + Decode>(r: &mut Rng, of: Of) -> Res {
    let mut b = noise::<T>(r);
    if zero_width(&b) {
        return Ok(());
    }
    let tail = gen_bytes(r, 3);
    b.extend_from_slice(&tail);
    note_bytes(&b);
    let mut s = &b[..];
    let want = Dec { strict: false, depth: 0 }.value(&mut s);
    let left = s.len();
    match T::decode(&b) {
        Err(_) => Ok(()),
        Ok((rest, v)) => {
            if of == Of::Malformed {
                if let Err(e) = want {
                    return fail(format!("{} is not an AMQP encoding ({:?}), it is read as {:?}", hex(&b), e, v));
                }
            }
            if of == Of::Value {
                if let Ok(w) = &want {
                    if !has_odd_map(w) && !has_odd_map(&v.av()) && !same(&v.av(), w) {
                        return fail(format!("{} stands for {:?}, it is read as {:?}", hex(&b), w, v));
                    }
                }
            }
            if of == Of::Consumed {
                if rest.len() > b.len() || rest != &b[b.len() - rest.len()..] {
                    return fail(format!("reading {} hands back {}, which is not its end", hex(&b), hex(rest)));
                }
                if want.is_ok() && rest.len() != left {
                    return fail(format!("reading {} as {:?} hands back {}, expected the last {} bytes", hex(&b), v, hex(rest), left));
                }
                let n = b.len() - rest.len();
                let mut c = b[..n].to_vec();
                if n > 0 {
                    if let Ok((_, w)) = T::decode(&c[..r.below(n)]) {
                        return fail(format!("{} is read as {:?} and a shorter part of it as {:?}", hex(&c), v, w));
                    }
                }
                let t2 = gen_bytes(r, 3);
                c.extend_from_slice(&t2);
                match T::decode(&c) {
                    Ok((rest, w)) if rest == &t2[..] && (norm(&w.av()) == norm(&v.av())) => {}
                    x => return fail(format!("what follows {} changes the result: {:?}, then {:?}", hex(&b[..n]), v, x)),
                }
            }
            Ok(())
        }
    }
}
fn consumed<T: Sample + Decode>(r: &mut Rng) -> Res {
    differ::<T>(r, Of::Consumed)
}
fn malformed<T: Sample + Decode>(r: &mut Rng) -> Res {
    differ::<T>(r, Of::Malformed)
}
fn value<T: Sample + Decode>(r: &mut Rng) -> Res {
    differ::<T>(r, Of::Value)
}
// ------------------------------------------------------------------ composites
fn mandatory<T: Sample + Decode>(r: &mut Rng) -> Res {
    let v = T::gen(r, 1);
    let (code, name, mut f, defs) = match v.av() {
        AV::Comp(c, n, f, d) => (c, n, f, d),
        AV::Seq(l) => match l.into_iter().next() {
            Some(AV::Comp(c, n, f, d)) => (c, n, f, d),
            _ => return Ok(()),
        },
        _ => return Ok(()),
    };
    let mut b = vec![];
    let m = crate::perf::mandatory(code);
    if r.one_in(3) || m.is_empty() {
        // another descriptor
        let d = loop {
            let x = if r.one_in(2) { code ^ (1 << r.below(10)) } else { *r.pick(crate::perf::CODES) };
            if x != code {
                break x;
            }
        };
        if r.one_in(2) {
            enc(&AV::Desc(Box::new(AV::U64(d)), Box::new(AV::List(f))), r, &mut b);
        } else {
            let mut n = name.to_string();
            match r.below(3) {
                0 => {
                    n.pop();
                }
                1 => n.push('x'),
                _ => n = n.replace(":list", ":map"),
            }
            enc(&AV::Desc(Box::new(AV::Sym(n)), Box::new(AV::List(f))), r, &mut b);
        }
        note_bytes(&b);
        return match T::decode(&b) {
            Ok((_, w)) if w.av() == AV::Seq(vec![]) => Ok(()),
            Ok((_, w)) if as_code(&w.av()) == Some(d) => Ok(()),
            Ok((_, w)) => fail(format!("{} has another descriptor, it is read as {:?}", hex(&b), w)),
            Err(_) => Ok(()),
        };
    }
    let i = *r.pick(m);
    if r.one_in(2) {
        f[i] = AV::Null;
    } else {
        f.truncate(i);
    }
    let defs_none: &'static [Option<AVDefault>] = defs;
    enc(&AV::Comp(code, name, f, defs_none), r, &mut b);
    note_bytes(&b);
    match T::decode(&b) {
        Ok((_, w)) => fail(format!("{} lacks mandatory field {}, it is read as {:?}", hex(&b), i, w)),
        Err(_) => Ok(()),
    }
}
fn as_code(v: &AV) -> Option<u64> {
    match v {
        AV::Comp(c, ..) => Some(*c),
        AV::Seq(l) => l.first().and_then(as_code),
        _ => None,
    }
}
fn restricted_of<T: Sample + Encode + Decode>(name: &str, r: &mut Rng) -> Res {
    let (_, vals, names) = crate::perf::restricted().into_iter().find(|x| x.0 == name).unwrap();
    for (v, n) in vals.iter().zip(&names) {
        let mut b = vec![];
        enc(v, r, &mut b);
        note_bytes(&b);
        match T::decode(&b) {
            Ok((rest, x)) if rest.is_empty() && x.av() == *v && format!("{:?}", x) == *n => {
                let e = bytes_of(&x);
                enc_check(v, &e, &x)?;
                if x.encoded_size() != e.len() {
                    return fail(format!("{}::{:?} reports {} bytes and has {}", name, x, x.encoded_size(), e.len()));
                }
            }
            x => return fail(format!("{:?} ({}) of {} is read as {:?}", v, hex(&b), name, x)),
        }
    }
    for _ in 0..20 {
        let v = match &vals[0] {
            AV::Sym(_) => AV::Sym(match r.below(3) {
                0 => gen_string(r, 3),
                _ => {
                    let mut s = match r.pick(&vals) {
                        AV::Sym(s) => s.clone(),
                        _ => String::new(),
                    };
                    match r.below(4) {
                        0 => {
                            s.pop();
                        }
                        1 => s.push(*r.pick(&['a', '-', ':', '\0'])),
                        2 => s = s.to_uppercase(),
                        _ => s.insert(0, 'x'),
                    }
                    s
                }
            }),
            AV::U8(_) => AV::U8(r.int() as u8),
            AV::U32(_) => AV::U32(r.int() as u32),
            AV::U16(_) => AV::U16(r.int() as u16),
            _ => break,
        };
        if vals.contains(&v) {
            continue;
        }
        let mut b = vec![];
        enc(&v, r, &mut b);
        note_bytes(&b);
        if let Ok((_, x)) = T::decode(&b) {
            return fail(format!("{:?} ({}), not a value of {}, is read as {:?}", v, hex(&b), name, x));
        }
    }
    Ok(())
}
fn restricted(r: &mut Rng) -> Res {
    macro_rules! go { ($($t:ident),*) => { match r.below(10) { $( x if x == idx(stringify!($t)) => restricted_of::<$t>(stringify!($t), r), )* _ => Ok(()) } } }
    fn idx(n: &str) -> usize {
        ["Role", "SenderSettleMode", "ReceiverSettleMode", "AmqpError", "ConnectionError", "SessionError", "LinkError", "SaslCode",
            "TerminusDurability", "TerminusExpiryPolicy"].iter().position(|x| *x == n).unwrap()
    }
    go!(Role, SenderSettleMode, ReceiverSettleMode, AmqpError, ConnectionError, SessionError, LinkError, SaslCode, TerminusDurability, TerminusExpiryPolicy)
}

// ------------------------------------------------------------------ the frame codec
fn stream<T: Sample + Encode>(r: &mut Rng, junk: bool) -> Vec<u8> {
    let mut s = vec![];
    let n = r.below(6);
    for _ in 0..n {
        match r.below(if junk { 9 } else { 6 }) {
            0 | 1 | 2 => {
                let v = T::gen(r, 1);
                s.extend(bytes_of(&v));
            }
            3 => {
                // another permitted encoding, perhaps with an extended header
                let v = T::gen(r, 1).av();
                let mut b = vec![];
                enc(&v, r, &mut b);
                if r.one_in(2) && b.len() >= 4 {
                    let k = r.below(4);
                    b[0] = 2 + k as u8;
                    for _ in 0..4 * k {
                        b.insert(4, r.next() as u8);
                    }
                }
                put_frame(&mut s, &b);
            }
            4 => {
                // content that does not decode
                let v = T::gen(r, 2).av();
                let b = damaged(&v, r);
                if b.len() >= 4 && !zero_width(&b) {
                    put_frame(&mut s, &b);
                }
            }
            5 => {
                let k = 4 + r.below(12);
                let b: Vec<u8> = (0..k).map(|_| r.next() as u8).collect();
                put_frame(&mut s, &b);
            }
            6 => {
                // length too small
                let k = r.below(8);
                s.extend_from_slice(&[0, 0, 0, k as u8]);
            }
            7 => {
                let k = r.below(8);
                s.extend((0..k).map(|_| r.next() as u8));
            }
            _ => {
                let b = bytes_of(&T::gen(r, 2));
                let k = r.below(b.len() + 1);
                s.extend_from_slice(&b[..k]);
            }
        }
    }
    s
}
fn put_frame(s: &mut Vec<u8>, b: &[u8]) {
    let n = b.len() + 4;
    s.extend_from_slice(&[(n >> 24) as u8, (n >> 16) as u8, (n >> 8) as u8, n as u8]);
    s.extend_from_slice(b);
}
/// events until the decoder wants more or refuses the stream
fn feed<T: Sample + Decode + Encode>(c: &mut AmqpCodec<T>, src: &mut BytesMut) -> Vec<Result<AV, String>> {
    let mut out = vec![];
    for _ in 0..1000 {
        let len = src.len();
        match c.decode(src) {
            Ok(None) => return out,
            Ok(Some(f)) => out.push(Ok(norm(&f.av()))),
            Err(e) => {
                out.push(Err(format!("{:?}", e)));
                if src.len() == len {
                    out.push(Err("stuck".into()));
                    return out;
                }
            }
        }
    }
    out.push(Err("endless".into()));
    out
}
fn framing<T: Sample + Encode + Decode>(r: &mut Rng) -> Res {
    let s = stream::<T>(r, true);
    note_bytes(&s);
    // what the length fields say
    let mut want = vec![];
    let mut p = 0;
    let mut rest = None;
    while s.len() - p >= 8 {
        let n = ((s[p] as usize) << 24) | ((s[p + 1] as usize) << 16) | ((s[p + 2] as usize) << 8) | s[p + 3] as usize;
        if n < 8 {
            rest = Some(s.len() - p);
            break;
        }
        if s.len() - p < n {
            rest = Some(s.len() - p - 4);
            break;
        }
        match T::decode(&s[p + 4..p + n]) {
            Ok((left, f)) => want.push(if left.is_empty() { Some(norm(&f.av())) } else { None }),
            Err(_) => want.push(None),
        }
        p += n;
    }
    let bad_len = rest.is_some() && s.len() - p >= 8 && s[p..p + 3] == [0, 0, 0] && s[p + 3] < 8;
    let rest = rest.unwrap_or(s.len() - p);
    let check = |ev: &[Result<AV, String>], left: usize, how: &str| -> Res {
        let mut e: Vec<Option<AV>> = vec![];
        let mut stuck = false;
        for x in ev {
            match x {
                Ok(f) => e.push(Some(f.clone())),
                Err(m) if m == "stuck" => stuck = true,
                Err(m) if m == "endless" => return fail(format!("{}: endless events on {}", how, hex(&s))),
                Err(_) => e.push(None),
            }
        }
        if stuck {
            e.pop();
        }
        if e != want || stuck != bad_len || left != rest {
            return fail(format!("{}: the stream {} gives {:?} with {} bytes left; its length fields say {:?}, {} left{}", how, hex(&s), ev, left, want,
                rest, if bad_len { ", then a length below 8" } else { "" }));
        }
        Ok(())
    };
    let mut b = BytesMut::from(s.clone());
    let ev = feed(&mut AmqpCodec::<T>::new(), &mut b);
    check(&ev, b.len(), "whole")?;
    for _ in 0..2 {
        let mut c = AmqpCodec::<T>::new();
        let mut b = BytesMut::with_capacity(64 + r.below(200));
        let mut p = 0;
        let mut ev2: Vec<Result<AV, String>> = vec![];
        let mode = r.below(3);
        let mut cuts = vec![];
        while p < s.len() {
            let k = match mode {
                0 => 1,
                1 => 1 + r.below(12),
                _ => 1 + r.below(s.len()),
            }
            .min(s.len() - p);
            b.reserve(k);
            b.put_slice(&s[p..p + k]);
            p += k;
            cuts.push(p);
            if ev2.last() == Some(&Err("stuck".into())) {
                ev2.pop();
                ev2.pop();
            }
            ev2.extend(feed(&mut c, &mut b));
        }
        check(&ev2, b.len(), &format!("cut at {:?}", cuts))?;
        if ev2 != ev {
            return fail(format!("cut at {:?}, {} gives {:?}; whole it gives {:?}", cuts, hex(&s), ev2, ev));
        }
    }
    Ok(())
}
fn protocol_header(r: &mut Rng) -> Res {
    let mut h = vec![b'A', b'M', b'Q', b'P', *r.pick(&[0u8, 2, 3, 0, 2, 3, 1, 4]), 1, 0, 0];
    for _ in 0..*r.pick(&[0, 0, 1, 1, 2]) {
        let i = r.below(8);
        h[i] = match r.below(3) {
            0 => r.next() as u8,
            1 => h[i] ^ (1 << r.below(8)),
            _ => h[i].wrapping_add(1),
        };
    }
    let tail = gen_bytes(r, 3);
    let n = r.below(9);
    let mut b = BytesMut::with_capacity(64);
    let mut c = ProtocolIdCodec;
    for (i, x) in h.iter().enumerate() {
        if i == n {
            match c.decode(&mut b) {
                Ok(None) if b.len() == n => {}
                x => return fail(format!("{} bytes of a protocol header give {:?}, {} bytes left", n, x, b.len())),
            }
        }
        b.put_u8(*x);
    }
    b.reserve(tail.len());
    b.put_slice(&tail);
    let id = match (&h[..4] == b"AMQP", h[5..8] == [1, 0, 0], h[4]) {
        (false, _, _) => Err("InvalidHeader"),
        (_, false, _) => Err("Incompatible"),
        (_, _, 0) => Ok(ProtocolId::Amqp),
        (_, _, 2) => Ok(ProtocolId::AmqpTls),
        (_, _, 3) => Ok(ProtocolId::AmqpSasl),
        _ => Err("Unknown"),
    };
    let got = match c.decode(&mut b) {
        Ok(Some(x)) => Ok(x),
        Ok(None) => Err("None".to_string()),
        Err(e) => Err(format!("{:?}", e)),
    };
    if got != id.map_err(|x| x.to_string()) {
        return fail(format!("the protocol header {} is read as {:?}, expected {:?}", hex(&h), got, id));
    }
    if b[..] != tail[..] {
        return fail(format!("after the protocol header {} follow {} and {} is left", hex(&h), hex(&tail), hex(&b)));
    }
    let p = *r.pick(&[ProtocolId::Amqp, ProtocolId::AmqpTls, ProtocolId::AmqpSasl]);
    let mut o = BytesMut::from(tail.clone());
    c.encode(p, &mut o).map_err(|e| format!("{:?}", e))?;
    let want = [b'A', b'M', b'Q', b'P', match p { ProtocolId::Amqp => 0, ProtocolId::AmqpTls => 2, ProtocolId::AmqpSasl => 3 }, 1, 0, 0];
    if o[..tail.len()] != tail[..] || o[tail.len()..] != want {
        return fail(format!("{:?} is written as {}", p, hex(&o)));
    }
    Ok(())
}

// ------------------------------------------------------------------ times
fn times(r: &mut Rng) -> Res {
    let ms = match r.below(4) {
        0 => r.next() as i64,
        1 => r.int() as i64,
        _ => gen_ms(r),
    };
    let mut b = vec![0x83];
    b.extend((0..8).rev().map(|i| (ms as u64 >> (8 * i)) as u8));
    note_bytes(&b);
    let inside = ms >= TS_MIN && ms <= TS_MAX;
    let fits = |x: &DateTime<Utc>| x.av() == AV::Ts(ms) && x.timestamp_subsec_nanos() % 1_000_000 == 0 && x.timestamp_subsec_nanos() < 1_000_000_000;
    match (DateTime::<Utc>::decode(&b), Variant::decode(&b)) {
        (Ok((_, x)), Ok((_, Variant::Timestamp(y)))) if inside => {
            if !fits(&x) || !fits(&y) {
                return fail(format!("{} ms ({}) are read as {:?} and {:?}", ms, hex(&b), x, y));
            }
            if bytes_of(&x) != b {
                return fail(format!("{} ms, read as {:?}, are written as {}", ms, x, hex(&bytes_of(&x))));
            }
        }
        (Err(_), Err(_)) if !inside => {}
        x => return fail(format!("{} ms ({}) are read as {:?}", ms, hex(&b), x)),
    }
    // sub-millisecond parts, leap seconds
    let ms = gen_ms(r);
    let ns = *r.pick(&[0u32, 1, 499_999, 500_000, 999_999]);
    let t = time(ms, ns);
    let mut want = vec![0x83];
    want.extend((0..8).rev().map(|i| (ms as u64 >> (8 * i)) as u8));
    if bytes_of(&t) != want || bytes_of(&Variant::Timestamp(t)) != want {
        return fail(format!("{:?}, {} ms and {} ns, is written as {}", t, ms, ns, hex(&bytes_of(&t))));
    }
    let l = vec![t, time(gen_ms(r), 0)];
    let e = bytes_of(&l);
    match Vec::<DateTime<Utc>>::decode(&e) {
        Ok((_, g)) if g.len() == 2 && g[0].av() == AV::Ts(ms) && g[1] == l[1] => Ok(()),
        x => fail(format!("{:?} is written as {} and read as {:?}", l, hex(&e), x)),
    }
}

// ------------------------------------------------------------------ equality, order, hash
fn h<T: Hash + ?Sized>(x: &T) -> u64 {
    let mut s = DefaultHasher::new();
    x.hash(&mut s);
    s.finish()
}
fn word(r: &mut Rng) -> String {
    match r.below(4) {
        0 => gen_string(r, 3),
        1 => static_words(r).to_string(),
        _ => r.pick(&["", "a", "b", "ab", "aa", "ba", "é", "a\0", "\u{10000}", "\u{ffff}"]).to_string(),
    }
}
/// a string that differs from the given one in one place (rarely in none)
fn near(s: &str, r: &mut Rng) -> String {
    let mut c: Vec<char> = s.chars().collect();
    let i = if c.is_empty() { 0 } else { r.below(c.len()) };
    let other = |x: char| if x.is_lowercase() { x.to_uppercase().next() } else { x.to_lowercase().next() }.unwrap_or(x);
    match r.below(10) {
        0 | 1 if !c.is_empty() => c[i] = other(c[i]),
        2 => c = c.into_iter().map(other).collect(),
        3 if !c.is_empty() => c[i] = std::char::from_u32(c[i] as u32 ^ (1 << r.below(12))).unwrap_or('x'),
        4 if !c.is_empty() => {
            let j = r.below(c.len());
            c.swap(i, j)
        }
        5 => {
            c.pop();
        }
        6 if !c.is_empty() => {
            c.remove(i);
        }
        7 => c.push(*r.pick(&[' ', '\0', 'a', '\t', 'é'])),
        8 => c.insert(0, *r.pick(&[' ', '\0', 'a'])),
        _ if !c.is_empty() => {
            let i = c.len() - 1;
            c[i] = std::char::from_u32(c[i] as u32 ^ 1).unwrap_or('x')
        }
        _ => c.push('a'),
    }
    c.into_iter().collect()
}
/// the value with one leaf changed
fn nudge(v: &Variant, r: &mut Rng) -> Variant {
    use ordered_float::OrderedFloat;
    let bit = 1u64 << r.below(64);
    match v {
        Variant::Null => Variant::Boolean(false),
        Variant::Boolean(b) => Variant::Boolean(!b),
        Variant::Ubyte(x) => Variant::Ubyte(x ^ (bit % 251) as u8),
        Variant::Ushort(x) => Variant::Ushort(x ^ (bit % 65521) as u16),
        Variant::Uint(x) => Variant::Uint(x ^ (bit % 4294967291) as u32),
        Variant::Ulong(x) => Variant::Ulong(x ^ bit),
        Variant::Byte(x) => Variant::Byte(x ^ (bit % 251) as i8),
        Variant::Short(x) => Variant::Short(x ^ (bit % 65521) as i16),
        Variant::Int(x) => Variant::Int(x ^ (bit % 4294967291) as i32),
        Variant::Long(x) => Variant::Long(x ^ bit as i64),
        Variant::Float(x) => Variant::Float(OrderedFloat(f32::from_bits(x.0.to_bits() ^ (bit % 4294967291) as u32))),
        Variant::Double(x) => Variant::Double(OrderedFloat(f64::from_bits(x.0.to_bits() ^ bit))),
        Variant::Char(x) => Variant::Char(std::char::from_u32(*x as u32 ^ (bit % 65521) as u32).unwrap_or('x')),
        Variant::Binary(b) => {
            let mut b = b.to_vec();
            if b.is_empty() || r.one_in(4) {
                b.push(0);
            } else {
                let i = r.below(b.len());
                b[i] ^= (bit % 251) as u8;
            }
            Variant::Binary(b.into())
        }
        Variant::String(s) => Variant::String(Str::from(leak(near(s.as_str(), r)))),
        Variant::Symbol(s) => Variant::Symbol(Symbol::from_slice(&near(s.as_str(), r))),
        Variant::List(l) => {
            let mut l = l.0.clone();
            if l.is_empty() || r.one_in(5) {
                l.push(Variant::Null);
            } else if r.one_in(5) {
                l.pop();
            } else {
                let (i, j) = (r.below(l.len()), r.below(l.len()));
                if r.one_in(4) {
                    l.swap(i, j);
                } else {
                    l[i] = nudge(&l[i], r);
                }
            }
            Variant::List(List(l))
        }
        Variant::Map(m) => {
            let mut m = m.map.clone();
            let keys: Vec<Variant> = m.keys().cloned().collect();
            if keys.is_empty() {
                m.insert(Variant::Null, Variant::Null);
            } else {
                let k = r.pick(&keys).clone();
                let x = m.remove(&k).unwrap_or(Variant::Null);
                match r.below(3) {
                    0 => (),
                    1 => drop(m.insert(nudge(&k, r), x)),
                    _ => drop(m.insert(k, nudge(&x, r))),
                }
            }
            Variant::Map(VariantMap::new(m))
        }
        Variant::Described((d, x)) => {
            let e = match d {
                Descriptor::Ulong(u) => Descriptor::Ulong(u ^ bit),
                Descriptor::Symbol(s) => Descriptor::Symbol(Symbol::from_slice(&near(s.as_str(), r))),
            };
            if r.one_in(2) {
                Variant::Described((e, x.clone()))
            } else {
                Variant::Described((d.clone(), Box::new(nudge(x, r))))
            }
        }
        _ => Variant::gen(r, 1),
    }
}
fn strs(s: &str, r: &mut Rng) -> Vec<(Str, &'static str)> {
    let mut l = vec![(Str::from_str(s), "from_str"), (Str::from(leak(s.to_string())), "static"), (Str::from(ByteStr::from_str(s)), "bytes")];
    let mut b = vec![];
    enc(&AV::Str(s.to_string()), r, &mut b);
    if let Ok((_, x)) = Str::decode(&b) {
        l.push((x, "decoded"));
    }
    l
}
fn equality(r: &mut Rng) -> Res {
    let a = if r.one_in(2) { word(r) } else { gen_string(r, 2) };
    let b = match r.below(4) {
        0 => a.clone(),
        1 => word(r),
        _ => near(&a, r),
    };
    for (x, nx) in strs(&a, r) {
        if x.as_str() != a || x.as_bytes() != a.as_bytes() || x.len() != a.len() {
            return fail(format!("{} string {:?} holds {:?}", nx, a, x.as_str()));
        }
        for (y, ny) in strs(&b, r) {
            let what = || format!("{} string {:?} and {} string {:?}", nx, a, ny, b);
            if (x == y) != (a == b) || (x != y) != (a != b) {
                return fail(format!("{} compare {}", what(), if x == y { "equal" } else { "different" }));
            }
            if x.cmp(&y) != a.cmp(&b) || x.partial_cmp(&y) != Some(a.cmp(&b)) || (x < y) != (a < b) {
                return fail(format!("{} order as {:?}", what(), x.cmp(&y)));
            }
            if a == b && h(&x) != h(&y) {
                return fail(format!("{} hash differently", what()));
            }
            if (x == *b.as_str()) != (a == b) {
                return fail(format!("{}: comparison with a plain string", what()));
            }
        }
        if h(&x) != h(a.as_str()) {
            return fail(format!("{} string {:?} and the plain string hash differently", nx, a));
        }
        let mut m: HashMap<Str, u32> = HashMap::new();
        m.insert(x, 1);
        if m.get(b.as_str()).is_some() != (a == b) {
            return fail(format!("looking up {:?} among the key {} string {:?}", b, nx, a));
        }
    }
    let syms = |s: &str, r: &mut Rng| {
        let mut b = vec![];
        enc(&AV::Sym(s.to_string()), r, &mut b);
        let mut l = vec![Symbol::from_slice(s), Symbol::from(leak(s.to_string())), Symbol::from(ByteStr::from_str(s))];
        l.extend(Symbol::decode(&b).ok().map(|x| x.1));
        l
    };
    for x in syms(&a, r) {
        for y in syms(&b, r) {
            if (x == y) != (a == b) || (a == b && h(&x) != h(&y)) || (x == *b.as_str()) != (a == b) {
                return fail(format!("symbols {:?} and {:?}: equal {}, hashes {} {}", x, y, x == y, h(&x), h(&y)));
            }
            let (d, e) = (Descriptor::Symbol(x.clone()), Descriptor::Symbol(y.clone()));
            if (d == e) != (a == b) || (a == b && h(&d) != h(&e)) {
                return fail(format!("descriptors {:?} and {:?}", d, e));
            }
        }
        let mut m: HashMap<Symbol, u32> = HashMap::new();
        m.insert(x.clone(), 1);
        if m.get(b.as_str()).is_some() != (a == b) || h(&x) != h(a.as_str()) {
            return fail(format!("looking up {:?} among the symbol {:?}", b, a));
        }
    }
    let (sa, sb) = (StaticSymbol(leak(a.clone())), StaticSymbol(leak(b.clone())));
    if (sa == sb) != (a == b) || (a == b && h(&sa) != h(&sb)) {
        return fail(format!("static symbols {:?} and {:?}", sa, sb));
    }
    Ok(())
}
/// the same value in other representations: strings shared or static, maps with another history
fn twin(v: &Variant, r: &mut Rng) -> Variant {
    match v {
        Variant::String(s) => {
            let l = strs(s.as_str(), r);
            Variant::String(r.pick(&l).0.clone())
        }
        Variant::Symbol(s) => Variant::Symbol(if r.one_in(2) { Symbol::from_slice(s.as_str()) } else { Symbol::from(leak(s.as_str().to_string())) }),
        Variant::List(l) => Variant::List(List(l.0.iter().map(|x| twin(x, r)).collect())),
        Variant::Map(m) => {
            let mut l: Vec<(Variant, Variant)> = m.map.iter().map(|(k, v)| (twin(k, r), twin(v, r))).collect();
            for i in (1..l.len()).rev() {
                l.swap(i, r.below(i + 1));
            }
            let mut m = HashMap::with_capacity(r.below(40));
            for i in 0..r.below(20) {
                m.insert(Variant::Ulong(77_777 + i as u64), Variant::Null);
            }
            for (k, v) in l {
                m.insert(k, v);
            }
            let keys: Vec<Variant> = m.keys().cloned().collect();
            for k in keys {
                if let Variant::Ulong(x) = k {
                    if x >= 77_777 && x < 77_797 {
                        m.remove(&k);
                    }
                }
            }
            Variant::Map(VariantMap::new(m))
        }
        Variant::Described((d, x)) => {
            let d = match d {
                Descriptor::Symbol(s) => match twin(&Variant::Symbol(s.clone()), r) {
                    Variant::Symbol(s) => Descriptor::Symbol(s),
                    _ => d.clone(),
                },
                d => d.clone(),
            };
            Variant::Described((d, Box::new(twin(x, r))))
        }
        Variant::Float(x) if x.0.is_nan() => Variant::Float(ordered_float::OrderedFloat(f32::from_bits(0x7fc0_0000 | r.below(5) as u32))),
        Variant::Float(x) if x.0 == 0.0 => Variant::Float(ordered_float::OrderedFloat(if r.one_in(2) { 0.0 } else { -0.0 })),
        Variant::Double(x) if x.0 == 0.0 => Variant::Double(ordered_float::OrderedFloat(if r.one_in(2) { 0.0 } else { -0.0 })),
        x => x.clone(),
    }
}
fn marked(v: &AV) -> bool {
    match v {
        AV::U64(x) => *x >= 77_777 && *x < 77_797,
        AV::List(l) => l.iter().any(marked),
        AV::Map(l) => l.iter().any(|p| marked(&p.0) || marked(&p.1)),
        AV::Desc(a, b) => marked(a) || marked(b),
        _ => false,
    }
}
fn variants(r: &mut Rng) -> Res {
    let v = Variant::gen(r, 1);
    if marked(&v.av()) {
        return Ok(());
    }
    let w = twin(&v, r);
    if v != w || w != v {
        return fail(format!("{:?} and {:?} have the same content and compare different", v, w));
    }
    if h(&v) != h(&w) {
        return fail(format!("{:?} and {:?} are equal and hash differently", v, w));
    }
    let x = if r.one_in(2) { nudge(&w, r) } else { Variant::gen(r, 1) };
    let same_av = |a: &Variant, b: &Variant| norm(&a.av()) == norm(&b.av());
    if v == x && !same_av(&v, &x) && !has_nan(&v.av()) && !has_nan(&x.av()) {
        return fail(format!("{:?} and {:?} compare equal", v, x));
    }
    if v == x && h(&v) != h(&x) {
        return fail(format!("{:?} and {:?} are equal and hash differently", v, x));
    }
    // one element changed
    let (l, k) = (List(vec![v.clone(), x.clone()]), List(vec![w.clone(), v.clone()]));
    if l == k && !same_av(&v, &x) && !has_nan(&v.av()) {
        return fail(format!("{:?} and {:?} compare equal", l, k));
    }
    if l == k && h(&l) != h(&k) {
        return fail(format!("{:?} and {:?} are equal and hash differently", l, k));
    }
    let mut m = HashMap::new();
    m.insert(v.clone(), 1u32);
    if m.get(&w).is_none() {
        return fail(format!("{:?} is not found under the key {:?}", w, v));
    }
    Ok(())
}

// ------------------------------------------------------------------ memory
fn memory_of<T: Decode>(b: &[u8], name: &str) -> Res {
    note(|| format!("as {}", name));
    crate::alloc::start();
    let res = T::decode(b).map(|x| x.0.len());
    let (most, total) = crate::alloc::stop();
    let lim = 1024 * b.len() + 4096;
    if most > lim || total > 64 * lim {
        return fail(format!("decoding {} as {} ({:?}) asks for {} bytes at once, {} in all", hex(b), name, res, most, total));
    }
    Ok(())
}
fn claims(r: &mut Rng, d: u32, out: &mut Vec<u8>) {
    let mut b = vec![];
    let n = r.below(4);
    for _ in 0..n {
        if d < 4 && r.one_in(3) {
            claims(r, d + 1, &mut b);
        } else {
            let v = if r.one_in(2) { Variant::gen(r, 4).av() } else { AV::Sym(gen_string(r, 4)) };
            enc(&v, r, &mut b);
        }
    }
    let big = |r: &mut Rng| *r.pick(&[0u32, 1, 2, 200, 255, 256, 1000, 65_536, 1_000_000, 40_000_000, 0x0fff_ffff, 0x3fff_ffff, 0x7fff_ffff, 0xffff_fffe, 0xffff_ffff]);
    let c = *r.pick(&[0xc0u8, 0xc1, 0xd0, 0xd1, 0xd0, 0xd1, 0xf0, 0xe0]);
    out.push(c);
    if c & 0xf0 == 0xf0 || c & 0xf0 == 0xe0 {
        b.insert(0, *r.pick(&[0xa3, 0xb3, 0x50, 0x70, 0x83, 0xc1, 0xd0]));
    }
    let mut be = |x: u32| (0..4).rev().for_each(|i| out.push((x >> (8 * i)) as u8));
    if c == 0xd0 || c == 0xd1 || c == 0xf0 {
        let s = if r.one_in(4) { big(r) } else { b.len() as u32 + 4 };
        be(s);
        let k = big(r);
        be(k);
    } else {
        let s = if r.one_in(4) { r.next() as u8 } else { (b.len() + 1) as u8 };
        let k = if r.one_in(2) { 255 } else { r.next() as u8 };
        out.push(s);
        out.push(k);
    }
    out.extend_from_slice(&b);
}
fn memory(r: &mut Rng) -> Res {
    let mut b = vec![];
    match r.below(4) {
        0 => b = noise::<Open>(r),
        1 => {
            let code = *r.pick(crate::perf::CODES);
            b.extend_from_slice(&[0, 0x53, code as u8]);
            claims(r, 0, &mut b);
        }
        2 => {
            let code = *r.pick(&[113u8, 114, 115, 116, 117, 118, 119, 120]);
            b.extend_from_slice(&[0, 0x53, code]);
            claims(r, 0, &mut b);
        }
        _ => claims(r, 0, &mut b),
    }
    if zero_width(&b) {
        return Ok(());
    }
    note_bytes(&b);
    macro_rules! go { ($($t:ty),*) => { $( memory_of::<$t>(&b, stringify!($t))?; )* } }
    go!(Variant, List, VecVariantMap, HashMap<Variant, Variant>, HashMap<Symbol, Variant>, HashMap<Str, Variant>, HashMap<Symbol, Option<ByteStr>>);
    go!(Vec<u8>, Vec<Symbol>, Vec<u64>, Vec<Bytes>, Multiple<Symbol>, Frame, InMessage, OutMessage, SaslFrameBody, Source, DeliveryState);
    Ok(())
}

// ------------------------------------------------------------------ accessors of performatives and frames
fn accessors(r: &mut Rng) -> Res {
    let ch = r.int() as u16;
    let f = Frame::gen(r, 1);
    let av = f.av();
    let fr = AmqpFrame::new(ch, f);
    if fr.channel_id() != ch || fr.performative().av() != av {
        return fail(format!("{:?} reports channel {} and {:?}", fr, fr.channel_id(), fr.performative()));
    }
    let (c, p) = fr.into_parts();
    if c != ch || p.av() != av {
        return fail(format!("into_parts gives channel {} and {:?}", c, p));
    }
    crate::perf::getters(r)?;
    let h = SaslInit::gen(r, 1);
    let b = SaslFrame::from(h.clone());
    if b.body.av() != h.av() {
        return fail(format!("the frame of {:?} is {:?}", h, b));
    }
    let m = SaslMechanisms::gen(r, 1);
    let o = SaslOutcome::gen(r, 1);
    let (ch, re) = (SaslChallenge::gen(r, 1), SaslResponse::gen(r, 1));
    if SaslFrame::from(m.clone()).body.av() != m.av() || SaslFrame::from(o.clone()).body.av() != o.av() || SaslFrame::from(ch.clone()).body.av() != ch.av()
        || SaslFrame::from(re.clone()).body.av() != re.av() {
        return fail(format!("the frame of {:?}, {:?}, {:?} or {:?}", m, o, ch, re));
    }
    Ok(())
}

pub fn case(prop: &str, r: &mut Rng) -> Res {
    match prop {
        #[cfg(feature = "P01")]
        "P01" => match r.below(12) {
            0 => static_symbol(r),
            _ => run(r, &[&prims!(round)]),
        },
        #[cfg(feature = "P02")]
        "P02" => match r.below(8) {
            0 => msg::history::<InMessage>(r, 0, What::None).and_then(|m| size_of(&m.0, r)),
            1 => msg::history::<OutMessage>(r, 0, What::None).and_then(|m| size_of(&m.0, r)),
            2 => {
                let m = MessageBody::gen(r, 0);
                size_of(&m, r)
            }
            3 => run(r, &[&table![size: StaticSymbol, Descriptor, TransferBody]]),
            _ => run(r, &[&prims!(size), &arrays!(size), &colls!(size), &comps!(size), &tailed!(size), &restr!(size), &open_ids!(size)]),
        },
        #[cfg(feature = "P03")]
        "P03" => match r.below(10) {
            0 => no_panic_msg(r),
            1 => no_panic_codec(r),
            2 => run(r, &[&table![no_panic: Descriptor]]),
            _ => run(r, &[&prims!(no_panic), &arrays!(no_panic), &colls!(no_panic), &comps!(no_panic), &tailed!(no_panic), &restr!(no_panic), &open_ids!(no_panic)]),
        },
        #[cfg(feature = "P04")]
        "P04" => match r.below(3) {
            0 => run(r, &[&prims!(reference), &arrays!(reference), &colls!(reference), &comps!(reference)]),
            1 => tail_of(r),
            _ => run(r, &[&prims!(consumed), &arrays!(consumed), &colls!(consumed), &colls!(consumed), &comps!(consumed), &comps!(consumed), &restr!(consumed), &open_ids!(consumed)]),
        },
        #[cfg(feature = "P05")]
        "P05" => match r.below(8) {
            0 => ordered_map(r),
            _ => run(r, &[&arrays!(round), &colls!(round), &colls!(round)]),
        },
        #[cfg(feature = "P06")]
        "P06" => match r.below(8) {
            0 => run(r, &[&comps!(round)]),
            1 | 2 => run(r, &[&comps!(reference)]),
            3 | 4 => run(r, &[&comps!(mandatory), &table![mandatory: Transfer, Frame]]),
            5 => run(r, &[&comps!(value)]),
            6 => run(r, &[&comps!(conform), &table![conform: Transfer, Frame]]),
            _ => tail_of(r),
        },
        #[cfg(feature = "P07")]
        "P07" => match r.below(12) {
            0 => other_codes(r),
            1 => compact(r),
            2 => static_symbol(r),
            3 | 4 | 5 => run(r, &[&prims!(conform), &arrays!(conform), &colls!(conform)]),
            6 | 7 | 8 => run(r, &[&prims!(reference), &arrays!(reference), &colls!(reference)]),
            9 => run(r, &[&comps!(conform), &open_ids!(conform), &restr!(conform)]),
            _ => run(r, &[&prims!(value), &arrays!(value), &colls!(value)]),
        },
        #[cfg(feature = "P08")]
        "P08" => run(r, &[&table![framing: AmqpFrame, AmqpFrame, SaslFrame]]),
        #[cfg(feature = "P09")]
        "P09" => frame_round(r),
        #[cfg(feature = "P10")]
        "P10" => protocol_header(r),
        #[cfg(feature = "P11")]
        "P11" => {
            if r.one_in(2) {
                msg::keep::<InMessage>(r)
            } else {
                msg::keep::<OutMessage>(r)
            }
        }
        #[cfg(feature = "P12")]
        "P12" => {
            if r.one_in(2) {
                msg::history::<InMessage>(r, 0, What::Size).map(|_| ())
            } else {
                msg::history::<OutMessage>(r, 0, What::Size).map(|_| ())
            }
        }
        #[cfg(feature = "P13")]
        "P13" => times(r),
        #[cfg(feature = "P14")]
        "P14" => {
            if r.one_in(2) {
                equality(r)
            } else {
                variants(r)
            }
        }
        #[cfg(feature = "P15")]
        "P15" => memory(r),
        #[cfg(feature = "P16")]
        "P16" => run(r, &[&prims!(malformed), &arrays!(malformed), &colls!(malformed), &colls!(malformed), &comps!(malformed), &comps!(malformed), &restr!(malformed), &open_ids!(malformed)]),
        #[cfg(feature = "P17")]
        "P17" => match r.below(8) {
            0 => codec_encode(r),
            1 => msg::history::<InMessage>(r, 0, What::None).and_then(|m| exact_of(&m.0, r)),
            2 => msg::history::<OutMessage>(r, 0, What::None).and_then(|m| exact_of(&m.0, r)),
            3 => {
                let m = MessageBody::gen(r, 0);
                exact_of(&m, r)
            }
            4 => run(r, &[&table![exact: StaticSymbol, Descriptor, TransferBody]]),
            _ => run(r, &[&prims!(exact), &arrays!(exact), &colls!(exact), &comps!(exact), &tailed!(exact), &restr!(exact), &open_ids!(exact)]),
        },
        #[cfg(feature = "P19")]
        "P19" => match r.below(4) {
            0 | 1 => restricted(r),
            2 => run(r, &[&open_ids!(reference), &open_ids!(round), &restr!(round)]),
            _ => run(r, &[&open_ids!(conform), &restr!(conform)]),
        },
        #[cfg(feature = "P20")]
        "P20" => match r.below(3) {
            0 => accessors(r),
            1 => msg::history::<InMessage>(r, 0, What::Access).map(|_| ()),
            _ => msg::history::<OutMessage>(r, 0, What::Access).map(|_| ()),
        },
        _ => Err(format!("no cases for {}", prop)),
    }
}
/// a transfer is followed by its payload, which extends to the end
fn tail_of(r: &mut Rng) -> Res {
    let v = Transfer::gen(r, 0);
    let mut b = vec![];
    enc(&v.av(), r, &mut b);
    note_bytes(&b);
    match (Transfer::decode(&b), Frame::decode(&b)) {
        (Ok((r1, x)), Ok((r2, Frame::Transfer(y)))) if r1.is_empty() && r2.is_empty() && norm(&x.av()) == norm(&v.av()) && norm(&y.av()) == norm(&v.av()) => Ok(()),
        x => fail(format!("{}, an encoding of {:?}, is read as {:?}", hex(&b), v, x)),
    }
}
