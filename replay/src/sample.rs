//! Values of the crate's types: how to make one, and which AMQP value each stands for.
use crate::av::AV;
use crate::rng::Rng;
use amqp_codec::protocol::*;
use amqp_codec::types::*;
use amqp_codec::*;
use bytes::Bytes;
use chrono::{DateTime, TimeZone, Timelike, Utc};
use hashbrown::HashMap;
use ordered_float::OrderedFloat;
use std::fmt::Debug;
use uuid::Uuid;

pub trait Sample: Sized + Debug {
    fn gen(r: &mut Rng, d: u32) -> Self;
    fn av(&self) -> AV;
    /// null is a value of the type
    fn nullable() -> bool {
        false
    }
}

macro_rules! ints {
    ($($t:ty, $v:ident;)*) => { $( impl Sample for $t {
        fn gen(r: &mut Rng, _: u32) -> Self { r.int() as $t }
        fn av(&self) -> AV { AV::$v(*self) }
    } )* }
}
ints! { u8, U8; u16, U16; u32, U32; u64, U64; i8, I8; i16, I16; i32, I32; i64, I64; }

impl Sample for bool {
    fn gen(r: &mut Rng, _: u32) -> Self {
        r.one_in(2)
    }
    fn av(&self) -> AV {
        AV::Bool(*self)
    }
}
impl Sample for f32 {
    fn gen(r: &mut Rng, _: u32) -> Self {
        let x = match r.below(4) {
            0 => f32::from_bits(r.next() as u32),
            1 => f32::from_bits((r.next() as u32) & 0x8000_0000),
            2 => *r.pick(&[std::f32::INFINITY, std::f32::NEG_INFINITY, std::f32::MIN_POSITIVE, std::f32::MAX, 1e-45, 0.1]),
            _ => r.int() as i32 as f32 / 8.0,
        };
        // signalling NaNs are not kept apart from quiet ones by every CPU
        if x.is_nan() { f32::from_bits(x.to_bits() | 0x0040_0000) } else { x }
    }
    fn av(&self) -> AV {
        AV::F32(self.to_bits())
    }
}
impl Sample for f64 {
    fn gen(r: &mut Rng, _: u32) -> Self {
        let x = match r.below(4) {
            0 => f64::from_bits(r.next()),
            1 => f64::from_bits(r.next() & 0x8000_0000_0000_0000),
            2 => *r.pick(&[std::f64::INFINITY, std::f64::NEG_INFINITY, std::f64::MIN_POSITIVE, std::f64::MAX, 5e-324, 0.1]),
            _ => r.int() as i64 as f64 / 8.0,
        };
        if x.is_nan() { f64::from_bits(x.to_bits() | 0x0008_0000_0000_0000) } else { x }
    }
    fn av(&self) -> AV {
        AV::F64(self.to_bits())
    }
}
impl Sample for char {
    fn gen(r: &mut Rng, _: u32) -> Self {
        loop {
            let x = match r.below(4) {
                0 => r.below(128) as u32,
                1 => *r.pick(&[0u32, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x10ffff]),
                _ => r.below(0x110000) as u32,
            };
            if let Some(c) = std::char::from_u32(x) {
                return c;
            }
        }
    }
    fn av(&self) -> AV {
        AV::Char(*self as u32)
    }
}
pub const TS_MIN: i64 = -8334601228800000;
pub const TS_MAX: i64 = 8210266876799999;
pub fn gen_ms(r: &mut Rng) -> i64 {
    loop {
        let x = match r.below(7) {
            0 => r.below(3000) as i64 - 1500,
            1 => r.int() as i64,
            2 => (r.int() as i64).wrapping_mul(1000),
            3 => (r.int() as i64).wrapping_mul(1000).wrapping_sub(1),
            4 => *r.pick(&[TS_MIN, TS_MAX, TS_MIN + 1, TS_MAX - 1, TS_MIN + 999, TS_MAX - 999, TS_MIN + 1000]),
            5 => 1_600_000_000_000 + r.below(1_000_000_000) as i64,
            _ => (r.next() as i64) % TS_MAX,
        };
        if x >= TS_MIN && x <= TS_MAX {
            return x;
        }
    }
}
/// the time point `ms` milliseconds after the epoch and `ns` nanoseconds more
pub fn time(ms: i64, ns: u32) -> DateTime<Utc> {
    let mut s = ms / 1000;
    let mut m = ms % 1000;
    if m < 0 {
        s -= 1;
        m += 1000;
    }
    Utc.timestamp_opt(s, m as u32 * 1_000_000 + ns).single().unwrap()
}
impl Sample for DateTime<Utc> {
    fn gen(r: &mut Rng, _: u32) -> Self {
        time(gen_ms(r), 0)
    }
    fn av(&self) -> AV {
        AV::Ts(self.timestamp() * 1000 + (self.nanosecond() / 1_000_000) as i64)
    }
}
impl Sample for Uuid {
    fn gen(r: &mut Rng, _: u32) -> Self {
        let b: Vec<u8> = (0..16).map(|_| r.next() as u8).collect();
        Uuid::from_slice(&b).unwrap()
    }
    fn av(&self) -> AV {
        AV::Uuid(self.as_bytes().to_vec())
    }
}
pub fn gen_bytes(r: &mut Rng, d: u32) -> Vec<u8> {
    let n = r.len(d < 2);
    let k = r.next();
    (0..n).map(|i| (k >> (i % 8)) as u8 ^ i as u8).collect()
}
pub fn gen_string(r: &mut Rng, d: u32) -> String {
    let n = r.len(d < 2);
    let mut s = String::new();
    let ascii = r.one_in(2);
    while s.len() < n {
        let c = if ascii || n - s.len() < 4 { (b'a' + r.below(26) as u8) as char } else { char::gen(r, 0) };
        s.push(c);
    }
    s
}
pub fn leak(s: String) -> &'static str {
    Box::leak(s.into_boxed_str())
}
impl Sample for Bytes {
    fn gen(r: &mut Rng, d: u32) -> Self {
        Bytes::from(gen_bytes(r, d))
    }
    fn av(&self) -> AV {
        AV::Bin(self.to_vec())
    }
}
impl Sample for ByteStr {
    fn gen(r: &mut Rng, d: u32) -> Self {
        ByteStr::from_str(&gen_string(r, d))
    }
    fn av(&self) -> AV {
        AV::Str(self[..].to_string())
    }
}
pub fn static_words(r: &mut Rng) -> &'static str {
    *r.pick(&["", "a", "move", "amqp:accepted:list", "héllo wörld", "x-opt-offset", "\u{10ffff}",
        "a symbol that is longer than thirty two bytes and then some more"])
}
impl Sample for Str {
    fn gen(r: &mut Rng, d: u32) -> Self {
        if r.one_in(4) {
            Str::from(static_words(r))
        } else {
            Str::from_str(&gen_string(r, d))
        }
    }
    fn av(&self) -> AV {
        AV::Str(self.as_str().to_string())
    }
}
impl Sample for Symbol {
    fn gen(r: &mut Rng, d: u32) -> Self {
        if r.one_in(4) {
            Symbol::from(static_words(r))
        } else {
            Symbol::from_slice(&gen_string(r, d))
        }
    }
    fn av(&self) -> AV {
        AV::Sym(self.as_str().to_string())
    }
}
impl Sample for StaticSymbol {
    fn gen(r: &mut Rng, d: u32) -> Self {
        if r.one_in(3) && d < 2 {
            let n = r.len(true) % 700;
            StaticSymbol(&LONG[..n])
        } else {
            StaticSymbol(static_words(r))
        }
    }
    fn av(&self) -> AV {
        AV::Sym(self.0.to_string())
    }
}
static LONG: &str = "0123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789";

impl<T: Sample> Sample for Option<T> {
    fn gen(r: &mut Rng, d: u32) -> Self {
        if r.one_in(2) {
            None
        } else {
            Some(T::gen(r, d))
        }
    }
    fn av(&self) -> AV {
        match self {
            None => AV::Null,
            Some(x) => x.av(),
        }
    }
    fn nullable() -> bool {
        true
    }
}
impl<T: Sample> Sample for Box<T> {
    fn gen(r: &mut Rng, d: u32) -> Self {
        Box::new(T::gen(r, d))
    }
    fn av(&self) -> AV {
        (**self).av()
    }
}
pub fn gen_count(r: &mut Rng, d: u32) -> usize {
    match r.below(10) {
        0 => 0,
        1 => 1,
        2 => 2,
        3 | 4 | 5 | 6 => r.below(5),
        7 | 8 => r.below(9),
        _ => {
            if d == 0 {
                match r.below(4) {
                    0 => 125 + r.below(6),
                    1 => 250 + r.below(12),
                    2 => r.below(100),
                    _ => 60 + r.below(10),
                }
            } else {
                r.below(6)
            }
        }
    }
}
impl<T: Sample> Sample for Vec<T> {
    fn gen(r: &mut Rng, d: u32) -> Self {
        let n = gen_count(r, d);
        let d = if n > 20 { d + 3 } else { d + 1 };
        (0..n).map(|_| T::gen(r, d)).collect()
    }
    fn av(&self) -> AV {
        AV::Array(self.iter().map(|x| x.av()).collect())
    }
}
impl<T: Sample> Sample for Multiple<T> {
    fn gen(r: &mut Rng, d: u32) -> Self {
        let n = *r.pick(&[0, 1, 1, 2, 2, 3, 5, if d == 0 { 130 } else { 4 }]);
        Multiple((0..n).map(|_| T::gen(r, d + 1)).collect())
    }
    fn av(&self) -> AV {
        if self.0.len() == 1 {
            self.0[0].av()
        } else {
            AV::Array(self.0.iter().map(|x| x.av()).collect())
        }
    }
}
impl Sample for List {
    fn gen(r: &mut Rng, d: u32) -> Self {
        let n = gen_count(r, d);
        List((0..n).map(|_| Variant::gen(r, if n > 20 { d + 3 } else { d + 1 })).collect())
    }
    fn av(&self) -> AV {
        AV::List(self.0.iter().map(|x| x.av()).collect())
    }
}
impl<K: Sample + Eq + std::hash::Hash, V: Sample> Sample for HashMap<K, V> {
    fn gen(r: &mut Rng, d: u32) -> Self {
        let n = gen_count(r, d);
        let d = if n > 20 { d + 3 } else { d + 1 };
        let mut m = HashMap::new();
        // distinct by AMQP value, not only by the crate's own notion of equality
        let mut seen: Vec<AV> = vec![];
        for _ in 0..n {
            let k = K::gen(r, d);
            let a = k.av();
            if !seen.contains(&a) {
                seen.push(a);
                m.insert(k, V::gen(r, d));
            }
        }
        m
    }
    fn av(&self) -> AV {
        AV::Map(self.iter().map(|(k, v)| (k.av(), v.av())).collect())
    }
}
impl Sample for VecVariantMap {
    fn gen(r: &mut Rng, d: u32) -> Self {
        let n = gen_count(r, d);
        let d = if n > 20 { d + 3 } else { d + 1 };
        let mut seen: Vec<AV> = vec![];
        let mut m = vec![];
        for _ in 0..n {
            let k = Str::gen(r, d);
            if !seen.contains(&k.av()) {
                seen.push(k.av());
                m.push((k, Variant::gen(r, d)));
            }
        }
        VecVariantMap(m)
    }
    fn av(&self) -> AV {
        AV::Map(self.0.iter().map(|(k, v)| (k.av(), v.av())).collect())
    }
}
impl Sample for Descriptor {
    fn gen(r: &mut Rng, d: u32) -> Self {
        if r.one_in(2) {
            Descriptor::Ulong(r.int())
        } else {
            Descriptor::Symbol(Symbol::gen(r, d))
        }
    }
    fn av(&self) -> AV {
        match self {
            Descriptor::Ulong(x) => AV::U64(*x),
            Descriptor::Symbol(x) => x.av(),
        }
    }
}
fn nan_free(x: AV) -> bool {
    match x {
        AV::F32(b) => !f32::from_bits(b).is_nan() && b != 0x8000_0000,
        AV::F64(b) => !f64::from_bits(b).is_nan() && b != 0x8000_0000_0000_0000,
        _ => true,
    }
}
impl Sample for Variant {
    fn gen(r: &mut Rng, d: u32) -> Self {
        loop {
            let v = gen_variant(r, d);
            // OrderedFloat identifies all NaNs and both zeros; keep map keys apart
            if nan_free(v.av_shallow()) || d == 0 {
                return v;
            }
        }
    }
    fn av(&self) -> AV {
        match self {
            Variant::Null => AV::Null,
            Variant::Boolean(x) => x.av(),
            Variant::Ubyte(x) => x.av(),
            Variant::Ushort(x) => x.av(),
            Variant::Uint(x) => x.av(),
            Variant::Ulong(x) => x.av(),
            Variant::Byte(x) => x.av(),
            Variant::Short(x) => x.av(),
            Variant::Int(x) => x.av(),
            Variant::Long(x) => x.av(),
            Variant::Float(x) => x.0.av(),
            Variant::Double(x) => x.0.av(),
            Variant::Char(x) => x.av(),
            Variant::Timestamp(x) => x.av(),
            Variant::Uuid(x) => x.av(),
            Variant::Binary(x) => x.av(),
            Variant::String(x) => x.av(),
            Variant::Symbol(x) => x.av(),
            Variant::StaticSymbol(x) => x.av(),
            Variant::List(x) => x.av(),
            Variant::Map(x) => x.map.av(),
            Variant::Described((x, y)) => AV::Desc(Box::new(x.av()), Box::new(y.av())),
        }
    }
    fn nullable() -> bool {
        true
    }
}
trait Shallow {
    fn av_shallow(&self) -> AV;
}
impl Shallow for Variant {
    fn av_shallow(&self) -> AV {
        match self {
            Variant::Float(x) => x.0.av(),
            Variant::Double(x) => x.0.av(),
            _ => AV::Null,
        }
    }
}
fn gen_variant(r: &mut Rng, d: u32) -> Variant {
    match r.below(if d < 3 { 25 } else { 19 }) {
        0 => Variant::Null,
        1 => Variant::Boolean(bool::gen(r, d)),
        2 => Variant::Ubyte(u8::gen(r, d)),
        3 => Variant::Ushort(u16::gen(r, d)),
        4 => Variant::Uint(u32::gen(r, d)),
        5 => Variant::Ulong(u64::gen(r, d)),
        6 => Variant::Byte(i8::gen(r, d)),
        7 => Variant::Short(i16::gen(r, d)),
        8 => Variant::Int(i32::gen(r, d)),
        9 => Variant::Long(i64::gen(r, d)),
        10 => Variant::Float(OrderedFloat(f32::gen(r, d))),
        11 => Variant::Double(OrderedFloat(f64::gen(r, d))),
        12 => Variant::Char(char::gen(r, d)),
        13 => Variant::Timestamp(DateTime::<Utc>::gen(r, d)),
        14 => Variant::Uuid(Uuid::gen(r, d)),
        15 => Variant::Binary(Bytes::gen(r, d)),
        16 => Variant::String(Str::gen(r, d)),
        17 => Variant::Symbol(Symbol::gen(r, d)),
        18 => Variant::StaticSymbol(StaticSymbol::gen(r, d)),
        19 | 20 => Variant::List(List::gen(r, d)),
        21 | 22 => Variant::Map(VariantMap::new(HashMap::gen(r, d))),
        _ => Variant::Described((Descriptor::gen(r, d), Box::new(Variant::gen(r, d + 1)))),
    }
}

// ------------------------------------------------------------------ protocol values that are not generated
impl Sample for MessageId {
    fn gen(r: &mut Rng, d: u32) -> Self {
        match r.below(4) {
            0 => MessageId::Ulong(u64::gen(r, d)),
            1 => MessageId::Uuid(Uuid::gen(r, d)),
            2 => MessageId::Binary(Bytes::gen(r, d)),
            _ => MessageId::String(ByteStr::gen(r, d)),
        }
    }
    fn av(&self) -> AV {
        match self {
            MessageId::Ulong(x) => x.av(),
            MessageId::Uuid(x) => x.av(),
            MessageId::Binary(x) => x.av(),
            MessageId::String(x) => x.av(),
        }
    }
}
impl Sample for DistributionMode {
    fn gen(r: &mut Rng, d: u32) -> Self {
        match r.below(3) {
            0 => DistributionMode::Move,
            1 => DistributionMode::Copy,
            _ => loop {
                let s = Symbol::gen(r, d);
                if s.as_str() != "move" && s.as_str() != "copy" {
                    return DistributionMode::Custom(s);
                }
            },
        }
    }
    fn av(&self) -> AV {
        AV::Sym(match self {
            DistributionMode::Move => "move".to_string(),
            DistributionMode::Copy => "copy".to_string(),
            DistributionMode::Custom(s) => s.as_str().to_string(),
        })
    }
}
impl Sample for ErrorCondition {
    fn gen(r: &mut Rng, d: u32) -> Self {
        match r.below(5) {
            0 => ErrorCondition::AmqpError(AmqpError::gen(r, d)),
            1 => ErrorCondition::ConnectionError(ConnectionError::gen(r, d)),
            2 => ErrorCondition::SessionError(SessionError::gen(r, d)),
            3 => ErrorCondition::LinkError(LinkError::gen(r, d)),
            _ => loop {
                let s = Symbol::gen(r, d);
                if !s.as_str().starts_with("amqp:") {
                    return ErrorCondition::Custom(s);
                }
            },
        }
    }
    fn av(&self) -> AV {
        match self {
            ErrorCondition::AmqpError(x) => x.av(),
            ErrorCondition::ConnectionError(x) => x.av(),
            ErrorCondition::SessionError(x) => x.av(),
            ErrorCondition::LinkError(x) => x.av(),
            ErrorCondition::Custom(x) => x.av(),
        }
    }
}
pub fn nested_bytes<T: Encode>(m: &T) -> Vec<u8> {
    let mut b = bytes::BytesMut::with_capacity(m.encoded_size());
    m.encode(&mut b);
    b.to_vec()
}
impl Sample for TransferBody {
    fn gen(r: &mut Rng, d: u32) -> Self {
        match r.below(if d < 2 { 3 } else { 1 }) {
            1 => TransferBody::MessageIn(crate::msg::history(r, d + 1, crate::msg::What::None).unwrap().0),
            2 => TransferBody::MessageOut(crate::msg::history(r, d + 1, crate::msg::What::None).unwrap().0),
            _ => loop {
                let b = gen_bytes(r, d);
                if !b.is_empty() {
                    return TransferBody::Data(Bytes::from(b));
                }
            },
        }
    }
    fn av(&self) -> AV {
        AV::Tail(match self {
            TransferBody::Data(b) => b.to_vec(),
            TransferBody::MessageIn(m) => nested_bytes(m),
            TransferBody::MessageOut(m) => nested_bytes(m),
        })
    }
}
pub fn section(code: u64, v: AV) -> AV {
    AV::Desc(Box::new(AV::U64(code)), Box::new(v))
}
pub fn body_av(b: &MessageBody, l: &mut Vec<AV>) {
    let n = l.len();
    for x in &b.data {
        l.push(section(117, x.av()));
    }
    for x in &b.sequence {
        l.push(section(118, x.av()));
    }
    if let Some(x) = &b.value {
        l.push(section(119, x.av()));
    }
    for m in &b.messages {
        if let AV::Tail(t) = m.av() {
            l.push(section(117, AV::Bin(t)));
        }
    }
    if l.len() == n {
        l.push(section(117, AV::Bin(vec![])));
    }
}
impl Sample for MessageBody {
    fn gen(r: &mut Rng, d: u32) -> Self {
        let mut b = MessageBody::default();
        if r.one_in(2) {
            for _ in 0..r.below(4) {
                b.data.push(Bytes::gen(r, d + 1));
            }
        }
        if r.one_in(4) {
            for _ in 0..r.below(4) {
                b.sequence.push(List::gen(r, d + 1));
            }
        }
        if r.one_in(4) {
            b.value = Some(Variant::gen(r, d + 1));
        }
        if r.one_in(4) && d < 2 {
            for _ in 0..r.below(3) {
                b.messages.push(TransferBody::gen(r, d + 1));
            }
        }
        b
    }
    fn av(&self) -> AV {
        let mut l = vec![];
        body_av(self, &mut l);
        AV::Seq(l)
    }
}
