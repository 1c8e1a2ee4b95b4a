%root vx
use vstd::prelude::*;
pub use crate::model::*;
pub use crate::types::*;
pub use crate::codec::{Encode, ArrayEncode, Decode, DecodeFormatted, ArrayDecode};
pub use vstd::utf8::is_ascii_chars_encode_utf8;
global size_of usize == 8;

// ------------------------------------------------------------------ bytes
pub open spec fn ext_eq(a: Seq<u8>, b: Seq<u8>) -> bool { a =~= b }
pub open spec fn b1(x: u8) -> Seq<u8> { seq![x] }
#[verifier::opaque]
pub open spec fn be16(x: u16) -> Seq<u8> { seq![(x >> 8) as u8, (x & 0xff) as u8] }
pub closed spec fn be32(x: u32) -> Seq<u8> {
    seq![(x >> 24) as u8, ((x >> 16) & 0xff) as u8, ((x >> 8) & 0xff) as u8, (x & 0xff) as u8]
}
pub closed spec fn be64(x: u64) -> Seq<u8> {
    seq![
        (x >> 56) as u8, ((x >> 48) & 0xff) as u8, ((x >> 40) & 0xff) as u8, ((x >> 32) & 0xff) as u8,
        ((x >> 24) & 0xff) as u8, ((x >> 16) & 0xff) as u8, ((x >> 8) & 0xff) as u8, (x & 0xff) as u8,
    ]
}
#[verifier::opaque]
pub open spec fn rd16(s: Seq<u8>) -> u16 { ((s[0] as u16) << 8) | (s[1] as u16) }
pub closed spec fn rd32(s: Seq<u8>) -> u32 {
    ((s[0] as u32) << 24) | ((s[1] as u32) << 16) | ((s[2] as u32) << 8) | (s[3] as u32)
}
pub proof fn rd32_prefix(s: Seq<u8>, t: Seq<u8>)
    requires s.len() >= 4,
    ensures rd32(s + t) == rd32(s),
{}
pub closed spec fn rd64(s: Seq<u8>) -> u64 {
    ((s[0] as u64) << 56) | ((s[1] as u64) << 48) | ((s[2] as u64) << 40) | ((s[3] as u64) << 32)
    | ((s[4] as u64) << 24) | ((s[5] as u64) << 16) | ((s[6] as u64) << 8) | (s[7] as u64)
}
pub broadcast proof fn be16_len(x: u16)
    ensures (#[trigger] be16(x)).len() == 2,
{ reveal(be16); }
pub broadcast proof fn be32_len(x: u32)
    ensures (#[trigger] be32(x)).len() == 4,
{ }
pub broadcast proof fn be64_len(x: u64)
    ensures (#[trigger] be64(x)).len() == 8,
{ }
pub proof fn rd_be16(x: u16, t: Seq<u8>)
    ensures rd16(be16(x) + t) == x,
{
    reveal(be16); reveal(rd16);
    assert((((x >> 8) as u8 as u16) << 8) | ((x & 0xff) as u8 as u16) == x) by (bit_vector);
}
pub broadcast proof fn rd_be32(x: u32, t: Seq<u8>)
    ensures rd32(#[trigger] (be32(x) + t)) == x,
{
    assert((((x >> 24) as u8 as u32) << 24) | ((((x >> 16) & 0xff) as u8 as u32) << 16)
        | ((((x >> 8) & 0xff) as u8 as u32) << 8) | ((x & 0xff) as u8 as u32) == x) by (bit_vector);
}
pub broadcast proof fn rd_be64(x: u64, t: Seq<u8>)
    ensures rd64(#[trigger] (be64(x) + t)) == x,
{
    assert((((x >> 56) as u8 as u64) << 56) | ((((x >> 48) & 0xff) as u8 as u64) << 48)
        | ((((x >> 40) & 0xff) as u8 as u64) << 40) | ((((x >> 32) & 0xff) as u8 as u64) << 32)
        | ((((x >> 24) & 0xff) as u8 as u64) << 24) | ((((x >> 16) & 0xff) as u8 as u64) << 16)
        | ((((x >> 8) & 0xff) as u8 as u64) << 8) | ((x & 0xff) as u8 as u64) == x) by (bit_vector);
}
pub broadcast proof fn app_assoc(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    ensures #[trigger] ((a + b) + c) == a + (b + c),
{
    assert(((a + b) + c) =~= a + (b + c));
}
pub broadcast proof fn app_nil(a: Seq<u8>)
    ensures #[trigger] (a + Seq::<u8>::empty()) == a,
{
    assert(a + Seq::<u8>::empty() =~= a);
}
pub broadcast proof fn nil_app(a: Seq<u8>)
    ensures #[trigger] (Seq::<u8>::empty() + a) == a,
{
    assert(Seq::<u8>::empty() + a =~= a);
}
pub broadcast proof fn take_all<T>(s: Seq<T>, n: int)
    requires n == s.len(),
    ensures #[trigger] s.take(n) == s,
{
    assert(s.take(n) =~= s);
}
pub broadcast proof fn aflat_zero<T: ArrayEncode>(s: Seq<T>, n: int)
    requires n == 0,
    ensures #[trigger] aflat(s.take(n)) == Seq::<u8>::empty(),
{ reveal(aflat); }
pub broadcast proof fn pflat_zero<K: Encode, V: Encode>(s: Seq<(K, V)>, n: int)
    requires n == 0,
    ensures #[trigger] pflat(s.take(n)) == Seq::<u8>::empty(),
{ reveal(pflat); }
pub broadcast proof fn vflat_zero(s: Seq<Variant>, n: int)
    requires n == 0,
    ensures #[trigger] vflat(s.take(n)) == Seq::<u8>::empty(),
{ reveal(vflat); }
pub broadcast proof fn vpflat_zero(s: Seq<(Variant, Variant)>, n: int)
    requires n == 0,
    ensures #[trigger] vpflat(s.take(n)) == Seq::<u8>::empty(),
{ reveal(vpflat); }
pub broadcast group be_lens {
    uuid_len, be16_len, be32_len, be64_len,
}
pub broadcast group group_bytes {
    aflat_zero, pflat_zero, vflat_zero, vpflat_zero,
    uuid_len, be16_len, be32_len, be64_len, app_assoc, app_nil, nil_app, take_all,
}

// ------------------------------------------------------------------ AMQP 1.0 encodings (part 1, section 1.2)
/// variable width: 1-byte size below 256 bytes, else 4-byte size
#[verifier::opaque]
pub open spec fn venc_bytes(c8: u8, c32: u8, b: Seq<u8>) -> Seq<u8> {
    if b.len() > 255 { b1(c32) + (be32(b.len() as u32) + b) } else { b1(c8) + (b1(b.len() as u8) + b) }
}
/// compound (list, map): the size counts the count field
#[verifier::opaque]
pub open spec fn cenc(c8: u8, c32: u8, count: nat, body: Seq<u8>) -> Seq<u8> {
    if body.len() + 1 > 255 {
        b1(c32) + (be32((body.len() + 4) as u32) + (be32(count as u32) + body))
    } else {
        b1(c8) + (b1((body.len() + 1) as u8) + (b1(count as u8) + body))
    }
}
/// array: the size counts the count field and the element constructor
#[verifier::opaque]
pub open spec fn arenc(ctor: u8, count: nat, body: Seq<u8>) -> Seq<u8> {
    if body.len() + 2 > 255 {
        b1(0xf0) + (be32((body.len() + 5) as u32) + (be32(count as u32) + (b1(ctor) + body)))
    } else {
        b1(0xe0) + (b1((body.len() + 2) as u8) + (b1(count as u8) + (b1(ctor) + body)))
    }
}
#[verifier::opaque]
pub open spec fn str_enc(c: Seq<char>) -> Seq<u8> { venc_bytes(0xa1, 0xb1, utf8_enc(c)) }
#[verifier::opaque]
pub open spec fn sym_enc(c: Seq<char>) -> Seq<u8> { venc_bytes(0xa3, 0xb3, utf8_enc(c)) }
#[verifier::opaque]
pub open spec fn u32_enc(x: u32) -> Seq<u8> {
    if x == 0 { b1(0x43) } else if x <= 255 { b1(0x52) + b1(x as u8) } else { b1(0x70) + be32(x) }
}
#[verifier::opaque]
pub open spec fn u64_enc(x: u64) -> Seq<u8> {
    if x == 0 { b1(0x44) } else if x <= 255 { b1(0x53) + b1(x as u8) } else { b1(0x80) + be64(x) }
}
#[verifier::opaque]
pub open spec fn i32_enc(x: i32) -> Seq<u8> {
    if -128 <= x <= 127 { b1(0x54) + b1(x as i8 as u8) } else { b1(0x71) + be32(x as u32) }
}
#[verifier::opaque]
pub open spec fn i64_enc(x: i64) -> Seq<u8> {
    if -128 <= x <= 127 { b1(0x55) + b1(x as i8 as u8) } else { b1(0x81) + be64(x as u64) }
}
#[verifier::opaque]
pub open spec fn bool_enc(b: bool) -> Seq<u8> { b1(if b { 0x41 } else { 0x42 }) }
#[verifier::opaque]
pub open spec fn ts_enc(d: DateTime<Utc>) -> Seq<u8> { be64(d.millis() as i64 as u64) }
#[verifier::opaque]
pub open spec fn descr_enc(d: Descriptor) -> Seq<u8> {
    b1(0) + match d { Descriptor::Ulong(v) => u64_enc(v), Descriptor::Symbol(s) => sym_enc(s@) }
}

#[verifier::opaque]
pub open spec fn opt_enc<T: Encode>(v: Option<T>) -> Seq<u8> { match v { Some(e) => e.enc(), None => b1(0x40) } }
#[verifier::opaque]
pub open spec fn opt_inv<T: Encode>(v: Option<T>) -> bool { match v { Some(e) => e.inv(), None => true } }
#[verifier::opaque]
pub open spec fn mul_enc<T: Encode + ArrayEncode>(v: Multiple<T>) -> Seq<u8> { if v.0@.len() == 1 { v.0@[0].enc() } else { v.0.enc() } }
#[verifier::opaque]
pub open spec fn mul_inv<T: Encode + ArrayEncode>(v: Multiple<T>) -> bool { (v.0@.len() == 1 ==> v.0@[0].inv()) && v.0.inv() }
#[verifier::opaque]
pub open spec fn vec_inv<T: ArrayEncode>(v: Seq<T>) -> bool { forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).ainv() }
#[verifier::opaque]
pub open spec fn pairs_inv<K: Encode, V: Encode>(v: Seq<(K, V)>) -> bool { forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).0.inv() && v[i].1.inv() }
/// frame: 8-byte header (size, data offset 2, type, channel) and body (part 2, section 2.3.1)
#[verifier::opaque]
pub open spec fn frame_enc(ty: u8, ch: u16, body: Seq<u8>) -> Seq<u8> {
    be32((8 + body.len()) as u32) + (b1(2) + (b1(ty) + (be16(ch) + body)))
}

// elements in order
#[verifier::opaque]
pub open spec fn aflat<T: ArrayEncode>(s: Seq<T>) -> Seq<u8>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else { aflat(s.drop_last()) + s.last().aenc() }
}
pub proof fn aflat_step<T: ArrayEncode>(s: Seq<T>, i: int)
    requires 0 <= i < s.len(),
    ensures
        aflat(s.take(i + 1)) == aflat(s.take(i)) + s[i].aenc(),
        aflat(s.take(i)).len() + s[i].aenc().len() <= aflat(s).len(),
    decreases s.len(),
{
    reveal(aflat);
    assert(s.take(i + 1).drop_last() =~= s.take(i));
    if i + 1 == s.len() {
        assert(s.take(i + 1) =~= s);
    } else {
        aflat_step(s.drop_last(), i);
        assert(s.drop_last().take(i) =~= s.take(i));
    }
}
#[verifier::opaque]
pub open spec fn pflat<K: Encode, V: Encode>(s: Seq<(K, V)>) -> Seq<u8>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else { pflat(s.drop_last()) + (s.last().0.enc() + s.last().1.enc()) }
}
pub proof fn pflat_step<K: Encode, V: Encode>(s: Seq<(K, V)>, i: int)
    requires 0 <= i < s.len(),
    ensures
        pflat(s.take(i + 1)) == pflat(s.take(i)) + (s[i].0.enc() + s[i].1.enc()),
        pflat(s.take(i)).len() + s[i].0.enc().len() + s[i].1.enc().len() <= pflat(s).len(),
    decreases s.len(),
{
    reveal(pflat);
    assert(s.take(i + 1).drop_last() =~= s.take(i));
    if i + 1 == s.len() {
        assert(s.take(i + 1) =~= s);
    } else {
        pflat_step(s.drop_last(), i);
        assert(s.drop_last().take(i) =~= s.take(i));
    }
}

// variants: the recursive type
#[verifier::opaque]
pub open spec fn venc(v: Variant) -> Seq<u8>
    decreases v, 0int,
{
    match v {
        Variant::Null => b1(0x40),
        Variant::Boolean(b) => bool_enc(b),
        Variant::Ubyte(x) => b1(0x50) + b1(x),
        Variant::Ushort(x) => b1(0x60) + be16(x),
        Variant::Uint(x) => u32_enc(x),
        Variant::Ulong(x) => u64_enc(x),
        Variant::Byte(x) => b1(0x51) + b1(x as u8),
        Variant::Short(x) => b1(0x61) + be16(x as u16),
        Variant::Int(x) => i32_enc(x),
        Variant::Long(x) => i64_enc(x),
        Variant::Float(f) => b1(0x72) + be32(f32_bits(f.0)),
        Variant::Double(f) => b1(0x82) + be64(f64_bits(f.0)),
        Variant::Char(c) => b1(0x73) + be32(c as u32),
        Variant::Timestamp(t) => b1(0x83) + ts_enc(t),
        Variant::Uuid(u) => b1(0x98) + u@,
        Variant::Binary(b) => venc_bytes(0xa0, 0xb0, b@),
        Variant::String(s) => str_enc(s@),
        Variant::Symbol(s) => sym_enc(s@),
        Variant::StaticSymbol(s) => sym_enc(s.0@),
        Variant::List(l) => cenc(0xc0, 0xd0, l.0@.len(), vflat(l.0@)),
        Variant::Map(m) => cenc(0xc1, 0xd1, 2 * m.map.items().len(), vpflat(m.map.items())),
        Variant::Described(d) => descr_enc(d.0) + venc(*d.1),
    }
}
#[verifier::opaque]
pub open spec fn vflat(s: Seq<Variant>) -> Seq<u8>
    decreases s, s.len(),
{
    if s.len() == 0 { Seq::empty() } else { vflat(s.drop_last()) + venc(s.last()) }
}
#[verifier::opaque]
pub open spec fn vpflat(s: Seq<(Variant, Variant)>) -> Seq<u8>
    decreases s, s.len(),
{
    if s.len() == 0 { Seq::empty() } else { vpflat(s.drop_last()) + (venc(s.last().0) + venc(s.last().1)) }
}
pub proof fn vflat_step(s: Seq<Variant>, i: int)
    requires 0 <= i < s.len(),
    ensures
        vflat(s.take(i + 1)) == vflat(s.take(i)) + venc(s[i]),
        vflat(s.take(i)).len() + venc(s[i]).len() <= vflat(s).len(),
    decreases s.len(),
{
    reveal(vflat); reveal(venc);
    assert(s.take(i + 1).drop_last() =~= s.take(i));
    if i + 1 == s.len() {
        assert(s.take(i + 1) =~= s);
    } else {
        vflat_step(s.drop_last(), i);
        assert(s.drop_last().take(i) =~= s.take(i));
    }
}
pub proof fn vpflat_step(s: Seq<(Variant, Variant)>, i: int)
    requires 0 <= i < s.len(),
    ensures
        vpflat(s.take(i + 1)) == vpflat(s.take(i)) + (venc(s[i].0) + venc(s[i].1)),
        vpflat(s.take(i)).len() + venc(s[i].0).len() + venc(s[i].1).len() <= vpflat(s).len(),
    decreases s.len(),
{
    reveal(vpflat); reveal(venc);
    assert(s.take(i + 1).drop_last() =~= s.take(i));
    if i + 1 == s.len() {
        assert(s.take(i + 1) =~= s);
    } else {
        vpflat_step(s.drop_last(), i);
        assert(s.drop_last().take(i) =~= s.take(i));
    }
}
/// every element takes at least one byte, so counts fit where sizes do
pub proof fn venc_pos(v: Variant)
    ensures venc(v).len() >= 1,
{
    reveal(venc); reveal(u32_enc); reveal(u64_enc); reveal(i32_enc); reveal(i64_enc); reveal(bool_enc); reveal(str_enc); reveal(sym_enc);
    reveal(venc_bytes); reveal(cenc); reveal(descr_enc);
}
pub proof fn vflat_len(s: Seq<Variant>)
    ensures vflat(s).len() >= s.len(),
    decreases s.len(),
{
    reveal(vflat); reveal(venc);
    if s.len() > 0 { vflat_len(s.drop_last()); venc_pos(s.last()); }
}
pub proof fn svflat_len(s: Seq<(Str, Variant)>)
    ensures pflat(s).len() >= 2 * s.len(),
    decreases s.len(),
{
    reveal(pflat);
    if s.len() > 0 {
        svflat_len(s.drop_last()); venc_pos(s.last().1); reveal(str_enc); reveal(venc_bytes);
    }
}
pub proof fn vpflat_len(s: Seq<(Variant, Variant)>)
    ensures vpflat(s).len() >= 2 * s.len(),
    decreases s.len(),
{
    reveal(vpflat); reveal(venc);
    if s.len() > 0 { vpflat_len(s.drop_last()); venc_pos(s.last().0); venc_pos(s.last().1); }
}
pub proof fn uuid_len_all()
    ensures forall|u: Uuid| (#[trigger] u@).len() == 16,
{
    assert forall|u: Uuid| (#[trigger] u@).len() == 16 by { uuid_len(u); }
}
%%
