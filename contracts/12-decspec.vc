%root vx
// ------------------------------------------------------------------ decoding (part 1, section 1.2)
pub broadcast proof fn skip_skip(s: Seq<u8>, i: int, j: int)
    requires 0 <= i, 0 <= j, i + j <= s.len(),
    ensures #[trigger] s.skip(i).skip(j) == s.skip(i + j),
{
    assert(s.skip(i).skip(j) =~= s.skip(i + j));
}
pub broadcast proof fn skip_zero(s: Seq<u8>)
    ensures #[trigger] s.skip(0) == s,
{
    assert(s.skip(0) =~= s);
}
pub broadcast proof fn sub_take(s: Seq<u8>, n: int)
    requires 0 <= n <= s.len(),
    ensures #[trigger] s.subrange(0, n) == s.take(n),
{
    assert(s.subrange(0, n) =~= s.take(n));
}
pub broadcast proof fn sub_skip(s: Seq<u8>, i: int)
    requires 0 <= i <= s.len(),
    ensures #[trigger] s.subrange(i, s.len() as int) == s.skip(i),
{
    assert(s.subrange(i, s.len() as int) =~= s.skip(i));
}
/// reading a number from a window of the bytes
pub broadcast proof fn rd16_sub(s: Seq<u8>, i: int, j: int)
    requires 0 <= i, i + 2 <= j <= s.len(),
    ensures #[trigger] rd16(s.subrange(i, j)) == rd16(s.skip(i)),
{ reveal(rd16); assert(s.subrange(i, j)[0] == s.skip(i)[0]); assert(s.subrange(i, j)[1] == s.skip(i)[1]); }
pub broadcast proof fn rd16_take(s: Seq<u8>, n: int)
    requires 2 <= n <= s.len(),
    ensures #[trigger] rd16(s.take(n)) == rd16(s),
{ reveal(rd16); assert(s.take(n)[0] == s[0]); assert(s.take(n)[1] == s[1]); }
pub broadcast proof fn rd32_sub(s: Seq<u8>, i: int, j: int)
    requires 0 <= i, i + 4 <= j <= s.len(),
    ensures #[trigger] rd32(s.subrange(i, j)) == rd32(s.skip(i)),
{ assert(s.subrange(i, j)[0] == s.skip(i)[0]); assert(s.subrange(i, j)[1] == s.skip(i)[1]); assert(s.subrange(i, j)[2] == s.skip(i)[2]); assert(s.subrange(i, j)[3] == s.skip(i)[3]); }
pub broadcast proof fn rd32_take(s: Seq<u8>, n: int)
    requires 4 <= n <= s.len(),
    ensures #[trigger] rd32(s.take(n)) == rd32(s),
{ assert(s.take(n)[0] == s[0]); assert(s.take(n)[1] == s[1]); assert(s.take(n)[2] == s[2]); assert(s.take(n)[3] == s[3]); }
pub broadcast proof fn rd64_sub(s: Seq<u8>, i: int, j: int)
    requires 0 <= i, i + 8 <= j <= s.len(),
    ensures #[trigger] rd64(s.subrange(i, j)) == rd64(s.skip(i)),
{ assert(s.subrange(i, j)[0] == s.skip(i)[0]); assert(s.subrange(i, j)[1] == s.skip(i)[1]); assert(s.subrange(i, j)[2] == s.skip(i)[2]); assert(s.subrange(i, j)[3] == s.skip(i)[3]); assert(s.subrange(i, j)[4] == s.skip(i)[4]); assert(s.subrange(i, j)[5] == s.skip(i)[5]); assert(s.subrange(i, j)[6] == s.skip(i)[6]); assert(s.subrange(i, j)[7] == s.skip(i)[7]); }
pub broadcast proof fn rd64_take(s: Seq<u8>, n: int)
    requires 8 <= n <= s.len(),
    ensures #[trigger] rd64(s.take(n)) == rd64(s),
{ assert(s.take(n)[0] == s[0]); assert(s.take(n)[1] == s[1]); assert(s.take(n)[2] == s[2]); assert(s.take(n)[3] == s[3]); assert(s.take(n)[4] == s[4]); assert(s.take(n)[5] == s[5]); assert(s.take(n)[6] == s[6]); assert(s.take(n)[7] == s[7]); }
pub broadcast group group_dec {
    sub_take, sub_skip, skip_zero, skip_skip, rd16_sub, rd16_take, rd32_sub, rd32_take, rd64_sub, rd64_take,
}
/// fixed width: `n` bytes after the constructor
#[verifier::opaque]
pub open spec fn fixed(s: Seq<u8>, n: int) -> Option<Seq<u8>> {
    if s.len() >= n { Some(s.skip(n)) } else { None }
}
/// variable width: content and rest
#[verifier::opaque]
pub open spec fn vbytes(c8: u8, c32: u8, s: Seq<u8>, fmt: u8) -> Option<(Seq<u8>, Seq<u8>)> {
    if fmt == c8 {
        if s.len() >= 1 && s.len() - 1 >= s[0] {
            Some((s.skip(1).take(s[0] as int), s.skip(1).skip(s[0] as int)))
        } else { None }
    } else if fmt == c32 {
        if s.len() >= 4 && s.len() - 4 >= rd32(s) {
            Some((s.skip(4).take(rd32(s) as int), s.skip(4).skip(rd32(s) as int)))
        } else { None }
    } else { None }
}
#[verifier::opaque]
pub open spec fn vrest_of(b: Option<(Seq<u8>, Seq<u8>)>) -> Option<Seq<u8>> {
    match b { Some(p) => Some(p.1), None => None }
}
/// variable width UTF-8 text
#[verifier::opaque]
pub open spec fn srest(c8: u8, c32: u8, s: Seq<u8>, fmt: u8) -> Option<Seq<u8>> {
    match vbytes(c8, c32, s, fmt) {
        Some(p) => if utf8_ok(p.0) { Some(p.1) } else { None },
        None => None,
    }
}
#[verifier::opaque]
pub open spec fn sval(c8: u8, c32: u8, s: Seq<u8>, fmt: u8, v: Seq<char>) -> bool {
    match vbytes(c8, c32, s, fmt) { Some(p) => v == utf8_dec(p.0), None => false }
}
/// compound header: body size (without the count), element count, rest
#[verifier::opaque]
pub open spec fn chead(c8: u8, c32: u8, s: Seq<u8>, fmt: u8) -> Option<(nat, nat, Seq<u8>)> {
    if fmt == c8 {
        if s.len() >= 2 && s[0] >= 1 { Some(((s[0] - 1) as nat, s[1] as nat, s.skip(2))) } else { None }
    } else if fmt == c32 {
        if s.len() >= 8 && rd32(s) >= 4 { Some(((rd32(s) - 4) as nat, rd32(s.skip(4)) as nat, s.skip(8))) } else { None }
    } else { None }
}
#[verifier::opaque]
pub open spec fn lhead(s: Seq<u8>, fmt: u8) -> Option<(nat, nat, Seq<u8>)> {
    if fmt == 0x45 { Some((0, 0, s)) } else { chead(0xc0, 0xd0, s, fmt) }
}
pub proof fn head_short(s: Seq<u8>, fmt: u8)
    ensures match lhead(s, fmt) { Some(h) => h.2.len() <= s.len() && (h.1 > 0 || h.0 > 0 ==> h.2.len() < s.len()), None => true },
        match chead(0xc1, 0xd1, s, fmt) { Some(h) => h.2.len() < s.len(), None => true },
{ reveal(lhead); reveal(chead); }
/// compound: element count, body, rest
#[verifier::opaque]
pub open spec fn cbody(h: Option<(nat, nat, Seq<u8>)>) -> Option<(nat, Seq<u8>, Seq<u8>)> {
    match h {
        Some(h) => if h.2.len() >= h.0 { Some((h.1, h.2.take(h.0 as int), h.2.skip(h.0 as int))) } else { None },
        None => None,
    }
}
#[verifier::opaque]
pub open spec fn comp(c8: u8, c32: u8, s: Seq<u8>, fmt: u8) -> Option<(nat, Seq<u8>, Seq<u8>)> {
    cbody(chead(c8, c32, s, fmt))
}
#[verifier::opaque]
pub open spec fn lcomp(s: Seq<u8>, fmt: u8) -> Option<(nat, Seq<u8>, Seq<u8>)> { cbody(lhead(s, fmt)) }
/// rest after `k` array elements of constructor `fmt`
#[verifier::opaque]
pub open spec fn arest<T: DecodeFormatted>(s: Seq<u8>, fmt: u8, k: nat) -> Option<Seq<u8>>
    decreases k,
{
    if k == 0 { Some(s) } else {
        match arest::<T>(s, fmt, (k - 1) as nat) { Some(r) => T::drest(r, fmt), None => None }
    }
}
pub proof fn arest_none<T: DecodeFormatted>(s: Seq<u8>, fmt: u8, k: nat, n: nat)
    requires k <= n, arest::<T>(s, fmt, k) is None,
    ensures arest::<T>(s, fmt, n) is None,
    decreases n,
{
    reveal(arest);
    if k < n { arest_none::<T>(s, fmt, k, (n - 1) as nat); }
}
#[verifier::opaque]
pub open spec fn aval<T: DecodeFormatted>(s: Seq<u8>, fmt: u8, v: Seq<T>) -> bool {
    forall|i: int| 0 <= i < v.len() ==> T::dval(arest::<T>(s, fmt, i as nat).unwrap(), fmt, #[trigger] v[i])
}
/// rest after `k` pairs
#[verifier::opaque]
pub open spec fn prest<K: Decode, V: Decode>(s: Seq<u8>, k: nat) -> Option<Seq<u8>>
    decreases k,
{
    if k == 0 { Some(s) } else {
        match prest::<K, V>(s, (k - 1) as nat) {
            Some(r) => match K::drest1(r) { Some(r1) => V::drest1(r1), None => None },
            None => None,
        }
    }
}
pub proof fn prest_none<K: Decode, V: Decode>(s: Seq<u8>, k: nat, n: nat)
    requires k <= n, prest::<K, V>(s, k) is None,
    ensures prest::<K, V>(s, n) is None,
    decreases n,
{
    reveal(prest);
    if k < n { prest_none::<K, V>(s, k, (n - 1) as nat); }
}
#[verifier::opaque]
pub open spec fn pval<K: Decode, V: Decode>(s: Seq<u8>, v: Seq<(K, V)>) -> bool {
    forall|i: int| 0 <= i < v.len() ==> {
        let r = prest::<K, V>(s, i as nat).unwrap();
        K::dval1(r, (#[trigger] v[i]).0) && V::dval1(K::drest1(r).unwrap(), v[i].1)
    }
}
#[verifier::opaque]
pub open spec fn u32_rest(s: Seq<u8>, fmt: u8) -> Option<Seq<u8>> {
    if fmt == 0x70 { fixed(s, 4) } else if fmt == 0x52 { fixed(s, 1) } else if fmt == 0x43 { Some(s) } else { None }
}
#[verifier::opaque]
pub open spec fn u32_val(s: Seq<u8>, fmt: u8) -> u32 {
    if fmt == 0x70 { rd32(s) } else if fmt == 0x52 { s[0] as u32 } else { 0 }
}
#[verifier::opaque]
pub open spec fn u64_rest(s: Seq<u8>, fmt: u8) -> Option<Seq<u8>> {
    if fmt == 0x80 { fixed(s, 8) } else if fmt == 0x53 { fixed(s, 1) } else if fmt == 0x44 { Some(s) } else { None }
}
#[verifier::opaque]
pub open spec fn u64_val(s: Seq<u8>, fmt: u8) -> u64 {
    if fmt == 0x80 { rd64(s) } else if fmt == 0x53 { s[0] as u64 } else { 0 }
}
#[verifier::opaque]
pub open spec fn i32_rest(s: Seq<u8>, fmt: u8) -> Option<Seq<u8>> {
    if fmt == 0x71 { fixed(s, 4) } else if fmt == 0x54 { fixed(s, 1) } else { None }
}
#[verifier::opaque]
pub open spec fn i32_val(s: Seq<u8>, fmt: u8) -> i32 {
    if fmt == 0x71 { rd32(s) as i32 } else { s[0] as i8 as i32 }
}
#[verifier::opaque]
pub open spec fn i64_rest(s: Seq<u8>, fmt: u8) -> Option<Seq<u8>> {
    if fmt == 0x81 { fixed(s, 8) } else if fmt == 0x55 { fixed(s, 1) } else { None }
}
#[verifier::opaque]
pub open spec fn i64_val(s: Seq<u8>, fmt: u8) -> i64 {
    if fmt == 0x81 { rd64(s) as i64 } else { s[0] as i8 as i64 }
}
#[verifier::opaque]
pub open spec fn bool_rest(s: Seq<u8>, fmt: u8) -> Option<Seq<u8>> {
    if fmt == 0x56 { fixed(s, 1) } else if fmt == 0x41 || fmt == 0x42 { Some(s) } else { None }
}
#[verifier::opaque]
pub open spec fn bool_val(s: Seq<u8>, fmt: u8) -> bool {
    if fmt == 0x56 { s[0] != 0 } else { fmt == 0x41 }
}
#[verifier::opaque]
pub open spec fn fix_rest(c: u8, n: int, s: Seq<u8>, fmt: u8) -> Option<Seq<u8>> {
    if fmt == c { fixed(s, n) } else { None }
}
#[verifier::opaque]
pub open spec fn char_rest(s: Seq<u8>, fmt: u8) -> Option<Seq<u8>> {
    if fmt == 0x73 && s.len() >= 4 && char_ok(rd32(s)) { Some(s.skip(4)) } else { None }
}
#[verifier::opaque]
pub open spec fn ts_rest(s: Seq<u8>, fmt: u8) -> Option<Seq<u8>> {
    if fmt == 0x83 && s.len() >= 8 && secs_ok((rd64(s) as i64) as int / 1000) { Some(s.skip(8)) } else { None }
}
#[verifier::opaque]
pub open spec fn ts_val(s: Seq<u8>, d: DateTime<Utc>) -> bool {
    let m = (rd64(s) as i64) as int;
    d.secs() == m / 1000 && d.nanos() == (m % 1000) * 1000000
}
#[verifier::opaque]
pub open spec fn descr_rest(s: Seq<u8>, fmt: u8) -> Option<Seq<u8>> {
    if fmt == 0x80 || fmt == 0x53 || fmt == 0x44 { u64_rest(s, fmt) } else { srest(0xa3, 0xb3, s, fmt) }
}
#[verifier::opaque]
pub open spec fn descr_val(s: Seq<u8>, fmt: u8, d: Descriptor) -> bool {
    match d {
        Descriptor::Ulong(x) => (fmt == 0x80 || fmt == 0x53 || fmt == 0x44) && x == u64_val(s, fmt),
        Descriptor::Symbol(y) => !(fmt == 0x80 || fmt == 0x53 || fmt == 0x44) && sval(0xa3, 0xb3, s, fmt, y@),
    }
}
/// constructor byte, then the format-specific part
#[verifier::opaque]
pub open spec fn descr_rest1(s: Seq<u8>) -> Option<Seq<u8>> {
    if s.len() >= 1 { descr_rest(s.skip(1), s[0]) } else { None }
}

#[verifier::opaque]
pub open spec fn opt_rest<T: DecodeFormatted>(s: Seq<u8>, fmt: u8) -> Option<Seq<u8>> { if fmt == 0x40 { Some(s) } else { T::drest(s, fmt) } }
#[verifier::opaque]
pub open spec fn opt_val<T: DecodeFormatted>(s: Seq<u8>, fmt: u8, v: Option<T>) -> bool { match v { None => fmt == 0x40, Some(x) => fmt != 0x40 && T::dval(s, fmt, x) } }
#[verifier::opaque]
pub open spec fn vec_rest<T: DecodeFormatted>(s: Seq<u8>, fmt: u8) -> Option<Seq<u8>> {
    match comp(0xe0, 0xf0, s, fmt) {
        Some(p) => if p.1.len() >= 1 && arest::<T>(p.1.skip(1), p.1[0], p.0) is Some { Some(p.2) } else { None },
        None => None,
    }
}
#[verifier::opaque]
pub open spec fn vec_val<T: DecodeFormatted>(s: Seq<u8>, fmt: u8, v: Seq<T>) -> bool {
    let p = comp(0xe0, 0xf0, s, fmt).unwrap();
    v.len() == p.0 && aval::<T>(p.1.skip(1), p.1[0], v)
}
#[verifier::opaque]
pub open spec fn map_rest<K: Decode, V: Decode>(s: Seq<u8>, fmt: u8) -> Option<Seq<u8>> {
    match comp(0xc1, 0xd1, s, fmt) {
        Some(p) => if prest::<K, V>(p.1, p.0 / 2) is Some { Some(p.2) } else { None },
        None => None,
    }
}
#[verifier::opaque]
pub open spec fn map_val<K: Decode, V: Decode>(s: Seq<u8>, fmt: u8, v: Seq<(K, V)>) -> bool {
    let p = comp(0xc1, 0xd1, s, fmt).unwrap();
    v.len() == p.0 / 2 && pval::<K, V>(p.1, v)
}
#[verifier::opaque]
pub open spec fn mul_rest<T: DecodeFormatted>(s: Seq<u8>, fmt: u8) -> Option<Seq<u8>> {
    if fmt == 0xe0 || fmt == 0xf0 { Vec::<T>::drest(s, fmt) } else { T::drest(s, fmt) }
}
#[verifier::opaque]
pub open spec fn mul_val<T: DecodeFormatted>(s: Seq<u8>, fmt: u8, v: Multiple<T>) -> bool {
    if fmt == 0xe0 || fmt == 0xf0 { Vec::<T>::dval(s, fmt, v.0) } else { v.0@.len() == 1 && T::dval(s, fmt, v.0@[0]) }
}
/// constructor byte, then the format-specific part
#[verifier::opaque]
pub open spec fn rest1<T: DecodeFormatted>(s: Seq<u8>) -> Option<Seq<u8>> { if s.len() >= 1 { T::drest(s.skip(1), s[0]) } else { None } }
#[verifier::opaque]
pub open spec fn val1<T: DecodeFormatted>(s: Seq<u8>, v: T) -> bool { T::dval(s.skip(1), s[0], v) }

/// frame body after the 4-byte rest of the fixed header and the extended header
#[verifier::opaque]
pub open spec fn frame_body(ty: u8, s: Seq<u8>) -> Option<Seq<u8>> {
    if s.len() >= 4 && s[1] == ty && s[0] >= 2 && s.len() >= s[0] * 4 - 4 { Some(s.skip(s[0] * 4 - 4)) } else { None }
}

// variants: the recursive part
#[verifier::opaque]
pub open spec fn vrest(s: Seq<u8>, fmt: u8) -> Option<Seq<u8>>
    decreases s.len(), 2int, 0int,
{
    if fmt == 0x40 { Some(s) }
    else if fmt == 0x56 || fmt == 0x41 || fmt == 0x42 { bool_rest(s, fmt) }
    else if fmt == 0x43 || fmt == 0x52 || fmt == 0x70 { u32_rest(s, fmt) }
    else if fmt == 0x44 || fmt == 0x53 || fmt == 0x80 { u64_rest(s, fmt) }
    else if fmt == 0x50 || fmt == 0x51 { fixed(s, 1) }
    else if fmt == 0x60 || fmt == 0x61 { fixed(s, 2) }
    else if fmt == 0x54 || fmt == 0x71 { i32_rest(s, fmt) }
    else if fmt == 0x55 || fmt == 0x81 { i64_rest(s, fmt) }
    else if fmt == 0x72 { fixed(s, 4) }
    else if fmt == 0x82 { fixed(s, 8) }
    else if fmt == 0x73 { char_rest(s, fmt) }
    else if fmt == 0x83 { ts_rest(s, fmt) }
    else if fmt == 0x98 { fixed(s, 16) }
    else if fmt == 0xa0 || fmt == 0xb0 { vrest_of(vbytes(0xa0, 0xb0, s, fmt)) }
    else if fmt == 0xa1 || fmt == 0xb1 { srest(0xa1, 0xb1, s, fmt) }
    else if fmt == 0xa3 || fmt == 0xb3 { srest(0xa3, 0xb3, s, fmt) }
    else if fmt == 0x45 { Some(s) }
    else if fmt == 0xc0 || fmt == 0xd0 { lrest(s, fmt) }
    else if fmt == 0xc1 || fmt == 0xd1 { mrest(s, fmt) }
    else if fmt == 0 {
        match descr_rest1(s) {
            Some(r) => if 0 < r.len() && r.len() <= s.len() { vrest(r.skip(1), r[0]) } else { None },
            None => None,
        }
    } else { None }
}
#[verifier::opaque]
pub open spec fn lrest(s: Seq<u8>, fmt: u8) -> Option<Seq<u8>>
    decreases s.len(), 1int, 0int,
{
    match lcomp(s, fmt) {
        Some(p) => if p.0 == 0 || (p.1.len() < s.len() && vitems(p.1, p.0) is Some) { Some(p.2) } else { None },
        None => None,
    }
}
#[verifier::opaque]
pub open spec fn mrest(s: Seq<u8>, fmt: u8) -> Option<Seq<u8>>
    decreases s.len(), 1int, 0int,
{
    match comp(0xc1, 0xd1, s, fmt) {
        Some(p) => if p.1.len() < s.len() && vitems(p.1, (p.0 / 2) * 2) is Some { Some(p.2) } else { None },
        None => None,
    }
}
/// rest after `k` items
#[verifier::opaque]
pub open spec fn vitems(s: Seq<u8>, k: nat) -> Option<Seq<u8>>
    decreases s.len(), 3int, k,
{
    if k == 0 { Some(s) } else {
        match vitems(s, (k - 1) as nat) {
            Some(r) => if 0 < r.len() && r.len() <= s.len() { vrest(r.skip(1), r[0]) } else { None },
            None => None,
        }
    }
}
pub proof fn vitems_none(s: Seq<u8>, k: nat, n: nat)
    requires k <= n, vitems(s, k) is None,
    ensures vitems(s, n) is None,
    decreases n,
{
    reveal(vitems);
    if k < n { vitems_none(s, k, (n - 1) as nat); }
}
#[verifier::opaque]
pub open spec fn vval(s: Seq<u8>, fmt: u8, v: Variant) -> bool
    decreases s.len(), 2int, 0int,
{
    match v {
        Variant::Null => fmt == 0x40,
        Variant::Boolean(b) => (fmt == 0x56 || fmt == 0x41 || fmt == 0x42) && b == bool_val(s, fmt),
        Variant::Ubyte(x) => fmt == 0x50 && x == s[0],
        Variant::Ushort(x) => fmt == 0x60 && x == rd16(s),
        Variant::Uint(x) => (fmt == 0x43 || fmt == 0x52 || fmt == 0x70) && x == u32_val(s, fmt),
        Variant::Ulong(x) => (fmt == 0x44 || fmt == 0x53 || fmt == 0x80) && x == u64_val(s, fmt),
        Variant::Byte(x) => fmt == 0x51 && x == s[0] as i8,
        Variant::Short(x) => fmt == 0x61 && x == rd16(s) as i16,
        Variant::Int(x) => (fmt == 0x54 || fmt == 0x71) && x == i32_val(s, fmt),
        Variant::Long(x) => (fmt == 0x55 || fmt == 0x81) && x == i64_val(s, fmt),
        Variant::Float(f) => fmt == 0x72 && f32_bits(f.0) == rd32(s),
        Variant::Double(f) => fmt == 0x82 && f64_bits(f.0) == rd64(s),
        Variant::Char(c) => fmt == 0x73 && c as u32 == rd32(s),
        Variant::Timestamp(t) => fmt == 0x83 && ts_val(s, t),
        Variant::Uuid(u) => fmt == 0x98 && u@ == s.take(16),
        Variant::Binary(b) => (fmt == 0xa0 || fmt == 0xb0) && b@ == vbytes(0xa0, 0xb0, s, fmt).unwrap().0,
        Variant::String(x) => (fmt == 0xa1 || fmt == 0xb1) && sval(0xa1, 0xb1, s, fmt, x@),
        Variant::Symbol(x) => (fmt == 0xa3 || fmt == 0xb3) && sval(0xa3, 0xb3, s, fmt, x@),
        Variant::StaticSymbol(x) => false,
        Variant::List(l) => fmt == 0x45 && l.0@.len() == 0 || (fmt == 0xc0 || fmt == 0xd0) && lval(s, fmt, l.0@),
        Variant::Map(m) => (fmt == 0xc1 || fmt == 0xd1) && mval(s, fmt, m.map.log()),
        Variant::Described(d) => fmt == 0 && descr_val(s.skip(1), s[0], d.0) && {
            let r = descr_rest1(s).unwrap();
            0 < r.len() && r.len() <= s.len() && vval(r.skip(1), r[0], *d.1)
        },
    }
}
#[verifier::opaque]
pub open spec fn lval(s: Seq<u8>, fmt: u8, v: Seq<Variant>) -> bool
    decreases s.len(), 1int, 0int,
{
    let p = lcomp(s, fmt).unwrap();
    v.len() == p.0 && (p.0 == 0 || p.1.len() < s.len() && ivals(p.1, v))
}
#[verifier::opaque]
pub open spec fn mval(s: Seq<u8>, fmt: u8, v: Seq<(Variant, Variant)>) -> bool
    decreases s.len(), 1int, 0int,
{
    let p = comp(0xc1, 0xd1, s, fmt).unwrap();
    v.len() == p.0 / 2 && p.1.len() < s.len() && pvals(p.1, v)
}
#[verifier::opaque]
pub open spec fn ivals(s: Seq<u8>, v: Seq<Variant>) -> bool
    decreases s.len(), 4int, 0int,
{
    forall|i: int| 0 <= i < v.len() ==> ival(s, i as nat, #[trigger] v[i])
}
#[verifier::opaque]
pub open spec fn pvals(s: Seq<u8>, v: Seq<(Variant, Variant)>) -> bool
    decreases s.len(), 4int, 0int,
{
    forall|i: int| 0 <= i < v.len() ==> ival(s, (2 * i) as nat, (#[trigger] v[i]).0) && ival(s, (2 * i + 1) as nat, v[i].1)
}
#[verifier::opaque]
pub open spec fn ival(s: Seq<u8>, k: nat, v: Variant) -> bool
    decreases s.len(), 3int, 0int,
{
    let r = vitems(s, k).unwrap();
    0 < r.len() && r.len() <= s.len() && vval(r.skip(1), r[0], v)
}
pub proof fn zero_codes(s: Seq<u8>)
    ensures bool_rest(s, 0x41) == Some(s), bool_rest(s, 0x42) == Some(s), bool_val(s, 0x41), !bool_val(s, 0x42),
        u32_rest(s, 0x43) == Some(s), u32_val(s, 0x43) == 0, u64_rest(s, 0x44) == Some(s), u64_val(s, 0x44) == 0,
{ reveal(bool_rest); reveal(bool_val); reveal(u32_rest); reveal(u32_val); reveal(u64_rest); reveal(u64_val); }
%%
