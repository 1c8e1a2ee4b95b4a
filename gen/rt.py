# round-trip lemmas over the contracts of encoders and decoders: what an encoder is proved to append is what the
# matching decoder is proved to read back, whatever follows
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import spec, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from decode import SEEN
out = []
w = out.append
def rv(*names):
    return ' '.join(f'reveal({n});' for n in names)
w('''%root rt
use vstd::prelude::*;
pub use crate::vx::*;
/// a value decodes to the same value, leaving what followed it
pub trait RTF: Encode + Decode + DecodeFormatted + Sized {
    /// `b` is what `a` is read back as
    spec fn same(a: Self, b: Self) -> bool;
    /// values that have an encoding of their own
    spec fn ok(v: Self) -> bool;
    /// not encoded as null
    spec fn nn(v: Self) -> bool;
    /// not encoded as an array
    spec fn el(v: Self) -> bool;
    proof fn rtf(v: Self, t: Seq<u8>)
        requires Self::ok(v), v.inv(), v.enc().len() <= u32::MAX,
        ensures v.enc().len() >= 1,
            Self::drest((v.enc() + t).skip(1), v.enc()[0]) == Some(t),
            forall|x: Self| #[trigger] Self::dval((v.enc() + t).skip(1), v.enc()[0], x) ==> Self::same(v, x),
            Self::nn(v) ==> v.enc()[0] != 0x40,
            Self::el(v) ==> v.enc()[0] != 0xe0 && v.enc()[0] != 0xf0;
    proof fn one()
        ensures forall|s: Seq<u8>| #[trigger] Self::drest1(s) == rest1::<Self>(s),
            forall|s: Seq<u8>, x: Self| #[trigger] Self::dval1(s, x) == val1::<Self>(s, x);
}
/// the same for elements of arrays
pub trait RTA: ArrayEncode + DecodeFormatted + Sized {
    spec fn asame(a: Self, b: Self) -> bool;
    spec fn aok(v: Self) -> bool;
    proof fn rta(v: Self, t: Seq<u8>)
        requires Self::aok(v), v.ainv(), v.aenc().len() <= u32::MAX,
        ensures v.aenc().len() >= 1,
            Self::drest(v.aenc() + t, Self::acode()) == Some(t),
            forall|x: Self| #[trigger] Self::dval(v.aenc() + t, Self::acode(), x) ==> Self::asame(v, x);
}
/// what follows the constructor byte
pub proof fn tail1(c: u8, b: Seq<u8>, t: Seq<u8>)
    ensures (b1(c) + b + t).skip(1) == b + t, (b1(c) + b)[0] == c, (b1(c) + t).skip(1) == t, b1(c)[0] == c,
        (b1(c) + b + t)[0] == c, (b1(c) + t)[0] == c,
{
    assert((b1(c) + b + t).skip(1) =~= b + t);
    assert((b1(c) + t).skip(1) =~= t);
}
pub proof fn cut(a: Seq<u8>, t: Seq<u8>)
    ensures (a + t).take(a.len() as int) == a, (a + t).skip(a.len() as int) == t, a.len() > 0 ==> (a + t)[0] == a[0],
{
    assert((a + t).take(a.len() as int) =~= a);
    assert((a + t).skip(a.len() as int) =~= t);
}
pub proof fn rt1<T: RTF>(v: T, t: Seq<u8>)
    requires T::ok(v), v.inv(), v.enc().len() <= u32::MAX,
    ensures v.enc().len() >= 1, T::drest1(v.enc() + t) == Some(t), T::nn(v) ==> v.enc()[0] != 0x40,
        forall|x: T| #[trigger] T::dval1(v.enc() + t, x) ==> T::same(v, x),
{
    T::one(); T::rtf(v, t); cut(v.enc(), t);
    reveal(rest1); reveal(val1);
    assert(T::drest1(v.enc() + t) == rest1::<T>(v.enc() + t));
    assert forall|x: T| #[trigger] T::dval1(v.enc() + t, x) implies T::same(v, x) by { assert(val1::<T>(v.enc() + t, x)); }
}
pub proof fn u8_i8(x: i8)
    ensures (x as u8) as i8 == x,
{ assert((x as u8) as i8 == x) by (bit_vector); }
pub proof fn u16_i16(x: i16)
    ensures (x as u16) as i16 == x,
{ assert((x as u16) as i16 == x) by (bit_vector); }
pub proof fn u32_i32(x: i32)
    ensures (x as u32) as i32 == x,
{ assert((x as u32) as i32 == x) by (bit_vector); }
pub proof fn u64_i64(x: i64)
    ensures (x as u64) as i64 == x,
{ assert((x as u64) as i64 == x) by (bit_vector); }
pub open spec fn ts_same(a: DateTime<Utc>, b: DateTime<Utc>) -> bool {
    b.secs() == a.millis() / 1000 && b.nanos() == (a.millis() % 1000) * 1000000
}
pub proof fn u32_rt(v: u32, t: Seq<u8>)
    ensures ({ let s = u32_enc(v) + t; u32_enc(v).len() >= 1 && u32_rest(s.skip(1), s[0]) == Some(t) && u32_val(s.skip(1), s[0]) == v && s[0] == u32_enc(v)[0] && (s[0] == 0x43 || s[0] == 0x52 || s[0] == 0x70) }),
{
    reveal(u32_enc); reveal(u32_rest); reveal(u32_val); reveal(fixed);
    rd_be32(v, t); be32_len(v); cut(be32(v), t); cut(b1(v as u8), t);
    tail1(0x43, b1(0), t); tail1(0x52, b1(v as u8), t); tail1(0x70, be32(v), t);
}
pub proof fn u64_rt(v: u64, t: Seq<u8>)
    ensures ({ let s = u64_enc(v) + t; u64_enc(v).len() >= 1 && u64_rest(s.skip(1), s[0]) == Some(t) && u64_val(s.skip(1), s[0]) == v && s[0] == u64_enc(v)[0] && (s[0] == 0x44 || s[0] == 0x53 || s[0] == 0x80) }),
{
    reveal(u64_enc); reveal(u64_rest); reveal(u64_val); reveal(fixed);
    rd_be64(v, t); be64_len(v); cut(be64(v), t); cut(b1(v as u8), t);
    tail1(0x44, b1(0), t); tail1(0x53, b1(v as u8), t); tail1(0x80, be64(v), t);
}
pub proof fn i32_rt(v: i32, t: Seq<u8>)
    ensures ({ let s = i32_enc(v) + t; i32_enc(v).len() >= 1 && i32_rest(s.skip(1), s[0]) == Some(t) && i32_val(s.skip(1), s[0]) == v && s[0] == i32_enc(v)[0] && (s[0] == 0x54 || s[0] == 0x71) }),
{
    reveal(i32_enc); reveal(i32_rest); reveal(i32_val); reveal(fixed);
    let x = v as u32; let y = v as i8 as u8;
    rd_be32(x, t); be32_len(x); cut(be32(x), t); cut(b1(y), t);
    tail1(0x54, b1(y), t); tail1(0x71, be32(x), t);
    u32_i32(v); u8_i8(v as i8);
}
pub proof fn i64_rt(v: i64, t: Seq<u8>)
    ensures ({ let s = i64_enc(v) + t; i64_enc(v).len() >= 1 && i64_rest(s.skip(1), s[0]) == Some(t) && i64_val(s.skip(1), s[0]) == v && s[0] == i64_enc(v)[0] && (s[0] == 0x55 || s[0] == 0x81) }),
{
    reveal(i64_enc); reveal(i64_rest); reveal(i64_val); reveal(fixed);
    let x = v as u64; let y = v as i8 as u8;
    rd_be64(x, t); be64_len(x); cut(be64(x), t); cut(b1(y), t);
    tail1(0x55, b1(y), t); tail1(0x81, be64(x), t);
    u64_i64(v); u8_i8(v as i8);
}
pub proof fn bool_rt(v: bool, t: Seq<u8>)
    ensures ({ let s = bool_enc(v) + t; bool_enc(v).len() >= 1 && bool_rest(s.skip(1), s[0]) == Some(t) && bool_val(s.skip(1), s[0]) == v && s[0] == bool_enc(v)[0] && (s[0] == 0x41 || s[0] == 0x42) }),
{
    reveal(bool_enc); reveal(bool_rest); reveal(bool_val); reveal(fixed);
    tail1(0x41, b1(0), t); tail1(0x42, b1(0), t);
}
pub proof fn venc_rt(c8: u8, c32: u8, b: Seq<u8>, t: Seq<u8>)
    requires b.len() <= u32::MAX, c8 != c32,
    ensures ({ let e = venc_bytes(c8, c32, b); let s = e + t; e.len() >= 1 && e.len() >= b.len() + 2 && vbytes(c8, c32, s.skip(1), s[0]) == Some((b, t)) && s[0] == e[0] && (s[0] == c8 || s[0] == c32) }),
{
    reveal(venc_bytes); reveal(vbytes);
    let n8 = b1(b.len() as u8); let n32 = be32(b.len() as u32);
    be32_len(b.len() as u32);
    tail1(c8, n8 + b, t); tail1(c32, n32 + b, t);
    cut(b, t); cut(n8, b + t); cut(n32, b + t);
    app_assoc(n8, b, t); app_assoc(n32, b, t);
    rd_be32(b.len() as u32, b + t);
}
/// elements of arrays of variable width types always use the four byte size
pub proof fn aenc_rt(c8: u8, c32: u8, b: Seq<u8>, t: Seq<u8>)
    requires b.len() <= u32::MAX, c8 != c32,
    ensures vbytes(c8, c32, (be32(b.len() as u32) + b) + t, c32) == Some((b, t)), (be32(b.len() as u32) + b).len() >= 4,
{
    reveal(vbytes);
    let n32 = be32(b.len() as u32);
    be32_len(b.len() as u32); cut(b, t); cut(n32, b + t); app_assoc(n32, b, t);
    rd_be32(b.len() as u32, b + t);
}
pub proof fn str_rt(c8: u8, c32: u8, c: Seq<char>, t: Seq<u8>)
    requires utf8_enc(c).len() <= u32::MAX, c8 != c32,
    ensures ({ let e = venc_bytes(c8, c32, utf8_enc(c)); let s = e + t; e.len() >= 1 && e.len() >= utf8_enc(c).len() + 2 && srest(c8, c32, s.skip(1), s[0]) == Some(t) && s[0] == e[0] && (s[0] == c8 || s[0] == c32)
        && vbytes(c8, c32, s.skip(1), s[0]) == Some((utf8_enc(c), t)) && utf8_dec(utf8_enc(c)) == c
        && forall|x: Seq<char>| #[trigger] sval(c8, c32, s.skip(1), s[0], x) ==> x == c }),
{
    venc_rt(c8, c32, utf8_enc(c), t); utf8_inverse2(c); reveal(srest); reveal(sval);
}
pub proof fn astr_rt(c8: u8, c32: u8, c: Seq<char>, t: Seq<u8>)
    requires utf8_enc(c).len() <= u32::MAX, c8 != c32,
    ensures ({ let e = be32(utf8_enc(c).len() as u32) + utf8_enc(c); let s = e + t; e.len() >= 1 && srest(c8, c32, s, c32) == Some(t)
        && forall|x: Seq<char>| #[trigger] sval(c8, c32, s, c32, x) ==> x == c }),
{
    aenc_rt(c8, c32, utf8_enc(c), t); utf8_inverse2(c); reveal(srest); reveal(sval);
}
pub proof fn ts_rt(v: DateTime<Utc>, t: Seq<u8>)
    requires secs_ok(v.millis() / 1000),
    ensures ts_rest(ts_enc(v) + t, 0x83) == Some(t), ts_enc(v).len() == 8, forall|x: DateTime<Utc>| #[trigger] ts_val(ts_enc(v) + t, x) ==> ts_same(v, x),
{
    reveal(ts_rest); reveal(ts_enc); reveal(ts_val); dt_range(v);
    let m = v.millis() as i64;
    be64_len(m as u64); rd_be64(m as u64, t); u64_i64(m); cut(be64(m as u64), t);
    assert(-10000000000000000 <= v.millis() <= 10000000000000000);
}
pub proof fn descr_rt(d: Descriptor, t: Seq<u8>)
    requires match d { Descriptor::Ulong(_) => true, Descriptor::Symbol(s) => utf8_enc(s@).len() <= u32::MAX },
    ensures ({ let s = descr_enc(d) + t; descr_enc(d).len() >= 2 && s[0] == 0 && s.len() > 0 && descr_rest1(s.skip(1)) == Some(t)
        && forall|x: Descriptor| #[trigger] descr_val(s.skip(1).skip(1), s.skip(1)[0], x) ==> descr_same(d, x) }),
{
    reveal(descr_enc); reveal(descr_rest1); reveal(descr_rest); reveal(descr_val);
    match d {
        Descriptor::Ulong(v) => { u64_rt(v, t); tail1(0, u64_enc(v), t); app_assoc(b1(0), u64_enc(v), t); cut(u64_enc(v), t); }
        Descriptor::Symbol(y) => { reveal(sym_enc); str_rt(0xa3, 0xb3, y@, t); tail1(0, sym_enc(y@), t); app_assoc(b1(0), sym_enc(y@), t); cut(sym_enc(y@), t); }
    }
}
pub open spec fn descr_same(a: Descriptor, b: Descriptor) -> bool {
    match (a, b) { (Descriptor::Ulong(x), Descriptor::Ulong(y)) => x == y, (Descriptor::Symbol(x), Descriptor::Symbol(y)) => x@ == y@, _ => false }
}
''')
ONE = '''    proof fn one() {
        reveal(rest1); reveal(val1);
        assert forall|s: Seq<u8>| #[trigger] Self::drest1(s) == rest1::<Self>(s) by {}
        assert forall|s: Seq<u8>, x: Self| #[trigger] Self::dval1(s, x) == val1::<Self>(s, x) by {}
    }
'''
def facts(ty, s, fmt):
    r, v = SEEN[ty]
    v = re.sub(r'\bv\b', 'x', v)
    return f'''let (s, fmt) = ({s}, {fmt});
        assert(Self::drest(s, fmt) == ({r}));
        assert forall|x: Self| #[trigger] Self::dval(s, fmt, x) == ({v}) by {{}}'''
def rtf(ty, same, ok, body, nn='true', g='', el='true', key=None):
    w(f'''impl{g} RTF for {ty} {{
    open spec fn same(a: Self, b: Self) -> bool {{ {same} }}
    open spec fn ok(v: Self) -> bool {{ {ok} }}
    open spec fn nn(v: Self) -> bool {{ {nn} }}
    open spec fn el(v: Self) -> bool {{ {el} }}
    proof fn rtf(v: Self, t: Seq<u8>) {{
        {body}
        {facts(key or ty, '(v.enc() + t).skip(1)', 'v.enc()[0]')}
    }}
{ONE}}}''')
def rta(ty, same, ok, body, g='', key=None):
    w(f'''impl{g} RTA for {ty} {{
    open spec fn asame(a: Self, b: Self) -> bool {{ {same} }}
    open spec fn aok(v: Self) -> bool {{ {ok} }}
    proof fn rta(v: Self, t: Seq<u8>) {{
        {body}
        {facts(key or ty, 'v.aenc() + t', 'Self::acode()')}
    }}
}}''')
def cutS(f): return f'cut(v.enc(), t); let s = v.enc() + t; {f}'
for n in ('u32', 'u64', 'i32', 'i64', 'bool'):
    rtf(n, 'a == b', 'true', f'{n}_rt(v, t);')
# fixed width: value, bytes, spec
FIX = {'u8': ('b1(v)', 'cut(b1(v), t);'), 'i8': ('b1(v as u8)', 'cut(b1(v as u8), t); u8_i8(v);'),
       'u16': ('be16(v)', 'be16_len(v); cut(be16(v), t); rd_be16(v, t);'),
       'i16': ('be16(v as u16)', 'be16_len(v as u16); cut(be16(v as u16), t); rd_be16(v as u16, t); u16_i16(v);'),
       'f32': ('be32(f32_bits(v))', 'be32_len(f32_bits(v)); cut(be32(f32_bits(v)), t); rd_be32(f32_bits(v), t); assert forall|x: f32| (#[trigger] f32_bits(x)) == f32_bits(v) implies x == v by { f32_bits_inj(x, v); }'),
       'f64': ('be64(f64_bits(v))', 'be64_len(f64_bits(v)); cut(be64(f64_bits(v)), t); rd_be64(f64_bits(v), t); assert forall|x: f64| (#[trigger] f64_bits(x)) == f64_bits(v) implies x == v by { f64_bits_inj(x, v); }'),
       'char': ('be32(v as u32)', 'be32_len(v as u32); cut(be32(v as u32), t); rd_be32(v as u32, t); reveal(char_rest);'),
       'Uuid': ('v@', 'uuid_len(v); cut(v@, t);'),
       'DateTime<Utc>': ('ts_enc(v)', 'ts_rt(v, t);')}
SAME = {'Uuid': 'a@ == b@', 'DateTime<Utc>': 'ts_same(a, b)'}
OK = {'DateTime<Utc>': 'secs_ok(v.millis() / 1000)'}
for n, (e, b) in FIX.items():
    same, ok = SAME.get(n, 'a == b'), OK.get(n, 'true')
    code = f'<{n} as ArrayEncode>::acode()'
    rta(n, same, ok, f'reveal(fix_rest); reveal(fixed); {b}')
    rtf(n, same, ok, f'<{n} as RTA>::rta(v, t); tail1({code}, v.aenc(), t); app_assoc(b1({code}), v.aenc(), t);\n        assert(v.enc() == b1({code}) + v.aenc());')
for n, e in (('u32', 'be32(v)'), ('u64', 'be64(v)')):
    k = e[:4]
    rta(n, 'a == b', 'true', f'reveal({n}_rest); reveal({n}_val); reveal(fixed); {k}_len(v); cut({e}, t); rd_{k}(v, t);')
for n, m, k in (('i32', 'u32', 'be32'), ('i64', 'u64', 'be64')):
    rta(n, 'a == b', 'true', f'reveal({n}_rest); reveal({n}_val); reveal(fixed); {k}_len(v as {m}); cut({k}(v as {m}), t); rd_{k}(v as {m}, t); {m}_{n}(v);')
rta('bool', 'a == b', 'true', 'reveal(bool_rest); reveal(bool_val); reveal(fixed); cut(b1(if v { 1 } else { 0 }), t);')
rtf('Bytes', 'a@ == b@', 'true', 'reveal(venc_bytes); reveal(vrest_of); venc_rt(0xa0, 0xb0, v@, t);')
rta('Bytes', 'a@ == b@', 'true', 'reveal(vrest_of); be32_len(v@.len() as u32); aenc_rt(0xa0, 0xb0, v@, t);')
for n, c, f in (('ByteStr', '0xa1, 0xb1', 'str'), ('Str', '0xa1, 0xb1', 'str'), ('Symbol', '0xa3, 0xb3', 'sym')):
    rtf(n, 'a@ == b@', 'true', f'reveal({f}_enc); reveal(venc_bytes); str_rt({c}, v@, t);')
    if n != 'Str': rta(n, 'a@ == b@', 'true', f'be32_len(utf8_enc(v@).len() as u32); astr_rt({c}, v@, t);')
rtf('Option<T>', 'match (a, b) { (Some(x), Some(y)) => T::same(x, y), (None, None) => true, _ => false }',
    'match v { Some(x) => T::ok(x) && T::nn(x), None => true }',
    'reveal(opt_enc); reveal(opt_inv); reveal(opt_rest); reveal(opt_val); tail1(0x40, b1(0), t);\n        match v { Some(x) => { T::rtf(x, t); } None => {} }', nn='v is Some', g='<T: RTF>', el='match v { Some(x) => T::el(x), None => true }')

w('''
// ------------------------------------------------------------------ compounds
/// the two compound headers, byte by byte
pub proof fn head8(c: u8, z: u8, n: u8, b: Seq<u8>, t: Seq<u8>)
    ensures ({ let e = b1(c) + (b1(z) + (b1(n) + b)); let s = e + t; e.len() == b.len() + 3 && e[0] == c && s[0] == c && s.skip(1)[0] == z && s.skip(1)[1] == n && s.skip(1).len() == b.len() + t.len() + 2
        && s.skip(1).skip(2) == b + t }),
{
    let s = b1(c) + (b1(z) + (b1(n) + b)) + t;
    assert(s.skip(1).skip(2) =~= b + t);
}
pub proof fn head32(c: u8, z: u32, n: u32, b: Seq<u8>, t: Seq<u8>)
    ensures ({ let e = b1(c) + (be32(z) + (be32(n) + b)); let s = e + t; e.len() == b.len() + 9 && e[0] == c && s[0] == c && rd32(s.skip(1)) == z && rd32(s.skip(1).skip(4)) == n && s.skip(1).len() == b.len() + t.len() + 8
        && s.skip(1).skip(8) == b + t }),
{
    be32_len(z); be32_len(n);
    let s = b1(c) + (be32(z) + (be32(n) + b)) + t;
    assert(s.skip(1) =~= be32(z) + (be32(n) + (b + t)));
    assert(s.skip(1).skip(4) =~= be32(n) + (b + t));
    assert(s.skip(1).skip(8) =~= b + t);
    rd_be32(z, be32(n) + (b + t)); rd_be32(n, b + t);
}
pub proof fn arenc_rt(ctor: u8, n: nat, body: Seq<u8>, t: Seq<u8>)
    requires n <= body.len(), arenc(ctor, n, body).len() <= u32::MAX,
    ensures ({ let e = arenc(ctor, n, body); let s = e + t; e.len() >= 1 && s[0] == e[0] && (s[0] == 0xe0 || s[0] == 0xf0)
        && comp(0xe0, 0xf0, s.skip(1), s[0]) == Some((n, b1(ctor) + body, t)) }),
{
    reveal(arenc); reveal(comp); reveal(cbody); reveal(chead);
    let b = b1(ctor) + body;
    cut(b, t);
    if body.len() + 2 > 255 { head32(0xf0, (body.len() + 5) as u32, n as u32, b, t); } else { head8(0xe0, (body.len() + 2) as u8, n as u8, b, t); }
}
pub proof fn cenc_rt(c8: u8, c32: u8, n: nat, body: Seq<u8>, t: Seq<u8>)
    requires n <= body.len(), cenc(c8, c32, n, body).len() <= u32::MAX, c8 != c32,
    ensures ({ let e = cenc(c8, c32, n, body); let s = e + t; e.len() >= 1 && e.len() > body.len() + 2 && s[0] == e[0] && (s[0] == c8 || s[0] == c32)
        && comp(c8, c32, s.skip(1), s[0]) == Some((n, body, t)) }),
{
    reveal(cenc); reveal(comp); reveal(cbody); reveal(chead);
    cut(body, t);
    if body.len() + 1 > 255 { head32(c32, (body.len() + 4) as u32, n as u32, body, t); } else { head8(c8, (body.len() + 1) as u8, n as u8, body, t); }
}
/// the encoded map as an array element: always the four byte form
pub proof fn acenc_rt(n: nat, body: Seq<u8>, t: Seq<u8>)
    requires n <= body.len(), body.len() + 8 <= u32::MAX,
    ensures ({ let e = be32((body.len() + 4) as u32) + (be32(n as u32) + body); e.len() >= 1 && comp(0xc1, 0xd1, e + t, 0xd1) == Some((n, body, t)) }),
{
    reveal(comp); reveal(cbody); reveal(chead);
    let b = body;
    be32_len((body.len() + 4) as u32); be32_len(n as u32);
    let n32 = be32(n as u32) + b; let z32 = be32((body.len() + 4) as u32);
    app_assoc(z32, n32, t); app_assoc(be32(n as u32), b, t);
    cut(z32, n32 + t); cut(be32(n as u32), b + t); cut(b, t);
    rd_be32((body.len() + 4) as u32, n32 + t); rd_be32(n as u32, b + t);
    let s = (z32 + n32) + t;
    assert(s == z32 + (be32(n as u32) + (b + t)));
    skip_skip(s, 4, 4);
}
// ------------------------------------------------------------------ elements of an array
pub proof fn aflat_pre<T: ArrayEncode>(s: Seq<T>, i: int)
    requires 0 <= i <= s.len(),
    ensures aflat(s.take(i)).len() <= aflat(s).len(), aflat(s).take(aflat(s.take(i)).len() as int) == aflat(s.take(i)),
    decreases s.len(),
{
    if i == s.len() {
        assert(s.take(i) =~= s);
        assert(aflat(s).take(aflat(s).len() as int) =~= aflat(s));
    } else {
        reveal(aflat);
        aflat_pre(s.drop_last(), i);
        assert(s.drop_last().take(i) =~= s.take(i));
        let n = aflat(s.take(i)).len() as int;
        assert(aflat(s).take(n) =~= aflat(s.drop_last()).take(n));
    }
}
/// what is left from element `i` on
pub proof fn aflat_at<T: ArrayEncode>(s: Seq<T>, i: int)
    requires 0 <= i < s.len(),
    ensures aflat(s.take(i)).len() + s[i].aenc().len() == aflat(s.take(i + 1)).len() <= aflat(s).len(),
        aflat(s).skip(aflat(s.take(i)).len() as int) == s[i].aenc() + aflat(s).skip(aflat(s.take(i + 1)).len() as int),
{
    aflat_pre(s, i); aflat_pre(s, i + 1); aflat_step(s, i);
    let (b, e, n, m) = (aflat(s), s[i].aenc(), aflat(s.take(i)).len() as int, aflat(s.take(i + 1)).len() as int);
    assert(b.take(m) == b.take(n) + e);
    assert(b =~= b.take(m) + b.skip(m));
    assert(b.skip(n) =~= e + b.skip(m));
}
pub open spec fn aok_all<T: RTA>(s: Seq<T>) -> bool { forall|i: int| 0 <= i < s.len() ==> T::aok(#[trigger] s[i]) }
pub open spec fn asame_all<T: RTA>(a: Seq<T>, b: Seq<T>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> T::asame(a[i], #[trigger] b[i]) }
pub proof fn arest_rt<T: RTA>(s: Seq<T>, i: nat)
    requires i <= s.len(), aok_all(s), vec_inv(s), aflat(s).len() <= u32::MAX,
    ensures arest::<T>(aflat(s), T::acode(), i) == Some(aflat(s).skip(aflat(s.take(i as int)).len() as int)), i <= aflat(s.take(i as int)).len() <= aflat(s).len(),
    decreases i,
{
    reveal(arest); reveal(vec_inv);
    if i == 0 {
        aflat_zero(s, 0); assert(aflat(s).skip(0) =~= aflat(s));
    } else {
        let j = (i - 1) as nat;
        arest_rt(s, j);
        aflat_at(s, j as int);
        T::rta(s[j as int], aflat(s).skip(aflat(s.take(i as int)).len() as int));
    }
}
pub proof fn aval_rt<T: RTA>(s: Seq<T>, x: Seq<T>)
    requires aok_all(s), vec_inv(s), aflat(s).len() <= u32::MAX, x.len() == s.len(), aval::<T>(aflat(s), T::acode(), x),
    ensures asame_all(s, x),
{
    reveal(aval); reveal(vec_inv);
    assert forall|i: int| 0 <= i < s.len() implies T::asame(s[i], #[trigger] x[i]) by {
        arest_rt(s, i as nat); aflat_at(s, i);
        T::rta(s[i], aflat(s).skip(aflat(s.take(i + 1)).len() as int));
    }
}
pub proof fn vec_rt<T: RTA>(v: Vec<T>, t: Seq<u8>)
    requires aok_all(v@), vec_inv(v@), v.enc().len() <= u32::MAX,
    ensures v.enc().len() >= 1, v.enc()[0] == 0xe0 || v.enc()[0] == 0xf0, (v.enc() + t)[0] == v.enc()[0],
        vec_rest::<T>((v.enc() + t).skip(1), v.enc()[0]) == Some(t),
        forall|x: Seq<T>| #[trigger] vec_val::<T>((v.enc() + t).skip(1), v.enc()[0], x) ==> asame_all(v@, x),
{
    reveal(vec_rest); reveal(vec_val);
    let b = aflat(v@);
    assert(v.enc() == arenc(T::acode(), v@.len(), b));
    assert(b.len() + 4 <= v.enc().len()) by { reveal(arenc); be32_len((b.len() + 5) as u32); be32_len(v@.len() as u32); }
    arest_rt(v@, v@.len()); assert(v@.take(v@.len() as int) =~= v@);
    arenc_rt(T::acode(), v@.len(), b, t);
    tail1(T::acode(), t, b);
    assert forall|x: Seq<T>| #[trigger] vec_val::<T>((v.enc() + t).skip(1), v.enc()[0], x) implies asame_all(v@, x) by { aval_rt(v@, x); }
}
// ------------------------------------------------------------------ pairs of a map
pub proof fn pflat_pre<K: Encode, V: Encode>(s: Seq<(K, V)>, i: int)
    requires 0 <= i <= s.len(),
    ensures pflat(s.take(i)).len() <= pflat(s).len(), pflat(s).take(pflat(s.take(i)).len() as int) == pflat(s.take(i)),
    decreases s.len(),
{
    if i == s.len() {
        assert(s.take(i) =~= s);
        assert(pflat(s).take(pflat(s).len() as int) =~= pflat(s));
    } else {
        reveal(pflat);
        pflat_pre(s.drop_last(), i);
        assert(s.drop_last().take(i) =~= s.take(i));
        let n = pflat(s.take(i)).len() as int;
        assert(pflat(s).take(n) =~= pflat(s.drop_last()).take(n));
    }
}
pub proof fn pflat_at<K: Encode, V: Encode>(s: Seq<(K, V)>, i: int)
    requires 0 <= i < s.len(),
    ensures pflat(s.take(i)).len() + s[i].0.enc().len() + s[i].1.enc().len() == pflat(s.take(i + 1)).len() <= pflat(s).len(),
        pflat(s).skip(pflat(s.take(i)).len() as int) == s[i].0.enc() + (s[i].1.enc() + pflat(s).skip(pflat(s.take(i + 1)).len() as int)),
{
    pflat_pre(s, i); pflat_pre(s, i + 1); pflat_step(s, i);
    let (b, e, n, m) = (pflat(s), s[i].0.enc() + s[i].1.enc(), pflat(s.take(i)).len() as int, pflat(s.take(i + 1)).len() as int);
    assert(b.take(m) == b.take(n) + e);
    assert(b =~= b.take(m) + b.skip(m));
    assert(b.skip(n) =~= s[i].0.enc() + (s[i].1.enc() + b.skip(m)));
}
pub open spec fn pok<K: RTF, V: RTF>(s: Seq<(K, V)>) -> bool { forall|i: int| 0 <= i < s.len() ==> K::ok((#[trigger] s[i]).0) && V::ok(s[i].1) }
pub open spec fn psame<K: RTF, V: RTF>(a: Seq<(K, V)>, b: Seq<(K, V)>) -> bool {
    a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> K::same(a[i].0, (#[trigger] b[i]).0) && V::same(a[i].1, b[i].1)
}
pub proof fn prest_rt<K: RTF, V: RTF>(s: Seq<(K, V)>, i: nat)
    requires i <= s.len(), pok(s), pairs_inv(s), pflat(s).len() <= u32::MAX,
    ensures prest::<K, V>(pflat(s), i) == Some(pflat(s).skip(pflat(s.take(i as int)).len() as int)), 2 * i <= pflat(s.take(i as int)).len() <= pflat(s).len(),
    decreases i,
{
    reveal(prest); reveal(pairs_inv);
    if i == 0 {
        pflat_zero(s, 0); assert(pflat(s).skip(0) =~= pflat(s));
    } else {
        let j = (i - 1) as nat;
        prest_rt(s, j);
        pflat_at(s, j as int);
        let r = pflat(s).skip(pflat(s.take(i as int)).len() as int);
        rt1::<K>(s[j as int].0, s[j as int].1.enc() + r);
        rt1::<V>(s[j as int].1, r);
    }
}
pub proof fn pval_rt<K: RTF, V: RTF>(s: Seq<(K, V)>, x: Seq<(K, V)>)
    requires pok(s), pairs_inv(s), pflat(s).len() <= u32::MAX, x.len() == s.len(), pval::<K, V>(pflat(s), x),
    ensures psame(s, x),
{
    reveal(pval); reveal(pairs_inv);
    assert forall|i: int| 0 <= i < s.len() implies K::same(s[i].0, (#[trigger] x[i]).0) && V::same(s[i].1, x[i].1) by {
        prest_rt(s, i as nat); pflat_at(s, i);
        let r = pflat(s).skip(pflat(s.take(i + 1)).len() as int);
        rt1::<K>(s[i].0, s[i].1.enc() + r);
        rt1::<V>(s[i].1, r);
    }
}
pub proof fn map_rt<K: RTF, V: RTF>(m: Seq<(K, V)>, t: Seq<u8>)
    requires pok(m), pairs_inv(m), cenc(0xc1, 0xd1, 2 * m.len(), pflat(m)).len() <= u32::MAX,
    ensures ({ let e = cenc(0xc1, 0xd1, 2 * m.len(), pflat(m)); let s = e + t; e.len() >= 1 && s[0] == e[0] && (e[0] == 0xc1 || e[0] == 0xd1)
        && map_rest::<K, V>(s.skip(1), s[0]) == Some(t) && forall|x: Seq<(K, V)>| #[trigger] map_val::<K, V>(s.skip(1), s[0], x) ==> psame(m, x) }),
{
    reveal(map_rest); reveal(map_val);
    let b = pflat(m);
    let e = cenc(0xc1, 0xd1, 2 * m.len(), b); let s = e + t;
    assert(b.len() + 3 <= e.len()) by { reveal(cenc); be32_len((b.len() + 4) as u32); be32_len((2 * m.len()) as u32); }
    prest_rt(m, m.len()); assert(m.take(m.len() as int) =~= m);
    cenc_rt(0xc1, 0xd1, 2 * m.len(), b, t);
    assert((2 * m.len()) / 2 == m.len());
    assert forall|x: Seq<(K, V)>| #[trigger] map_val::<K, V>(s.skip(1), s[0], x) implies psame(m, x) by { pval_rt(m, x); }
}
''')
rtf('Vec<T>', 'asame_all(a@, b@)', 'aok_all(v@)', 'vec_rt(v, t); assert(v.inv() == vec_inv(v@));', g='<T: RTA>', el='false')
rtf('Multiple<T>', 'if a.0@.len() == 1 { b.0@.len() == 1 && T::same(a.0@[0], b.0@[0]) } else { asame_all(a.0@, b.0@) }',
    'if v.0@.len() == 1 { T::ok(v.0@[0]) && T::el(v.0@[0]) } else { aok_all(v.0@) }', '''reveal(mul_enc); reveal(mul_inv); reveal(mul_rest); reveal(mul_val);
        assert(v.0.inv() == vec_inv(v.0@));
        if v.0@.len() == 1 { T::rtf(v.0@[0], t); cut(v.enc(), t); } else { vec_rt(v.0, t);
            let (s, fmt) = ((v.enc() + t).skip(1), v.enc()[0]);
            assert(Vec::<T>::drest(s, fmt) == vec_rest::<T>(s, fmt));
            assert forall|x: Vec<T>| #[trigger] Vec::<T>::dval(s, fmt, x) implies asame_all(v.0@, x@) by { assert(vec_val::<T>(s, fmt, x@)); } }''',
    nn='v.0@.len() == 1 ==> T::nn(v.0@[0])', el='v.0@.len() == 1', g='<T: RTF + RTA + ArrayDecode>')
rtf('HashMap<K, V>', 'psame(a.items(), b.log())', 'pok(v.items())', 'map_rt(v.items(), t); assert(v.inv() == pairs_inv(v.items()));', g='<K: RTF, V: RTF>', key='HashMap<K,V,S>')
rta('HashMap<K, V>', 'psame(a.items(), b.log())', 'pok(v.items())', '''reveal(map_rest); reveal(map_val);
        let (m, b) = (v.items(), pflat(v.items()));
        assert(v.ainv() == pairs_inv(m));
        be32_len((b.len() + 4) as u32); be32_len((2 * m.len()) as u32);
        prest_rt(m, m.len()); assert(m.take(m.len() as int) =~= m);
        acenc_rt(2 * m.len(), b, t);
        assert((2 * m.len()) / 2 == m.len());
        assert forall|x: Seq<(K, V)>| #[trigger] map_val::<K, V>(v.aenc() + t, 0xd1, x) implies psame(m, x) by { pval_rt(m, x); }''', g='<K: RTF, V: RTF>', key='HashMap<K,V,S>')
def flats(f, step, ety, e, pre):
    w(f'''pub proof fn {f}_pre(s: Seq<{ety}>, i: int)
    requires 0 <= i <= s.len(),
    ensures {f}(s.take(i)).len() <= {f}(s).len(), {f}(s).take({f}(s.take(i)).len() as int) == {f}(s.take(i)),
    decreases s.len(),
{{
    if i == s.len() {{
        assert(s.take(i) =~= s);
        assert({f}(s).take({f}(s).len() as int) =~= {f}(s));
    }} else {{
        reveal(vflat); reveal(vpflat); reveal(venc);
        {f}_pre(s.drop_last(), i);
        assert(s.drop_last().take(i) =~= s.take(i));
        let n = {f}(s.take(i)).len() as int;
        assert({f}(s).take(n) =~= {f}(s.drop_last()).take(n));
    }}
}}
pub proof fn {f}_at(s: Seq<{ety}>, i: int)
    requires 0 <= i < s.len(),
    ensures {f}(s.take(i)).len() + ({e}).len() == {f}(s.take(i + 1)).len() <= {f}(s).len(),
        {f}(s).skip({f}(s.take(i)).len() as int) == {e} + {f}(s).skip({f}(s.take(i + 1)).len() as int),
{{
    {f}_pre(s, i); {f}_pre(s, i + 1); {f}_step(s, i);
    let (b, e, n, m) = ({f}(s), {e}, {f}(s.take(i)).len() as int, {f}(s.take(i + 1)).len() as int);
    assert(b.take(m) == b.take(n) + e);
    assert(b =~= b.take(m) + b.skip(m));
    assert(b.skip(n) =~= e + b.skip(m));
}}''')
flats('vflat', 1, 'Variant', 'venc(s[i])', '')
flats('vpflat', 2, '(Variant, Variant)', '(venc(s[i].0) + venc(s[i].1))', '')
w('''
// ------------------------------------------------------------------ variants
/// what `b` is when `a` is encoded and decoded: a symbol known at compile time comes back as a symbol, a time point
/// is cut to milliseconds; everything else is the same
pub open spec fn vsame(a: Variant, b: Variant) -> bool
    decreases a,
{
    match (a, b) {
        (Variant::Null, Variant::Null) => true,
        (Variant::Boolean(x), Variant::Boolean(y)) => x == y,
        (Variant::Ubyte(x), Variant::Ubyte(y)) => x == y,
        (Variant::Ushort(x), Variant::Ushort(y)) => x == y,
        (Variant::Uint(x), Variant::Uint(y)) => x == y,
        (Variant::Ulong(x), Variant::Ulong(y)) => x == y,
        (Variant::Byte(x), Variant::Byte(y)) => x == y,
        (Variant::Short(x), Variant::Short(y)) => x == y,
        (Variant::Int(x), Variant::Int(y)) => x == y,
        (Variant::Long(x), Variant::Long(y)) => x == y,
        (Variant::Float(x), Variant::Float(y)) => x.0 == y.0,
        (Variant::Double(x), Variant::Double(y)) => x.0 == y.0,
        (Variant::Char(x), Variant::Char(y)) => x == y,
        (Variant::Timestamp(x), Variant::Timestamp(y)) => ts_same(x, y),
        (Variant::Uuid(x), Variant::Uuid(y)) => x@ == y@,
        (Variant::Binary(x), Variant::Binary(y)) => x@ == y@,
        (Variant::String(x), Variant::String(y)) => x@ == y@,
        (Variant::Symbol(x), Variant::Symbol(y)) => x@ == y@,
        (Variant::StaticSymbol(x), Variant::Symbol(y)) => x.0@ == y@,
        (Variant::List(x), Variant::List(y)) => x.0@.len() == y.0@.len() && forall|i: int| 0 <= i < x.0@.len() ==> vsame(x.0@[i], #[trigger] y.0@[i]),
        (Variant::Map(x), Variant::Map(y)) => x.map.items().len() == y.map.log().len()
            && forall|i: int| 0 <= i < x.map.items().len() ==> vsame(x.map.items()[i].0, (#[trigger] y.map.log()[i]).0) && vsame(x.map.items()[i].1, y.map.log()[i].1),
        (Variant::Described(x), Variant::Described(y)) => descr_same(x.0, y.0) && vsame(*x.1, *y.1),
        _ => false,
    }
}
/// every time point inside can be represented after the cut
pub open spec fn vok(v: Variant) -> bool
    decreases v,
{
    match v {
        Variant::Timestamp(x) => secs_ok(x.millis() / 1000),
        Variant::List(x) => forall|i: int| 0 <= i < x.0@.len() ==> vok(#[trigger] x.0@[i]),
        Variant::Map(x) => forall|i: int| 0 <= i < x.map.items().len() ==> vok((#[trigger] x.map.items()[i]).0) && vok(x.map.items()[i].1),
        Variant::Described(x) => vok(*x.1),
        _ => true,
    }
}
pub open spec fn lok(s: Seq<Variant>) -> bool { forall|i: int| 0 <= i < s.len() ==> vok(#[trigger] s[i]) }
pub open spec fn mok(s: Seq<(Variant, Variant)>) -> bool { forall|i: int| 0 <= i < s.len() ==> vok((#[trigger] s[i]).0) && vok(s[i].1) }
pub open spec fn lsame(a: Seq<Variant>, b: Seq<Variant>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> vsame(a[i], #[trigger] b[i]) }
pub open spec fn msame(a: Seq<(Variant, Variant)>, b: Seq<(Variant, Variant)>) -> bool {
    a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> vsame(a[i].0, (#[trigger] b[i]).0) && vsame(a[i].1, b[i].1)
}
/// one item: what `vrest`/`vval` say about the bytes of a variant
pub open spec fn vgood(v: Variant, t: Seq<u8>) -> bool {
    let e = venc(v); let s = e + t;
    e.len() >= 1 && s[0] == e[0] && vrest(s.skip(1), s[0]) == Some(t) && (forall|x: Variant| #[trigger] vval(s.skip(1), s[0], x) ==> vsame(v, x))
        && e[0] != 0xe0 && e[0] != 0xf0 && (!(v is Null) ==> e[0] != 0x40)
}
pub proof fn sym_len(c: Seq<char>)
    ensures utf8_enc(c).len() <= sym_enc(c).len(), utf8_enc(c).len() <= str_enc(c).len(),
{ reveal(sym_enc); reveal(str_enc); reveal(venc_bytes); }
pub proof fn variant_rt(v: Variant, t: Seq<u8>)
    requires vok(v), venc(v).len() <= u32::MAX,
    ensures vgood(v, t),
    decreases v, 0nat,
{
    reveal(venc); reveal(vflat); reveal(vpflat); reveal(vrest); reveal(lrest); reveal(mrest); reveal(vitems); reveal(vval); reveal(lval); reveal(mval); reveal(ivals); reveal(pvals); reveal(ival); reveal(fixed);
    let e = venc(v); let s = e + t;
    match v {
        Variant::Null => { tail1(0x40, b1(0), t); assert(vgood(v, t)); }
        Variant::Boolean(x) => { bool_rt(x, t); assert(vgood(v, t)); }
        Variant::Ubyte(x) => { tail1(0x50, b1(x), t); cut(b1(x), t); assert(vgood(v, t)); }
        Variant::Ushort(x) => { tail1(0x60, be16(x), t); be16_len(x); rd_be16(x, t); cut(be16(x), t); assert(vgood(v, t)); }
        Variant::Uint(x) => { u32_rt(x, t); assert(vgood(v, t)); }
        Variant::Ulong(x) => { u64_rt(x, t); assert(vgood(v, t)); }
        Variant::Byte(x) => { tail1(0x51, b1(x as u8), t); cut(b1(x as u8), t); u8_i8(x); assert(vgood(v, t)); }
        Variant::Short(x) => { let y = x as u16; tail1(0x61, be16(y), t); be16_len(y); rd_be16(y, t); cut(be16(y), t); u16_i16(x); assert(vgood(v, t)); }
        Variant::Int(x) => { i32_rt(x, t); assert(vgood(v, t)); }
        Variant::Long(x) => { i64_rt(x, t); assert(vgood(v, t)); }
        Variant::Float(f) => { let y = f32_bits(f.0); tail1(0x72, be32(y), t); be32_len(y); rd_be32(y, t); cut(be32(y), t);
            assert forall|x: f32| (#[trigger] f32_bits(x)) == f32_bits(f.0) implies x == f.0 by { f32_bits_inj(x, f.0); } }
        Variant::Double(f) => { let y = f64_bits(f.0); tail1(0x82, be64(y), t); be64_len(y); rd_be64(y, t); cut(be64(y), t);
            assert forall|x: f64| (#[trigger] f64_bits(x)) == f64_bits(f.0) implies x == f.0 by { f64_bits_inj(x, f.0); } }
        Variant::Char(c) => { let y = c as u32; tail1(0x73, be32(y), t); be32_len(y); rd_be32(y, t); cut(be32(y), t); reveal(char_rest); assert(vgood(v, t)); }
        Variant::Timestamp(d) => { ts_rt(d, t); tail1(0x83, ts_enc(d), t); assert(vgood(v, t)); }
        Variant::Uuid(u) => { tail1(0x98, u@, t); uuid_len(u); cut(u@, t); assert(vgood(v, t)); }
        Variant::Binary(b) => { reveal(venc_bytes); reveal(vrest_of); venc_rt(0xa0, 0xb0, b@, t); assert(vgood(v, t)); }
        Variant::String(c) => { sym_len(c@); reveal(str_enc); str_rt(0xa1, 0xb1, c@, t); assert(vgood(v, t)); }
        Variant::Symbol(c) => { sym_len(c@); reveal(sym_enc); str_rt(0xa3, 0xb3, c@, t); assert(vgood(v, t)); }
        Variant::StaticSymbol(c) => { sym_len(c.0@); reveal(sym_enc); str_rt(0xa3, 0xb3, c.0@, t); assert(vgood(v, t)); }
        Variant::List(l) => {
            list_rt(l.0@, t);
            assert(vrest(s.skip(1), s[0]) == Some(t));
            assert forall|x: Variant| #[trigger] vval(s.skip(1), s[0], x) implies vsame(v, x) by {
                match x { Variant::List(y) => { assert(lval(s.skip(1), s[0], y.0@)); assert(lsame(l.0@, y.0@)); } _ => {} }
            }
            assert(vgood(v, t)); }
        Variant::Map(m) => {
            vmap_rt(m.map.items(), t);
            assert(vrest(s.skip(1), s[0]) == Some(t));
            assert forall|x: Variant| #[trigger] vval(s.skip(1), s[0], x) implies vsame(v, x) by {
                match x { Variant::Map(y) => { assert(mval(s.skip(1), s[0], y.map.log())); assert(msame(m.map.items(), y.map.log())); } _ => {} }
            }
            assert(vgood(v, t)); }
        Variant::Described(d) => {
            let tt = venc(*d.1) + t;
            sym_descr(d.0); 
            descr_rt(d.0, tt); app_assoc(descr_enc(d.0), venc(*d.1), t);
            assert(s == descr_enc(d.0) + tt);
            variant_rt(*d.1, t);
            cut(e, t); cut(venc(*d.1), t);
            assert(e[0] == 0 && s[0] == 0);
            assert(vrest(s.skip(1), s[0]) == Some(t));
            assert forall|x: Variant| #[trigger] vval(s.skip(1), s[0], x) implies vsame(v, x) by {
                match x { Variant::Described(y) => { assert(vval(tt.skip(1), tt[0], *y.1)); assert(descr_same(d.0, y.0)); } _ => {} }
            }
            assert(vgood(v, t));
        }
    }
}
pub proof fn sym_descr(d: Descriptor)
    ensures match d { Descriptor::Ulong(_) => true, Descriptor::Symbol(s) => utf8_enc(s@).len() <= descr_enc(d).len() },
{ reveal(descr_enc); match d { Descriptor::Symbol(s) => { sym_len(s@); } _ => {} } }
pub proof fn list_rt(l: Seq<Variant>, t: Seq<u8>)
    requires lok(l), cenc(0xc0, 0xd0, l.len(), vflat(l)).len() <= u32::MAX,
    ensures ({ let e = cenc(0xc0, 0xd0, l.len(), vflat(l)); let s = e + t; e.len() >= 1 && s[0] == e[0] && (s[0] == 0xc0 || s[0] == 0xd0)
        && lrest(s.skip(1), s[0]) == Some(t) && (forall|x: Seq<Variant>| #[trigger] lval(s.skip(1), s[0], x) ==> lsame(l, x)) }),
    decreases l, l.len() + 2,
{
    reveal(vrest); reveal(lrest); reveal(mrest); reveal(vitems); reveal(vval); reveal(lval); reveal(mval); reveal(ivals); reveal(pvals); reveal(ival); reveal(lcomp); reveal(lhead); reveal(comp);
    let b = vflat(l); let e = cenc(0xc0, 0xd0, l.len(), b); let s = e + t;
    vflat_len(l);
    cenc_rt(0xc0, 0xd0, l.len(), b, t);
    vitems_rt(l, l.len());
    assert(lcomp(s.skip(1), s[0]) == Some((l.len(), b, t)));
    assert forall|x: Seq<Variant>| #[trigger] lval(s.skip(1), s[0], x) implies lsame(l, x) by { if l.len() > 0 { ivals_rt(l, x); } }
}
pub proof fn vitems_rt(l: Seq<Variant>, i: nat)
    requires i <= l.len(), lok(l), vflat(l).len() <= u32::MAX,
    ensures vitems(vflat(l), i) == Some(vflat(l).skip(vflat(l.take(i as int)).len() as int)), vflat(l.take(i as int)).len() <= vflat(l).len(),
    decreases l, i,
{
    reveal(vrest); reveal(lrest); reveal(mrest); reveal(vitems); reveal(vval); reveal(lval); reveal(mval); reveal(ivals); reveal(pvals); reveal(ival);
    if i == 0 {
        vflat_zero(l, 0); assert(vflat(l).skip(0) =~= vflat(l));
    } else {
        let j = (i - 1) as nat;
        vitems_rt(l, j);
        vflat_at(l, j as int);
        variant_rt(l[j as int], vflat(l).skip(vflat(l.take(i as int)).len() as int));
    }
}
pub proof fn ivals_rt(l: Seq<Variant>, x: Seq<Variant>)
    requires lok(l), vflat(l).len() <= u32::MAX, x.len() == l.len(), ivals(vflat(l), x),
    ensures lsame(l, x),
    decreases l, l.len() + 1,
{
    reveal(vrest); reveal(lrest); reveal(mrest); reveal(vitems); reveal(vval); reveal(lval); reveal(mval); reveal(ivals); reveal(pvals); reveal(ival);
    assert forall|i: int| 0 <= i < l.len() implies vsame(l[i], #[trigger] x[i]) by {
        vitems_rt(l, i as nat); vflat_at(l, i);
        variant_rt(l[i], vflat(l).skip(vflat(l.take(i + 1)).len() as int));
        let s = venc(l[i]) + vflat(l).skip(vflat(l.take(i + 1)).len() as int);
        assert(ival(vflat(l), i as nat, x[i]));
        assert(vitems(vflat(l), i as nat) == Some(s));
        assert(vval(s.skip(1), s[0], x[i]));
    }
}
pub proof fn vmap_rt(m: Seq<(Variant, Variant)>, t: Seq<u8>)
    requires mok(m), cenc(0xc1, 0xd1, 2 * m.len(), vpflat(m)).len() <= u32::MAX,
    ensures ({ let e = cenc(0xc1, 0xd1, 2 * m.len(), vpflat(m)); let s = e + t; e.len() >= 1 && s[0] == e[0] && (s[0] == 0xc1 || s[0] == 0xd1)
        && mrest(s.skip(1), s[0]) == Some(t) && (forall|x: Seq<(Variant, Variant)>| #[trigger] mval(s.skip(1), s[0], x) ==> msame(m, x)) }),
    decreases m, m.len() + 2,
{
    reveal(vrest); reveal(lrest); reveal(mrest); reveal(vitems); reveal(vval); reveal(lval); reveal(mval); reveal(ivals); reveal(pvals); reveal(ival);
    let b = vpflat(m); let e = cenc(0xc1, 0xd1, 2 * m.len(), b); let s = e + t;
    vpflat_len(m);
    cenc_rt(0xc1, 0xd1, 2 * m.len(), b, t);
    vpitems_rt(m, m.len());
    assert((2 * m.len()) / 2 == m.len());
    assert(((2 * m.len()) / 2) * 2 == 2 * m.len());
    assert forall|x: Seq<(Variant, Variant)>| #[trigger] mval(s.skip(1), s[0], x) implies msame(m, x) by { pvals_rt(m, x); }
}
/// after `i` pairs, and after the key of the next
pub proof fn vpitems_rt(m: Seq<(Variant, Variant)>, i: nat)
    requires i <= m.len(), mok(m), vpflat(m).len() <= u32::MAX,
    ensures vitems(vpflat(m), 2 * i) == Some(vpflat(m).skip(vpflat(m.take(i as int)).len() as int)), vpflat(m.take(i as int)).len() <= vpflat(m).len(),
        i < m.len() ==> vitems(vpflat(m), 2 * i + 1) == Some(venc(m[i as int].1) + vpflat(m).skip(vpflat(m.take(i as int + 1)).len() as int)),
        i < m.len() ==> vgood(m[i as int].0, venc(m[i as int].1) + vpflat(m).skip(vpflat(m.take(i as int + 1)).len() as int)),
        i < m.len() ==> vgood(m[i as int].1, vpflat(m).skip(vpflat(m.take(i as int + 1)).len() as int)),
    decreases m, i,
{
    reveal(vrest); reveal(lrest); reveal(mrest); reveal(vitems); reveal(vval); reveal(lval); reveal(mval); reveal(ivals); reveal(pvals); reveal(ival);
    let b = vpflat(m);
    if i == 0 {
        vpflat_zero(m, 0); assert(b.skip(0) =~= b);
    } else {
        let j = (i - 1) as nat;
        vpitems_rt(m, j);
        vpflat_at(m, j as int);
        assert((2 * i - 1) as nat == 2 * j + 1);
    }
    if i < m.len() {
        let k = i as int;
        let r = b.skip(vpflat(m.take(k + 1)).len() as int);
        vpflat_at(m, k); app_assoc(venc(m[k].0), venc(m[k].1), r);
        variant_rt(m[k].0, venc(m[k].1) + r);
        variant_rt(m[k].1, r);
        assert((2 * i + 1 - 1) as nat == 2 * i);
    }
}
pub proof fn pvals_rt(m: Seq<(Variant, Variant)>, x: Seq<(Variant, Variant)>)
    requires mok(m), vpflat(m).len() <= u32::MAX, x.len() == m.len(), pvals(vpflat(m), x),
    ensures msame(m, x),
    decreases m, m.len() + 1,
{
    reveal(vrest); reveal(lrest); reveal(mrest); reveal(vitems); reveal(vval); reveal(lval); reveal(mval); reveal(ivals); reveal(pvals); reveal(ival);
    assert forall|i: int| 0 <= i < m.len() implies vsame(m[i].0, (#[trigger] x[i]).0) && vsame(m[i].1, x[i].1) by {
        vpitems_rt(m, i as nat); vpflat_at(m, i);
        let r = vpflat(m).skip(vpflat(m.take(i + 1)).len() as int);
        app_assoc(venc(m[i].0), venc(m[i].1), r);
        let s0 = venc(m[i].0) + (venc(m[i].1) + r); let s1 = venc(m[i].1) + r;
        assert(vitems(vpflat(m), (2 * i) as nat) == Some(s0) && vitems(vpflat(m), (2 * i + 1) as nat) == Some(s1));
        assert(ival(vpflat(m), (2 * i) as nat, x[i].0) && ival(vpflat(m), (2 * i + 1) as nat, x[i].1));
        assert(vval(s0.skip(1), s0[0], x[i].0) && vval(s1.skip(1), s1[0], x[i].1));
    }
}
''')
rtf('Variant', 'vsame(a, b)', 'vok(v)', 'variant_rt(v, t); assert(v.enc() == venc(v));', nn='!(v is Null)')
rtf('List', 'lsame(a.0@, b.0@)', 'lok(v.0@)', 'list_rt(v.0@, t); assert(v.enc() == cenc(0xc0, 0xd0, v.0@.len(), vflat(v.0@)));')
rtf('HashMapVV', 'msame(a.items(), b.log())', 'mok(v.items())', 'vmap_rt(v.items(), t); assert(v.enc() == cenc(0xc1, 0xd1, 2 * v.items().len(), vpflat(v.items())));')
rtf('VecVariantMap', 'psame(a.0@, b.0@)', 'pok(v.0@)', '''assert(pairs_inv(v.0@)) by { reveal(pairs_inv); }
        map_rt(v.0@, t); assert(v.enc() == cenc(0xc1, 0xd1, 2 * v.0@.len(), pflat(v.0@)));''')
w('''%%
%root rtp
use vstd::prelude::*;
pub use crate::rt::*;
pub use crate::vxp::*;
pub use crate::framing::{AmqpFrame, SaslFrame};
// ------------------------------------------------------------------ fields of described lists
pub proof fn f_req<T: RTF>(c: nat, i: nat, v: T, t: Seq<u8>)
    requires c > i, T::ok(v), v.inv(), v.enc().len() <= u32::MAX,
    ensures v.enc().len() >= 1, freq::<T>(c, i, Some(v.enc() + t)) == Some(t),
        forall|x: T| #[trigger] vreq::<T>(Some(v.enc() + t), x) ==> T::same(v, x),
{ reveal(freq); reveal(vreq); rt1::<T>(v, t); }
pub proof fn f_opt<T: RTF>(c: nat, i: nat, v: Option<T>, t: Seq<u8>)
    requires c > i, Option::<T>::ok(v), v.inv(), v.enc().len() <= u32::MAX,
    ensures v.enc().len() >= 1, fopt::<Option<T>>(c, i, Some(v.enc() + t)) == Some(t),
        forall|x: Option<T>| #[trigger] vopt::<T>(c, i, Some(v.enc() + t), x) ==> Option::<T>::same(v, x),
{ reveal(fopt); reveal(vopt); rt1::<Option<T>>(v, t); }
pub proof fn f_def<T: RTF>(c: nat, i: nat, v: T, t: Seq<u8>, d: T)
    requires c > i, T::ok(v), T::nn(v), v.inv(), v.enc().len() <= u32::MAX,
    ensures v.enc().len() >= 1, fopt::<Option<T>>(c, i, Some(v.enc() + t)) == Some(t),
        forall|x: T| #[trigger] vdef::<T>(c, i, Some(v.enc() + t), x, d) ==> T::same(v, x),
{
    reveal(fopt); reveal(vdef); reveal(opt_rest); reveal(rest1);
    Option::<T>::one(); T::rtf(v, t); cut(v.enc(), t);
    let s = v.enc() + t;
    assert(<Option<T> as Decode>::drest1(s) == rest1::<Option<T>>(s));
    assert(<Option<T> as DecodeFormatted>::drest(s.skip(1), s[0]) == opt_rest::<T>(s.skip(1), s[0]));
}
/// the descriptor and the list header
pub proof fn perf_rt(code: u64, n: nat, body: Seq<u8>, t: Seq<u8>)
    requires n <= body.len(), perf(code, n, body).len() <= u32::MAX,
    ensures ({ let e = perf(code, n, body); let s = e + t; let r = cenc(0xc0, 0xd0, n, body) + t;
        e.len() >= body.len() + 4 && e[0] == 0 && s[0] == 0 && s.len() > 0 && descr_rest1(s.skip(1)) == Some(r) && code_at(s.skip(1), code) && plist(r) == Some((n, body, t)) }),
{
    reveal(perf); reveal(descr_rest1); reveal(descr_rest); reveal(plist); reveal(lcomp); reveal(comp); reveal(lhead);
    let l = cenc(0xc0, 0xd0, n, body); let e = perf(code, n, body);
    u64_rt(code, l + t);
    assert(perf(code, n, body) + t =~= b1(0) + (u64_enc(code) + (l + t)));
    assert((perf(code, n, body) + t).skip(1) =~= u64_enc(code) + (l + t));
    assert(e.len() == 1 + u64_enc(code).len() + l.len());
    cenc_rt(0xc0, 0xd0, n, body, t);
    cut(e, t);
}
pub proof fn sect_rt(code: u64, body: Seq<u8>, t: Seq<u8>)
    requires sect(code, body).len() <= u32::MAX,
    ensures ({ let e = sect(code, body); let s = e + t;
        e.len() >= body.len() + 2 && e[0] == 0 && s[0] == 0 && s.len() > 0 && descr_rest1(s.skip(1)) == Some(body + t) && code_at(s.skip(1), code) }),
{
    reveal(sect); reveal(descr_rest1); reveal(descr_rest);
    let e = sect(code, body);
    u64_rt(code, body + t);
    assert(e + t =~= b1(0) + (u64_enc(code) + (body + t)));
    assert((e + t).skip(1) =~= u64_enc(code) + (body + t));
    assert(e.len() == 1 + u64_enc(code).len() + body.len());
    cut(e, t);
}
/// a numeric descriptor
pub open spec fn code_at(s: Seq<u8>, code: u64) -> bool { (s[0] == 0x80 || s[0] == 0x53 || s[0] == 0x44) && u64_val(s.skip(1), s[0]) == code }
pub proof fn code_is(s: Seq<u8>, code: u64)
    requires code_at(s, code),
    ensures forall|c: u64, n: Seq<char>| #[trigger] is_descr(s, c, n) == (c == code),
{ reveal(is_descr); }
pub proof fn perf_len(code: u64, n: nat, body: Seq<u8>)
    ensures perf(code, n, body).len() >= body.len() + 4,
{ reveal(perf); reveal(cenc); be32_len((body.len() + 4) as u32); be32_len(n as u32); u64_rt(code, body); }
''')
from perf import T, camel, snake, rtype, rtype_name, base, U, PRIM
from spec import closure, load, BASE
OP = '#[verifier::opaque]\n'
def lit(x): return f'"{x}"@'
def rtfp(ty, same, ok, body, rest, val, rev='', nn='true', el='true'):
    w(f'''impl RTF for {ty} {{
    open spec fn same(a: Self, b: Self) -> bool {{ {same} }}
    open spec fn ok(v: Self) -> bool {{ {ok} }}
    open spec fn nn(v: Self) -> bool {{ {nn} }}
    open spec fn el(v: Self) -> bool {{ {el} }}
    proof fn rtf(v: Self, t: Seq<u8>) {{
        {body}
        let (s, fmt) = ((v.enc() + t).skip(1), v.enc()[0]);
        assert(Self::drest(s, fmt) == ({rest}));
        assert forall|x: Self| #[trigger] Self::dval(s, fmt, x) == ({val}) by {{}}
    }}
{ONE}}}''')
for t in T:
    n, C, f = t['name'], camel(t['name']), snake(t['name'])
    if t['class'] == 'restricted' and t.get('choice'):
        b = base(t['source'])
        cs = t['choice']
        w(f'pub proof fn {f}_inj(a: {C}, b: {C})\n    ensures {f}_code(a) == {f}_code(b) ==> a == b, {f}_known({f}_code(a)),\n{{\n    reveal({f}_code); reveal({f}_known);')
        if b == 'symbol':
            for c, v in cs: w(f'    reveal_strlit("{v}"); assert({lit(v)}.len() == {len(v)});')
            for i, (c, v) in enumerate(cs):
                for c2, v2 in cs[:i]:
                    if len(v) == len(v2):
                        k = [k for k in range(len(v)) if v[k] != v2[k]][0]
                        w(f'    assert({lit(v)}[{k}] != {lit(v2)}[{k}]);')
        w('}')
        rev = f'reveal({f}_enc); reveal({f}_drest); reveal({f}_dval);'
        body = {'boolean': f'bool_rt({f}_code(v), t);',
                'ubyte': f'u8::rtf({f}_code(v), t); assert(v.enc() == {f}_code(v).enc()); reveal(fix_rest); assert(u8::drest((v.enc() + t).skip(1), v.enc()[0]) == fix_rest(0x50, 1, (v.enc() + t).skip(1), v.enc()[0])); assert(u8::dval((v.enc() + t).skip(1), v.enc()[0], (v.enc() + t).skip(1)[0]));',
                'uint': f'u32_rt({f}_code(v), t); assert(v.enc() == u32_enc({f}_code(v)));',
                'symbol': f'sym_len({f}_code(v)); reveal(sym_enc); reveal(srest); str_rt(0xa3, 0xb3, {f}_code(v), t); reveal(sval);'}[b]
        rtfp(C, 'a == b', 'true', f'{rev} {f}_inj(v, v); {body}\n        assert forall|x: Self| #[trigger] {f}_code(x) == {f}_code(v) implies x == v by {{ {f}_inj(x, v); }}', f'{f}_drest(s, fmt)', f'{f}_dval(s, fmt, x)')
    elif t['class'] == 'composite':
        xs = []
        for q in t.get('field') or []:
            ty = rtype(q)
            if q.get('multiple'): ty = f'Multiple<{ty}>'
            xs.append((snake(q['name']), ty, 'req' if q.get('mandatory') else 'def' if 'default' in q else 'opt', q))
        t['xs'] = xs
        N = len(xs)
        tail = n == 'transfer'
        sm = ' && '.join((f'Option::<{ty}>' if m == 'opt' else f'<{ty} as RTF>') + f'::same(a.{a}, b.{a})' for a, ty, m, q in xs) or 'true'
        ok = ' && '.join({'opt': f'Option::<{ty}>::ok(v.{a})', 'req': f'<{ty} as RTF>::ok(v.{a})', 'def': f'<{ty} as RTF>::ok(v.{a}) && <{ty} as RTF>::nn(v.{a})'}[m] for a, ty, m, q in xs) or 'true'
        if tail: sm += ' && match b.body { None => own(a.body).len() == 0, Some(TransferBody::Data(d)) => own(a.body).len() > 0 && d@ == own(a.body), _ => false }'
        w(f'{OP}pub open spec fn {f}_same(a: {C}, b: {C}) -> bool {{ {sm} }}')
        w(f'{OP}pub open spec fn {f}_ok(v: {C}) -> bool {{ {ok} }}')
        w(f'''pub proof fn {f}_rt(v: {C}, t: Seq<u8>)
    requires {f}_ok(v), {f}_inv(v), {f}_enc(v).len() <= u32::MAX,{' t.len() == 0,' if tail else ''}
    ensures ({{ let e = {f}_enc(v); let s = e + t; let r = descr_rest1(s.skip(1));
        e.len() >= 4 && e[0] == 0 && s[0] == 0 && r is Some && code_at(s.skip(1), {t['code']}) && {f}_rest(r.unwrap()) == Some(t)
        && forall|x: {C}| #[trigger] {f}_val(r.unwrap(), x) ==> {f}_same(v, x) }}),
{{
    reveal({f}_ok); reveal({f}_inv); reveal({f}_enc); reveal({f}_rest); reveal({f}_val); reveal({f}_same);
    let b = {f}_fields(v); let n = {N}nat;
    perf_len({t['code']}, n, b);''')
        for i in reversed(range(N)):
            w(f'    let z{i} = v.{xs[i][0]}.enc()' + (f' + z{i+1};' if i < N - 1 else ';'))
        if N: w('    assert(b == z0);')
        for i, (a, ty, m, q) in enumerate(xs):
            z = f'z{i+1}' if i < N - 1 else 'Seq::empty()'
            d = ''
            if m == 'def':
                dv = q['default']
                d = ', ' + (dv if re.match(r'^(\d+|true|false)$', dv) else f'{ty}::{camel(dv)}')
            if i == N - 1: w(f'    app_nil(v.{a}.enc());')
            w(f'    f_{m}(n, {i}, v.{a}, {z}{d});\n    assert({f}_r{i}(n, b) == Some({z}));')
        if tail:
            w(f'''    let p = perf({t['code']}, n, b); let o = own(v.body);
    perf_rt({t['code']}, n, b, o); app_nil(p); app_nil(o); assert((p + o) + t =~= p + o); assert(o.skip(o.len() as int) =~= t);
}}''')
            continue
        w(f'''    perf_rt({t['code']}, n, b, t);
}}''')
        rtfp(C, f'{f}_same(a, b)', f'{f}_ok(v)', f'''{f}_rt(v, t); code_is((v.enc() + t).skip(1), {t['code']}); reveal({f}_drest); reveal({f}_dval);''', f'{f}_drest(s, fmt)', f'{f}_dval(s, fmt, x)')
# ------------------------------------------------------------------ hand-written types of protocol
GR = [('AmqpError', 'amqp-error'), ('ConnectionError', 'connection-error'), ('SessionError', 'session-error'), ('LinkError', 'link-error')]
by = {t['name']: t for t in T}
w('pub proof fn conditions_apart()\n    ensures')
prs = [(v1, v2) for i, (_, n1) in enumerate(GR) for _, n2 in GR[:i] for _, v1 in by[n1]['choice'] for _, v2 in by[n2]['choice']]
w(',\n'.join(f'        {lit(a)} != {lit(b)}' for a, b in prs) + ',\n{')
for _, n in GR:
    for _, v in by[n]['choice']: w(f'    reveal_strlit("{v}"); assert({lit(v)}.len() == {len(v)});')
for a, b in prs:
    if len(a) == len(b):
        k = [k for k in range(len(a)) if a[k] != b[k]][0]
        w(f'    assert({lit(a)}[{k}] != {lit(b)}[{k}]);')
w('}')
CODES = ' '.join(f'reveal({snake(n)}_{x});' for _, n in GR for x in ('code', 'known'))
w(f'''pub open spec fn condition_same(a: ErrorCondition, b: ErrorCondition) -> bool {{
    match (a, b) {{
        {' '.join(f'(ErrorCondition::{C}(x), ErrorCondition::{C}(y)) => x == y,' for C, _ in GR)}
        (ErrorCondition::Custom(x), ErrorCondition::Custom(y)) => x@ == y@,
        _ => false,
    }}
}}
pub proof fn condition_inj(a: ErrorCondition, b: ErrorCondition)
    requires condition_ok(a), condition_ok(b), condition_str(a) == condition_str(b),
    ensures condition_same(a, b),
{{
    conditions_apart(); {CODES}
    {' '.join(f'if let ErrorCondition::{C}(x) = a {{ {snake(n)}_inj(x, x); if let ErrorCondition::{C}(y) = b {{ {snake(n)}_inj(x, y); }} }} if let ErrorCondition::{C}(y) = b {{ {snake(n)}_inj(y, y); }}' for C, n in GR)}
}}''')
rtfp('ErrorCondition', 'condition_same(a, b)', 'condition_ok(v)', f'''{' '.join(f'reveal({snake(n)}_enc);' for _, n in GR)}
        let c = condition_str(v);
        assert(v.enc() == sym_enc(c));
        sym_len(c); str_rt(0xa3, 0xb3, c, t); reveal(sym_enc);
        assert forall|x: Self| condition_str(x) == c && #[trigger] condition_ok(x) implies condition_same(v, x) by {{ condition_inj(v, x); }}''',
    'srest(0xa3, 0xb3, s, fmt)', 'sval(0xa3, 0xb3, s, fmt, condition_str(x)) && condition_ok(x)')
rtfp('DistributionMode', 'match (a, b) { (DistributionMode::Move, DistributionMode::Move) => true, (DistributionMode::Copy, DistributionMode::Copy) => true, (DistributionMode::Custom(x), DistributionMode::Custom(y)) => x@ == y@, _ => false }',
    'v is Custom ==> dist_str(v) != "move"@ && dist_str(v) != "copy"@', '''let c = dist_str(v);
        reveal_strlit("move"); reveal_strlit("copy"); assert("move"@[0] != "copy"@[0]);
        assert(v.enc() == sym_enc(c));
        sym_len(c); str_rt(0xa3, 0xb3, c, t); reveal(sym_enc);''',
    'srest(0xa3, 0xb3, s, fmt)', 'sval(0xa3, 0xb3, s, fmt, dist_str(x)) && (x is Custom ==> dist_str(x) != "move"@ && dist_str(x) != "copy"@)')
rtfp('MessageId', 'match (a, b) { (MessageId::Ulong(x), MessageId::Ulong(y)) => x == y, (MessageId::Uuid(x), MessageId::Uuid(y)) => x@ == y@, (MessageId::Binary(x), MessageId::Binary(y)) => x@ == y@, (MessageId::String(x), MessageId::String(y)) => x@ == y@, _ => false }',
    'true', '''reveal(fixed); reveal(vrest_of);
        match v {
            MessageId::Ulong(x) => { assert(v.enc() == u64_enc(x)); u64_rt(x, t); }
            MessageId::Uuid(x) => { assert(v.enc() == x.enc()); assert(x.enc() == b1(0x98) + x@); tail1(0x98, x@, t); uuid_len(x); cut(x@, t); }
            MessageId::Binary(x) => { assert(v.enc() == venc_bytes(0xa0, 0xb0, x@)); reveal(venc_bytes); venc_rt(0xa0, 0xb0, x@, t); }
            MessageId::String(x) => { assert(v.enc() == str_enc(x@)); sym_len(x@); str_rt(0xa1, 0xb1, x@, t); reveal(str_enc); reveal(srest); reveal(sval); }
        }''', '''if fmt == 0x44 || fmt == 0x53 || fmt == 0x80 { u64_rest(s, fmt) } else if fmt == 0x98 { fixed(s, 16) } else if fmt == 0xa0 || fmt == 0xb0 { vrest_of(vbytes(0xa0, 0xb0, s, fmt)) } else { srest(0xa1, 0xb1, s, fmt) }''',
    '''match x { MessageId::Ulong(x) => (fmt == 0x44 || fmt == 0x53 || fmt == 0x80) && x == u64_val(s, fmt), MessageId::Uuid(x) => fmt == 0x98 && x@ == s.take(16),
            MessageId::Binary(x) => (fmt == 0xa0 || fmt == 0xb0) && x@ == vbytes(0xa0, 0xb0, s, fmt).unwrap().0, MessageId::String(x) => (fmt == 0xa1 || fmt == 0xb1) && sval(0xa1, 0xb1, s, fmt, x@) }''')
# ------------------------------------------------------------------ unions
for C, p in U.items():
    f = snake(p)
    vs = [t for t in T if p in t.get('provides', [])]
    sm, ok, arms = [], [], []
    for t in vs:
        X, x = camel(t['name']), snake(t['name'])
        if t['class'] == 'composite':
            sm.append(f'({C}::{X}(x), {C}::{X}(y)) => {x}_same(x, y)'); ok.append(f'{C}::{X}(x) => {x}_ok(x)')
            arms.append(f'{C}::{X}(x) => {{ assert(x.enc() == {x}_enc(x)); {x}_rt(x, t); code_is(s, {t["code"]}); }}')
        else:
            ty = rtype_name(t['source'])
            sm.append(f'({C}::{X}(x), {C}::{X}(y)) => <{ty} as RTF>::same(x, y)'); ok.append(f'{C}::{X}(x) => <{ty} as RTF>::ok(x)')
            arms.append(f'''{C}::{X}(x) => {{
                sect_rt({t["code"]}, x.enc(), t); rt1::<{ty}>(x, t); code_is(s, {t["code"]});
                assert forall|y: {C}| {f}_uval(s, y) implies #[trigger] {f}_same(v, y) by {{ match y {{ {C}::{X}(z) => {{ assert(<{ty} as Decode>::dval1(x.enc() + t, z)); }} _ => {{}} }} }}
            }}''')
    if C == 'Frame': sm.append('(Frame::Empty, Frame::Empty) => true'); ok.append('Frame::Empty => true')
    w(f'{OP}pub open spec fn {f}_same(a: {C}, b: {C}) -> bool {{ match (a, b) {{ {", ".join(sm)}, _ => false }} }}')
    w(f'{OP}pub open spec fn {f}_ok(v: {C}) -> bool {{ match v {{ {", ".join(ok)} }} }}')
    if C == 'Frame':
        NL = '\n            '
        w(f'''/// a performative (a frame without body: none) is read back from exactly its own encoding
pub proof fn frame_rt(v: Frame)
    requires frame_ok(v), v.inv(), v.enc().len() <= u32::MAX,
    ensures <Frame as Decode>::drest1(v.enc()) == Some(Seq::<u8>::empty()),
        forall|x: Frame| #[trigger] <Frame as Decode>::dval1(v.enc(), x) ==> frame_same(v, x),
{{
    reveal(frame_same); reveal(frame_ok); reveal(frame_uenc); reveal(frame_uinv); reveal(frame_urest); reveal(frame_uval);
    let t = Seq::<u8>::empty();
    app_nil(v.enc());
    let s = v.enc().skip(1);
    assert(v.enc() == frame_uenc(v));
    match v {{
            {NL.join(arms)}
            Frame::Empty => {{}}
    }}
    let e = v.enc();
    assert(<Frame as Decode>::drest1(e) == (if e.len() == 0 {{ Some(e) }} else if e[0] == 0 {{ frame_urest(e.skip(1)) }} else {{ None }}));
    assert forall|x: Frame| #[trigger] <Frame as Decode>::dval1(e, x) == (if e.len() == 0 {{ x is Empty }} else {{ frame_uval(e.skip(1), x) }}) by {{}}
}}''')
        continue
    rtfp(C, f'{f}_same(a, b)', f'{f}_ok(v)', f'''reveal({f}_same); reveal({f}_ok); reveal({f}_uenc); reveal({f}_uinv); reveal({f}_urest); reveal({f}_uval);
        let s = (v.enc() + t).skip(1);
        assert(v.enc() == {f}_uenc(v));
        match v {{
            {chr(10).join('            ' + a for a in arms).lstrip()}
        }}''', f'if fmt == 0 {{ {f}_urest(s) }} else {{ None }}', f'{f}_uval(s, x)')
# ------------------------------------------------------------------ whole frames (P01, P06, P08, P09)
w('''pub proof fn frame_body_rt(ty: u8, ch: u16, body: Seq<u8>)
    requires frame_enc(ty, ch, body).len() <= u32::MAX,
    ensures ({ let e = frame_enc(ty, ch, body); let f = e.skip(4);
        e.len() == body.len() + 8 && rd32(e) == e.len() && frame_body(ty, f) == Some(body) && rd16(f.skip(2)) == ch }),
{
    reveal(frame_enc); reveal(frame_body);
    let n = (8 + body.len()) as u32; let e = frame_enc(ty, ch, body);
    be32_len(n); be16_len(ch);
    let u = b1(2) + (b1(ty) + (be16(ch) + body));
    rd_be32(n, u); cut(be32(n), u); rd_be16(ch, body);
    let f = e.skip(4);
    assert(f =~= u);
    assert(f.skip(2) =~= be16(ch) + body);
    assert(f.skip(4) =~= body);
    assert(e.len() == 4 + u.len());
}
''')
for C, ty, ch, fld, B, in (('AmqpFrame', 0, 'v.channel_id', 'performative', 'Frame'), ('SaslFrame', 1, '0u16', 'body', 'SaslFrameBody')):
    n = snake(''.join(('-' if i and c.isupper() else '') + c.lower() for i, c in enumerate(C)))
    same = f'frame_same(v.{fld}, x.{fld}) && x.channel_id == v.channel_id' if ty == 0 else f'sasl_frame_body_same(v.{fld}, x.{fld})'
    ok = f'frame_ok(v.{fld})' if ty == 0 else f'sasl_frame_body_ok(v.{fld})'
    rt = f'frame_rt(v.{fld});' if ty == 0 else f'rt1::<SaslFrameBody>(v.{fld}, Seq::empty()); app_nil(v.{fld}.enc());'
    eq = f'rd16(s.skip(2)) == x.channel_id && ' if ty == 0 else ''
    w(f'''/// a frame is read back as what was written
pub proof fn {n}_rt(v: {C})
    requires {ok}, v.inv(), v.enc().len() <= u32::MAX,
    ensures rd32(v.enc()) == v.enc().len() && v.enc().len() >= 8,
        <{C} as Decode>::drest1(v.enc().skip(4)) == Some(Seq::<u8>::empty()),
        forall|x: {C}| #[trigger] <{C} as Decode>::dval1(v.enc().skip(4), x) ==> {same},
{{
    let b = v.{fld}.enc();
    assert(v.enc() == frame_enc({ty}, {ch}, b));
    frame_body_rt({ty}, {ch}, b);
    {rt}
    let s = v.enc().skip(4);
    assert(<{C} as Decode>::drest1(s) == (match frame_body({ty}, s) {{ Some(b) => <{B} as Decode>::drest1(b), None => None }}));
    assert forall|x: {C}| #[trigger] <{C} as Decode>::dval1(s, x) == ({eq}<{B} as Decode>::dval1(frame_body({ty}, s).unwrap(), x.{fld})) by {{}}
}}
/// P08, P01: written to a stream and followed by anything, it is what the frame decoder extracts next, and the
/// value it yields is the frame that was written
pub proof fn {n}_stream(v: {C}, t: Seq<u8>, r: Result<Option<{C}>, AmqpCodecError>)
    requires {ok}, v.inv(), v.enc().len() <= u32::MAX,
    ensures ({{ let (e, st, rest) = step(DecodeState::FrameHeader, v.enc() + t);
        st is FrameHeader && rest == t && (reported::<{C}>(e, r) ==> match r {{ Ok(Some(x)) => {same}, _ => false }}) }}),
{{
    {n}_rt(v); frame_found(v.enc(), t);
}}
/// and so for any sequence of frames, arriving in any chunks
pub open spec fn {n}s_enc(vs: Seq<{C}>) -> Seq<u8>
    decreases vs.len(),
{{ if vs.len() == 0 {{ Seq::empty() }} else {{ vs[0].enc() + {n}s_enc(vs.drop_first()) }} }}
pub open spec fn {n}s_found(vs: Seq<{C}>) -> Seq<Ev>
    decreases vs.len(),
{{ if vs.len() == 0 {{ Seq::empty() }} else {{ seq![Ev::Frame(vs[0].enc().skip(4))] + {n}s_found(vs.drop_first()) }} }}
pub proof fn {n}s_run(vs: Seq<{C}>)
    requires forall|i: int| 0 <= i < vs.len() ==> ({{ let v = #[trigger] vs[i]; {ok} && v.inv() && v.enc().len() <= u32::MAX }}),
    ensures run(DecodeState::FrameHeader, {n}s_enc(vs)) == ({n}s_found(vs), DecodeState::FrameHeader, Seq::<u8>::empty()),
    decreases vs.len(),
{{
    if vs.len() > 0 {{
        let v = vs[0]; let w = vs.drop_first();
        assert({ok} && v.inv() && v.enc().len() <= u32::MAX);
        assert forall|i: int| 0 <= i < w.len() implies ({{ let v = #[trigger] w[i]; {ok} && v.inv() && v.enc().len() <= u32::MAX }}) by {{ let v = vs[i + 1]; }}
        {n}s_run(w);
        {n}_rt(v); frame_found(v.enc(), {n}s_enc(w));
    }}
}}
pub proof fn {n}s_stream(vs: Seq<{C}>, cs: Seq<Seq<u8>>)
    requires forall|i: int| 0 <= i < vs.len() ==> ({{ let v = #[trigger] vs[i]; {ok} && v.inv() && v.enc().len() <= u32::MAX }}), flat(cs) == {n}s_enc(vs),
    ensures fed(DecodeState::FrameHeader, Seq::empty(), cs) == {n}s_found(vs),
{{
    {n}s_run(vs); frames_any_partition(DecodeState::FrameHeader, Seq::empty(), cs);
    assert(Seq::<u8>::empty() + flat(cs) =~= flat(cs));
}}''')
# ------------------------------------------------------------------ messages (P11)
w('''pub open spec fn dview(d: Seq<Bytes>) -> Seq<Seq<u8>> { d.map_values(|b: Bytes| b@) }
/// data sections holding the given bytes
pub open spec fn dparts(d: Seq<Seq<u8>>) -> Seq<u8>
    decreases d.len(),
{ if d.len() == 0 { Seq::empty() } else { sect(117, venc_bytes(0xa0, 0xb0, d[0])) + dparts(d.drop_first()) } }
pub open spec fn lparts(d: Seq<List>) -> Seq<u8>
    decreases d.len(),
{ if d.len() == 0 { Seq::empty() } else { sect(118, d[0].enc()) + lparts(d.drop_first()) } }
pub open spec fn tview(d: Seq<TransferBody>) -> Seq<Seq<u8>> { d.map_values(|b: TransferBody| tb_enc(b)) }
pub proof fn parts_first<T: VxPart>(s: Seq<T>)
    requires s.len() > 0,
    ensures parts(s) == s[0].part() + parts(s.drop_first()),
    decreases s.len(),
{
    reveal(parts);
    let a = s[0].part();
    if s.len() == 1 { assert(s.drop_last().len() == 0); assert(s.drop_first().len() == 0); assert(parts(s.drop_last()) == Seq::<u8>::empty() && parts(s.drop_first()) == Seq::<u8>::empty()); assert(s.last() == s[0]); app_nil(a); assert(Seq::<u8>::empty() + a =~= a); }
    else {
        parts_first(s.drop_last());
        assert(s.drop_first().drop_last() =~= s.drop_last().drop_first());
        assert(s.drop_first().last() == s.last());
        assert(s.drop_last()[0] == s[0]);
        assert(parts(s.drop_first()) == parts(s.drop_first().drop_last()) + s.last().part());
        app_assoc(a, parts(s.drop_last().drop_first()), s.last().part());
    }
}
pub proof fn data_parts(d: Seq<Bytes>)
    ensures parts(d) == dparts(dview(d)),
    decreases d.len(),
{
    if d.len() == 0 { reveal(parts); } else {
        parts_first(d); data_parts(d.drop_first());
        assert(dview(d).drop_first() =~= dview(d.drop_first()));
        assert(dview(d)[0] == d[0]@);
    }
}
pub proof fn list_parts(d: Seq<List>)
    ensures parts(d) == lparts(d),
    decreases d.len(),
{ if d.len() == 0 { reveal(parts); } else { parts_first(d); list_parts(d.drop_first()); } }
pub proof fn body_parts(d: Seq<TransferBody>)
    ensures mparts(d) == dparts(tview(d)),
    decreases d.len(),
{
    mparts_parts(d);
    if d.len() == 0 { reveal(parts); } else {
        parts_first(d); body_parts(d.drop_first()); mparts_parts(d.drop_first());
        assert(tview(d).drop_first() =~= tview(d.drop_first()));
        assert(tview(d)[0] == tb_enc(d[0]));
        reveal(tb_part);
        assert(d[0].part() == tb_part(d[0]));
    }
}
/// a section with content `b`, in front of anything
pub proof fn section_at(s: Seq<u8>)
    ensures s.len() > 0 ==> <Section as Decode>::drest1(s) == (if s[0] == 0 { section_urest(s.skip(1)) } else { None }),
        forall|x: Section| #[trigger] <Section as Decode>::dval1(s, x) == section_uval(s.skip(1), x),
{
    Section::one(); reveal(rest1); reveal(val1);
    assert(<Section as Decode>::drest1(s) == rest1::<Section>(s));
    assert(<Section as DecodeFormatted>::drest(s.skip(1), s[0]) == (if s[0] == 0 { section_urest(s.skip(1)) } else { None }));
    assert forall|x: Section| #[trigger] <Section as Decode>::dval1(s, x) == section_uval(s.skip(1), x) by {
        assert(<Section as Decode>::dval1(s, x) == val1::<Section>(s, x));
        assert(<Section as DecodeFormatted>::dval(s.skip(1), s[0], x) == section_uval(s.skip(1), x));
    }
}
pub proof fn data_at(b: Seq<u8>, t: Seq<u8>)
    requires sect(117, venc_bytes(0xa0, 0xb0, b)).len() <= u32::MAX,
    ensures ({ let s = sect(117, venc_bytes(0xa0, 0xb0, b)) + t; t.len() < s.len() && <Section as Decode>::drest1(s) == Some(t)
        && forall|x: Section| #[trigger] <Section as Decode>::dval1(s, x) ==> (x matches Section::Data(d) && d@ == b) }),
{
    let e = venc_bytes(0xa0, 0xb0, b); let s = sect(117, e) + t;
    sect_len(117, e);
    assert(b.len() <= e.len()) by { reveal(venc_bytes); }
    sect_rt(117, e, t); venc_rt(0xa0, 0xb0, b, t); section_at(s); code_is(s.skip(1), 117);
    reveal(section_urest); reveal(section_uval); reveal(vrest_of);
    Bytes::one(); reveal(rest1); reveal(val1);
    let r = e + t;
    assert(<Bytes as Decode>::drest1(r) == rest1::<Bytes>(r));
    assert(<Bytes as DecodeFormatted>::drest(r.skip(1), r[0]) == vrest_of(vbytes(0xa0, 0xb0, r.skip(1), r[0])));
    assert forall|x: Section| #[trigger] <Section as Decode>::dval1(s, x) implies (x matches Section::Data(d) && d@ == b) by {
        match x { Section::Data(d) => {
            assert(<Bytes as Decode>::dval1(r, d) == val1::<Bytes>(r, d));
            assert(<Bytes as DecodeFormatted>::dval(r.skip(1), r[0], d) == (d@ == vbytes(0xa0, 0xb0, r.skip(1), r[0]).unwrap().0));
        } _ => {} }
    }
}
/// application properties of an outgoing message: pairs in order
pub proof fn props_at(m: VecVariantMap, t: Seq<u8>)
    requires VecVariantMap::ok(m), m.inv(), sect(116, m.enc()).len() <= u32::MAX,
    ensures ({ let s = sect(116, m.enc()) + t; t.len() < s.len() && <Section as Decode>::drest1(s) == Some(t)
        && forall|x: Section| #[trigger] <Section as Decode>::dval1(s, x) ==> (x matches Section::ApplicationProperties(d) && psame(m.0@, d.log())) }),
{
    let e = m.enc(); let s = sect(116, e) + t;
    sect_len(116, e);
    assert(pairs_inv(m.0@)) by { reveal(pairs_inv); }
    assert(e == cenc(0xc1, 0xd1, 2 * m.0@.len(), pflat(m.0@)));
    map_rt(m.0@, t);
    sect_rt(116, e, t); section_at(s); code_is(s.skip(1), 116);
    reveal(section_urest); reveal(section_uval);
    StringVariantMap::one(); reveal(rest1); reveal(val1);
    let r = e + t;
    assert(<StringVariantMap as Decode>::drest1(r) == rest1::<StringVariantMap>(r));
    assert(<StringVariantMap as DecodeFormatted>::drest(r.skip(1), r[0]) == map_rest::<Str, Variant>(r.skip(1), r[0]));
    assert forall|x: Section| #[trigger] <Section as Decode>::dval1(s, x) implies (x matches Section::ApplicationProperties(d) && psame(m.0@, d.log())) by {
        match x { Section::ApplicationProperties(d) => {
            assert(<StringVariantMap as Decode>::dval1(r, d) == val1::<StringVariantMap>(r, d));
            assert(<StringVariantMap as DecodeFormatted>::dval(r.skip(1), r[0], d) == map_val::<Str, Variant>(r.skip(1), r[0], d.log()));
        } _ => {} }
    }
}
pub proof fn section_rt(x: Section, t: Seq<u8>)
    requires section_ok(x), x.inv(), x.enc().len() <= u32::MAX,
    ensures t.len() < (x.enc() + t).len(), <Section as Decode>::drest1(x.enc() + t) == Some(t),
        forall|y: Section| #[trigger] <Section as Decode>::dval1(x.enc() + t, y) ==> section_same(x, y),
{ rt1::<Section>(x, t); }
''')
for C, p in (('InMessage', 'in'), ('OutMessage', 'out')):
    AP = 'match (m.application_properties, f.ap) { (Some(x), Some(y)) => <StringVariantMap as RTF>::same(x, y), (None, None) => true, _ => false } && f.apv is None' if p == 'in' else \
         'match (m.application_properties, f.apv) { (Some(x), Some(y)) => exists|h: StringVariantMap| y == h.items() && #[trigger] psame(x.0@, h.log()), (None, None) => true, _ => false } && f.ap is None'
    APOK = '<StringVariantMap as RTF>::ok(x)' if p == 'in' else 'VecVariantMap::ok(x)'
    def o(fld, vw, ty): return f'match (m.{fld}, f.{vw}) {{ (Some(x), Some(y)) => <{ty} as RTF>::same(x, y), (None, None) => true, _ => false }}'
    SECS = [('header', 'header', 'Header', 'Header', None), ('delivery_annotations', 'da', 'Annotations', 'DeliveryAnnotations', 113), ('message_annotations', 'ma', 'Annotations', 'MessageAnnotations', 114),
            ('properties', 'properties', 'Properties', 'Properties', None), ('application_properties', 'ap', 'StringVariantMap', 'ApplicationProperties', 116)]
    w(f'''/// what the decoder makes of the encoding of `m`: the same sections; data and nested messages arrive as data, in order
pub open spec fn {p}_same(m: {C}, f: MsgV) -> bool {{
    &&& f.message_format is None
    &&& {o('header', 'header', 'Header')}
    &&& {o('delivery_annotations', 'da', 'Annotations')}
    &&& {o('message_annotations', 'ma', 'Annotations')}
    &&& {o('properties', 'properties', 'Properties')}
    &&& {AP}
    &&& dview(f.data) == (if body_enc(m.body).len() == 0 {{ seq![Seq::<u8>::empty()] }} else {{ dview(m.body.data@) + tview(m.body.messages@) }})
    &&& f.messages.len() == 0
    &&& f.sequence.len() == m.body.sequence@.len() && forall|i: int| 0 <= i < f.sequence.len() ==> <List as RTF>::same(m.body.sequence@[i], #[trigger] f.sequence[i])
    &&& {o('body.value', 'value', 'Variant')}
    &&& {o('footer', 'footer', 'Annotations')}
}}
pub open spec fn {p}_ok(m: {C}) -> bool {{
    &&& match m.header {{ Some(x) => <Header as RTF>::ok(x), None => true }} && match m.properties {{ Some(x) => <Properties as RTF>::ok(x), None => true }}
    &&& match m.delivery_annotations {{ Some(x) => <Annotations as RTF>::ok(x), None => true }} && match m.message_annotations {{ Some(x) => <Annotations as RTF>::ok(x), None => true }}
    &&& match m.footer {{ Some(x) => <Annotations as RTF>::ok(x), None => true }} && match m.body.value {{ Some(x) => <Variant as RTF>::ok(x), None => true }}
    &&& match m.application_properties {{ Some(x) => {APOK}, None => true }}
    &&& forall|i: int| 0 <= i < m.body.sequence@.len() ==> <List as RTF>::ok(#[trigger] m.body.sequence@[i])
}}
pub open spec fn {p}_restx(s: Seq<u8>) -> Option<Seq<u8>> {{ if s.len() == 0 {{ Some(s) }} else {{ {p}_rest(s) }} }}
pub open spec fn {p}_foldx(s: Seq<u8>, a: MsgV, f: MsgV) -> bool {{ if s.len() == 0 {{ f == a }} else {{ {p}_fold(s, a, f) }} }}
pub proof fn {p}_next(s: Seq<u8>, t: Seq<u8>, a: MsgV, f: MsgV) -> (y: Section)
    requires <Section as Decode>::drest1(s) == Some(t), t.len() < s.len(),
    ensures {p}_restx(s) == {p}_restx(t), {p}_foldx(s, a, f) ==> <Section as Decode>::dval1(s, y) && {p}_foldx(t, {p}_step(a, y), f),
{{
    reveal({p}_rest); reveal({p}_fold);
    if {p}_foldx(s, a, f) {{
        choose|sec: Section| #[trigger] <Section as Decode>::dval1(s, sec)
            && (if t.len() == 0 {{ f == {p}_step(a, sec) }} else {{ t.len() < s.len() && {p}_fold(t, {p}_step(a, sec), f) }})
    }} else {{ arbitrary() }}
}}
pub proof fn {p}_sec(x: Section, t: Seq<u8>, a: MsgV, f: MsgV) -> (y: Section)
    requires section_ok(x), x.inv(), x.enc().len() <= u32::MAX,
    ensures {p}_restx(x.enc() + t) == {p}_restx(t), {p}_foldx(x.enc() + t, a, f) ==> section_same(x, y) && {p}_foldx(t, {p}_step(a, y), f),
{{ section_rt(x, t); {p}_next(x.enc() + t, t, a, f) }}
pub proof fn {p}_datas(d: Seq<Seq<u8>>, t: Seq<u8>, a: MsgV, f: MsgV) -> (b: MsgV)
    requires dparts(d).len() <= u32::MAX,
    ensures {p}_restx(dparts(d) + t) == {p}_restx(t),
        {p}_foldx(dparts(d) + t, a, f) ==> {p}_foldx(t, b, f) && b == (MsgV {{ data: b.data, ..a }}) && dview(b.data) == dview(a.data) + d,
    decreases d.len(),
{{
    if d.len() == 0 {{ assert(dparts(d) + t =~= t); assert(dview(a.data) + d =~= dview(a.data)); a }}
    else {{
        let e = sect(117, venc_bytes(0xa0, 0xb0, d[0])); let w = d.drop_first();
        app_assoc(e, dparts(w), t);
        let r = dparts(w) + t;
        data_at(d[0], r);
        let y = {p}_next(e + r, r, a, f);
        let a1 = {p}_step(a, y);
        let b = {p}_datas(w, t, a1, f);
        if {p}_foldx(e + r, a, f) {{ assert(dview(a1.data) =~= dview(a.data).push(d[0])); assert(dview(a.data).push(d[0]) + w =~= dview(a.data) + d); }}
        b
    }}
}}
pub proof fn {p}_lists(d: Seq<List>, t: Seq<u8>, a: MsgV, f: MsgV) -> (b: MsgV)
    requires lparts(d).len() <= u32::MAX, forall|i: int| 0 <= i < d.len() ==> <List as RTF>::ok(#[trigger] d[i]) && d[i].inv(),
    ensures {p}_restx(lparts(d) + t) == {p}_restx(t),
        {p}_foldx(lparts(d) + t, a, f) ==> {p}_foldx(t, b, f) && b == (MsgV {{ sequence: b.sequence, ..a }}) && b.sequence.len() == a.sequence.len() + d.len()
            && (forall|i: int| 0 <= i < a.sequence.len() ==> b.sequence[i] == a.sequence[i])
            && forall|i: int| a.sequence.len() <= i < b.sequence.len() ==> <List as RTF>::same(d[i - a.sequence.len()], #[trigger] b.sequence[i]),
    decreases d.len(),
{{
    if d.len() == 0 {{ assert(lparts(d) + t =~= t); a }}
    else {{
        let x = Section::AmqpSequence(d[0]); let w = d.drop_first();
        reveal(section_uenc); reveal(section_uinv); reveal(section_ok); reveal(section_same);
        assert(x.enc() == section_uenc(x)); assert(x.inv() == section_uinv(x));
        app_assoc(x.enc(), lparts(w), t);
        assert forall|i: int| 0 <= i < w.len() implies <List as RTF>::ok(#[trigger] w[i]) && w[i].inv() by {{ assert(w[i] == d[i + 1]); }}
        let r = lparts(w) + t;
        let y = {p}_sec(x, r, a, f);
        let a1 = {p}_step(a, y);
        let b = {p}_lists(w, t, a1, f);
        if {p}_foldx(x.enc() + r, a, f) {{
            assert forall|i: int| 0 <= i < a.sequence.len() implies b.sequence[i] == a.sequence[i] by {{ assert(b.sequence[i] == a1.sequence[i]); }}
            assert forall|i: int| a.sequence.len() <= i < b.sequence.len() implies <List as RTF>::same(d[i - a.sequence.len()], #[trigger] b.sequence[i]) by {{
                let k = a.sequence.len() as int;
                if i == k {{ assert(b.sequence[i] == a1.sequence[i]); }} else {{ assert(w[i - k - 1] == d[i - k]); }}
            }}
        }}
        b
    }}
}}''')
    for fld, vw, ty, V, code in SECS + [('value', 'value', 'Variant', 'AmqpValue', 119), ('footer', 'footer', 'Annotations', 'Footer', 120)]:
        if p == 'out' and vw == 'ap': continue
        enc = f'osect({code}, o)' if code else 'own(o)'
        w(f'''pub proof fn {p}_at_{fld}(o: Option<{ty}>, t: Seq<u8>, a: MsgV, f: MsgV) -> (b: MsgV)
    requires match o {{ Some(x) => <{ty} as RTF>::ok(x), None => true }}, oinv(o), {enc}.len() <= u32::MAX,
    ensures {p}_restx({enc} + t) == {p}_restx(t),
        {p}_foldx({enc} + t, a, f) ==> {p}_foldx(t, b, f) && b == (MsgV {{ {vw}: b.{vw}, ..a }})
            && match o {{ Some(x) => b.{vw} is Some && <{ty} as RTF>::same(x, b.{vw}.unwrap()), None => b.{vw} == a.{vw} }},
{{
    reveal({'osect' if code else 'own'}); reveal(oinv);
    match o {{
        Some(v) => {{
            let x = Section::{V}(v);
            reveal(section_uenc); reveal(section_uinv); reveal(section_ok); reveal(section_same);
            assert(x.enc() == section_uenc(x)); assert(x.inv() == section_uinv(x));
            let y = {p}_sec(x, t, a, f); {p}_step(a, y)
        }}
        None => {{ assert({enc} + t =~= t); a }}
    }}
}}''')
    if p == 'out':
        w('''pub proof fn out_at_application_properties(o: Option<VecVariantMap>, t: Seq<u8>, a: MsgV, f: MsgV) -> (b: MsgV)
    requires match o { Some(x) => VecVariantMap::ok(x), None => true }, oinv(o), osect(116, o).len() <= u32::MAX,
    ensures out_restx(osect(116, o) + t) == out_restx(t),
        out_foldx(osect(116, o) + t, a, f) ==> out_foldx(t, b, f) && b == (MsgV { apv: b.apv, ..a })
            && match o { Some(x) => b.apv is Some && exists|h: StringVariantMap| b.apv.unwrap() == h.items() && #[trigger] psame(x.0@, h.log()), None => b.apv == a.apv },
{
    reveal(osect); reveal(oinv);
    match o {
        Some(v) => { props_at(v, t); let y = out_next(sect(116, v.enc()) + t, t, a, f); out_step(a, y) }
        None => { assert(osect(116, o) + t =~= t); a }
    }
}''')
    w(f'''/// P11: the encoding of a message decodes to the message again
#[verifier::rlimit(60)]
pub proof fn {p}_rt(m: {C}, f: MsgV)
    requires {p}_ok(m), {p}_parts_inv(m), {p}_enc(m).len() <= u32::MAX,
    ensures {p}_enc(m).len() > 0, {p}_rest({p}_enc(m)) == Some(Seq::<u8>::empty()), {p}_fold({p}_enc(m), msg0(), f) ==> {p}_same(m, f),
{{
    let b = m.body;
    reveal({p}_parts_inv); reveal(body_inv); reveal(parts_inv);
    {p}_app_is(Seq::empty(), m);
    let t7 = Seq::<u8>::empty();
    let t6 = osect(120, m.footer); let n = nonempty(body_enc(b)); let t5 = n + t6;
    let t4 = osect(116, m.application_properties) + t5; let t3 = own(m.properties) + t4; let t2 = osect(114, m.message_annotations) + t3;
    let t1 = osect(113, m.delivery_annotations) + t2; let t0 = own(m.header) + t1;
    app_nil(t6);
    assert({p}_enc(m) == t0) by {{ reveal({p}_enc); }}
    let a0 = msg0();
    let a1 = {p}_at_header(m.header, t1, a0, f);
    let a2 = {p}_at_delivery_annotations(m.delivery_annotations, t2, a1, f);
    let a3 = {p}_at_message_annotations(m.message_annotations, t3, a2, f);
    let a4 = {p}_at_properties(m.properties, t4, a3, f);
    let a5 = {p}_at_application_properties(m.application_properties, t5, a4, f);
    assert(dview(a0.data) =~= Seq::empty());
    let a6 = if body_enc(b).len() == 0 {{
        let d = seq![Seq::<u8>::empty()];
        assert(venc_bytes(0xa0, 0xb0, d[0]) =~= b1(0xa0) + b1(0)) by {{ reveal(venc_bytes); }}
        assert(d.drop_first().len() == 0);
        app_nil(sect(117, venc_bytes(0xa0, 0xb0, d[0])));
        reveal_with_fuel(dparts, 2);
        assert(n == dparts(d)) by {{ reveal(nonempty); }}
        sect_len(117, b1(0xa0) + b1(0));
        reveal(body_enc);
        let x = {p}_datas(d, t6, a5, f);
        {p}_bodyless(b);
        assert(Seq::<Seq<u8>>::empty() + d =~= d);
        x
    }} else {{
        assert(n == body_enc(b)) by {{ reveal(nonempty); }}
        reveal(body_enc);
        let (p0, p1, p2, p3) = (parts(b.data@), parts(b.sequence@), osect(119, b.value), mparts(b.messages@));
        app_assoc(p0, p1 + (p2 + p3), t6); app_assoc(p1, p2 + p3, t6); app_assoc(p2, p3, t6);
        assert(t5 == p0 + (p1 + (p2 + (p3 + t6))));
        data_parts(b.data@); list_parts(b.sequence@); body_parts(b.messages@);
        assert(n.len() == p0.len() + p1.len() + p2.len() + p3.len());
        assert forall|i: int| 0 <= i < b.sequence@.len() implies <List as RTF>::ok(#[trigger] b.sequence@[i]) && b.sequence@[i].inv() by {{ assert(b.sequence@[i].part_inv()); }}
        let c1 = {p}_datas(dview(b.data@), p1 + (p2 + (p3 + t6)), a5, f);
        let c2 = {p}_lists(b.sequence@, p2 + (p3 + t6), c1, f);
        let c3 = {p}_at_value(b.value, p3 + t6, c2, f);
        let c4 = {p}_datas(tview(b.messages@), t6, c3, f);
        assert(Seq::<Seq<u8>>::empty() + dview(b.data@) =~= dview(b.data@));
        c4
    }};
    let a7 = {p}_at_footer(m.footer, t7, a6, f);
    assert(n.len() > 0);
    assert(t0.len() > 0);
}}
pub proof fn {p}_bodyless(b: MessageBody)
    requires body_enc(b).len() == 0,
    ensures b.sequence@.len() == 0, b.value is None,
{{
    reveal(body_enc); list_parts(b.sequence@); reveal(osect);
    if b.sequence@.len() > 0 {{ sect_len(118, b.sequence@[0].enc()); }}
    match b.value {{ Some(v) => {{ sect_len(119, v.enc()); }} None => {{}} }}
}}
/// the same for the values themselves
pub proof fn {p}_message_rt(m: {C}, x: {C})
    requires {p}_ok(m), m.inv(), m.enc().len() <= u32::MAX,
    ensures m.enc().len() > 0, <{C} as Decode>::drest1(m.enc()) == Some(Seq::<u8>::empty()),
        <{C} as Decode>::dval1(m.enc(), x) ==> {p}_same(m, {p}_view(x)),
{{
    reveal(in_inv); reveal(out_inv); reveal(in_parts_inv); reveal(out_parts_inv); reveal(body_inv); reveal(tb_inv); assert(m.inv() == {p}_inv(m)); assert(m.enc() == {p}_enc(m));
    {p}_rt(m, {p}_view(x));
    assert(<{C} as Decode>::drest1(m.enc()) == {p}_rest(m.enc()));
    assert(<{C} as Decode>::dval1(m.enc(), x) == {p}_val(m.enc(), x));
}}''')
w('''%%
''')
open(os.environ.get('VBUILD', '/verif/build') + '/gen/34-rt.vc', 'w').write('\n'.join(out))
