import re
# contracts of codec::decode and codec::{Decode, DecodeFormatted, ArrayDecode}
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
from spec import reveals
out = []
def w(s): out.append(s)
w('''%trait codec::DecodeFormatted
spec fn drest(s: Seq<u8>, fmt: u8) -> Option<Seq<u8>>;
spec fn dval(s: Seq<u8>, fmt: u8, v: Self) -> bool;
%fn codec::DecodeFormatted::decode_with_format
ensures match r {
    Ok((vx_t, vx_o)) => Self::drest($p0@, $p1) == Some(vx_t@) && Self::dval($p0@, $p1, vx_o) && vx_t@.len() <= $p0@.len(),
    Err(_) => Self::drest($p0@, $p1) is None,
},
%trait codec::Decode
spec fn drest1(s: Seq<u8>) -> Option<Seq<u8>>;
spec fn dval1(s: Seq<u8>, v: Self) -> bool;
%fn codec::Decode::decode
ensures match r {
    Ok((vx_t, vx_o)) => Self::drest1($p0@) == Some(vx_t@) && Self::dval1($p0@, vx_o) && vx_t@.len() <= $p0@.len() && ($p0@.len() > 0 ==> vx_t@.len() < $p0@.len()),
    Err(_) => Self::drest1($p0@) is None,
},
%trait codec::ArrayDecode
spec fn adrest(s: Seq<u8>) -> Option<Seq<u8>>;
spec fn adval(s: Seq<u8>, v: Self) -> bool;
%fn codec::ArrayDecode::array_decode
ensures match r {
    Ok((vx_t, vx_o)) => Self::adrest($p0@) == Some(vx_t@) && Self::adval($p0@, vx_o) && vx_t@.len() <= $p0@.len(),
    Err(_) => Self::adrest($p0@) is None,
},
%fn codec::decode_format_code
ensures match r {
    Ok((vx_t, vx_o)) => $p0@.len() >= 1 && vx_t@ == $p0@.skip(1) && vx_o == $p0@[0],
    Err(_) => $p0@.len() == 0,
},
%prologue codec::decode_format_code
broadcast use group_dec;
''')
for f, c in [('decode_list_header', 'lhead($p0@, $p1)'), ('decode_map_header', 'chead(0xc1, 0xd1, $p0@, $p1)')]:
    w(f"""%fn codec::decode::{f}
ensures match r {{
    Ok((vx_t, vx_o)) => {c} == Some((vx_o.size as nat, vx_o.count as nat, vx_t@)) && vx_t@.len() <= $p0@.len(),
    Err(_) => {c} is None,
}},
%prologue codec::decode::{f}
broadcast use group_dec;
{reveals(c)}""")

def sub(t):
    return re.sub(r'\bfmt\b', '$p1', re.sub(r'\bs\b', '$p0@', t))
SEEN = {}
def hints(tys):
    return ''.join(f'\nassert(<{t} as DecodeFormatted>::drest($p0@, $p1) == ({sub(SEEN[t][0])}));\nassert(forall|v: {t}| #[trigger] <{t} as DecodeFormatted>::dval($p0@, $p1, v) == ({sub(SEEN[t][1])}));' for t in tys)
def dec(ty, rest, val, rec=None, stop=(), more=''):
    k = f'codec::decode::DecodeFormatted for {ty}'
    SEEN[ty] = (rest, val)
    w(f"""%impl {k}
open spec fn drest(s: Seq<u8>, fmt: u8) -> Option<Seq<u8>> {{ {rest} }}
open spec fn dval(s: Seq<u8>, fmt: u8, v: Self) -> bool {{ {val} }}
%prologue {k}::decode_with_format
broadcast use group_dec;
{reveals(rest + ' ' + val, stop=stop)}""" + (f"""{more}
assert(<{ty} as DecodeFormatted>::drest($p0@, $p1) == ({sub(rest)}));
assert(forall|v: {ty}| #[trigger] <{ty} as DecodeFormatted>::dval($p0@, $p1, v) == ({sub(val)}));""" if rec else f"""
proof {{ let (s, fmt) = ($p0@, $p1);
    assert(Self::drest(s, fmt) == ({rest}));
    assert forall|v: Self| #[trigger] Self::dval(s, fmt, v) == ({val}) by {{}} }}"""))
    if rec: w(f'%fn {k}::decode_with_format\ndecreases $p0@.len(), {rec}int')
    return k + '::decode_with_format'
dec('bool', 'bool_rest(s, fmt)', 'v == bool_val(s, fmt)')
dec('u8', 'fix_rest(0x50, 1, s, fmt)', 'v == s[0]')
dec('u16', 'fix_rest(0x60, 2, s, fmt)', 'v == rd16(s)')
dec('u32', 'u32_rest(s, fmt)', 'v == u32_val(s, fmt)')
dec('u64', 'u64_rest(s, fmt)', 'v == u64_val(s, fmt)')
dec('i8', 'fix_rest(0x51, 1, s, fmt)', 'v == s[0] as i8')
dec('i16', 'fix_rest(0x61, 2, s, fmt)', 'v == rd16(s) as i16')
dec('i32', 'i32_rest(s, fmt)', 'v == i32_val(s, fmt)')
dec('i64', 'i64_rest(s, fmt)', 'v == i64_val(s, fmt)')
dec('f32', 'fix_rest(0x72, 4, s, fmt)', 'f32_bits(v) == rd32(s)')
dec('f64', 'fix_rest(0x82, 8, s, fmt)', 'f64_bits(v) == rd64(s)')
dec('char', 'char_rest(s, fmt)', 'v as u32 == rd32(s)')
dec('DateTime<Utc>', 'ts_rest(s, fmt)', 'ts_val(s, v)')
dec('Uuid', 'fix_rest(0x98, 16, s, fmt)', 'v@ == s.take(16)')
dec('Bytes', 'vrest_of(vbytes(0xa0, 0xb0, s, fmt))', 'v@ == vbytes(0xa0, 0xb0, s, fmt).unwrap().0')
dec('ByteStr', 'srest(0xa1, 0xb1, s, fmt)', 'sval(0xa1, 0xb1, s, fmt, v@)')
dec('Str', 'srest(0xa1, 0xb1, s, fmt)', 'sval(0xa1, 0xb1, s, fmt, v@)')
dec('Symbol', 'srest(0xa3, 0xb3, s, fmt)', 'sval(0xa3, 0xb3, s, fmt, v@)')
dec('Descriptor', 'descr_rest(s, fmt)', 'descr_val(s, fmt, v)')
dec('Option<T>', 'opt_rest::<T>(s, fmt)', 'opt_val::<T>(s, fmt, v)')
w('''%impl codec::decode::ArrayDecode for Symbol
open spec fn adrest(s: Seq<u8>) -> Option<Seq<u8>> { srest(0xa3, 0xb3, s, 0xb3) }
open spec fn adval(s: Seq<u8>, v: Self) -> bool { sval(0xa3, 0xb3, s, 0xb3, v@) }
%prologue codec::decode::ArrayDecode for Symbol::array_decode
broadcast use group_dec;
proof {{ reveal(crate::vx::srest); reveal(crate::vx::sval); reveal(crate::vx::vbytes); }}'''.replace('{{','{').replace('}}','}'))

k = dec('Vec<T>', 'vec_rest::<T>(s, fmt)', 'vec_val::<T>(s, fmt, v@)')
w(f'''%before {k} *
let ghost vx_b0 = $A0@;
%loop {k} *
invariant
    $i <= $n,
    arest::<T>(vx_b0, item_fmt, $i as nat) == Some($A0@),
    $P0@.len() == $i,
    aval::<T>(vx_b0, item_fmt, $P0@),
decreases $n - $i,
%loopstart {k} *
proof {{ if arest::<T>(vx_b0, item_fmt, ($i + 1) as nat) is None {{ arest_none::<T>(vx_b0, item_fmt, ($i + 1) as nat, $n as nat); }} }}''')
def pairs(ty, kk, vv, view):
    k = dec(ty, f'map_rest::<{kk}, {vv}>(s, fmt)', f'map_val::<{kk}, {vv}>(s, fmt, v{view})')
    view = view.replace('.0@', '@')
    w(f'''%before {k} *
let ghost vx_b0 = $A0@;
%loop {k} *
invariant
    $i <= $n,
    prest::<{kk}, {vv}>(vx_b0, $i as nat) == Some($A0@),
    $P0{view}.len() == $i,
    pval::<{kk}, {vv}>(vx_b0, $P0{view}),
decreases $n - $i,
%loopstart {k} *
proof {{ if prest::<{kk}, {vv}>(vx_b0, ($i + 1) as nat) is None {{ prest_none::<{kk}, {vv}>(vx_b0, ($i + 1) as nat, $n as nat); }} }}''')
pairs('HashMap<K,V,S>', 'K', 'V', '.log()')
pairs('VecVariantMap', 'Str', 'Variant', '.0@')
NS = 'bool_rest bool_val u32_rest u32_val u64_rest u64_val i32_rest i32_val i64_rest i64_val char_rest ts_rest ts_val vbytes srest sval descr_rest descr_val'.split()
dec('Multiple<T>', 'mul_rest::<T>(s, fmt)', 'mul_val::<T>(s, fmt, v)')
k = dec('List', 'lrest(s, fmt)', 'lval(s, fmt, v.0@)', rec=1, stop=['chead', 'lhead']+NS, more='\nproof { head_short($p0@, $p1); }')
w(f'''%before {k} *
let ghost vx_b0 = $A0@;
%loop {k} *
invariant
    $i <= $n,
    vitems(vx_b0, $i as nat) == Some($A0@),
    $A0@.len() <= vx_b0.len(),
    $P0@.len() == $i,
    ivals(vx_b0, $P0@),
decreases $n - $i,
%loopstart {k} *
proof {{ if vitems(vx_b0, ($i + 1) as nat) is None {{ vitems_none(vx_b0, ($i + 1) as nat, $n as nat); }} }}''')
k = dec('HashMapVV', 'mrest(s, fmt)', 'mval(s, fmt, v.log())', rec=1, stop=['chead']+NS, more='\nproof { head_short($p0@, $p1); }')
w(f'''%before {k} *
let ghost vx_b0 = $A0@;
%loop {k} *
invariant
    $i <= $n,
    vitems(vx_b0, (2 * $i) as nat) == Some($A0@),
    $A0@.len() <= vx_b0.len(),
    $P0.log().len() == $i,
    pvals(vx_b0, $P0.log()),
decreases $n - $i,
%loopstart {k} *
proof {{
    if vitems(vx_b0, (2 * $i + 1) as nat) is None {{ vitems_none(vx_b0, (2 * $i + 1) as nat, (2 * $n) as nat); }}
    if vitems(vx_b0, (2 * $i + 2) as nat) is None {{ vitems_none(vx_b0, (2 * $i + 2) as nat, (2 * $n) as nat); }}
}}''')
dec('Variant', 'vrest(s, fmt)', 'vval(s, fmt, v)', rec=2, stop=NS+'lhead lcomp comp chead'.split(), more=hints('bool u8 u16 u32 u64 i8 i16 i32 i64 f32 f64 char DateTime<Utc> Uuid Bytes ByteStr Symbol List'.split()) + hints(['HashMapVV']).replace('HashMapVV', 'crate::model::HashMapVV') + '''
proof { reveal(crate::vx::rest1); reveal(crate::vx::val1); reveal(crate::vx::descr_rest1); reveal(crate::vx::fix_rest); zero_codes($p0@); }
assert(forall|s: Seq<u8>, fmt: u8| #[trigger] <Descriptor as DecodeFormatted>::drest(s, fmt) == descr_rest(s, fmt));
assert(forall|s: Seq<u8>, fmt: u8, d: Descriptor| #[trigger] <Descriptor as DecodeFormatted>::dval(s, fmt, d) == descr_val(s, fmt, d));
assert(forall|s: Seq<u8>| #[trigger] <Descriptor as Decode>::drest1(s) == rest1::<Descriptor>(s));
assert(forall|s: Seq<u8>, d: Descriptor| #[trigger] <Descriptor as Decode>::dval1(s, d) == val1::<Descriptor>(s, d));''')
# blanket impl, one instance per type
TYPES = '''bool u8 u16 u32 u64 i8 i16 i32 i64 f32 f64 char DateTime<Utc> Uuid Bytes ByteStr Str Symbol HashMap<K,V,S> Vec<T> VecVariantMap Multiple<T> List Variant Option<T> Descriptor MessageId ErrorCondition DistributionMode DeliveryState SaslFrameBody Outcome Section Role SenderSettleMode ReceiverSettleMode AmqpError ConnectionError SessionError LinkError SaslCode TerminusDurability TerminusExpiryPolicy Error Open Begin Attach Flow Transfer Disposition Detach End Close SaslMechanisms SaslInit SaslChallenge SaslResponse SaslOutcome Source Target Header Properties Received Accepted Rejected Released Modified crate::model::HashMapVV'''.split()
REC = {'List': ('l', '.0@'), 'Variant': ('v', ''), 'crate::model::HashMapVV': ('m', '.log()')}
for t in TYPES:
    k = f'codec::Decode for {t}'
    if t in REC:
        f, v = REC[t]
        rest, val = f'(if s.len() >= 1 {{ crate::vx::{f}rest(s.skip(1), s[0]) }} else {{ None }})', f'crate::vx::{f}val(s.skip(1), s[0], v{v})'
        w(f'''%impl {k}
open spec fn drest1(s: Seq<u8>) -> Option<Seq<u8>> {{ {rest} }}
open spec fn dval1(s: Seq<u8>, v: Self) -> bool {{ {val} }}
%prologue {k}::decode
assert(<{t} as Decode>::drest1($p0@) == {sub(rest)});
assert(forall|v: {t}| #[trigger] <{t} as Decode>::dval1($p0@, v) == {sub(val)});
%fn {k}::decode
decreases $p0@.len(), 3int''')
    else:
        w(f'''%impl {k}
open spec fn drest1(s: Seq<u8>) -> Option<Seq<u8>> {{ crate::vx::rest1::<Self>(s) }}
open spec fn dval1(s: Seq<u8>, v: Self) -> bool {{ crate::vx::val1::<Self>(s, v) }}
%prologue {k}::decode
proof {{ reveal(crate::vx::rest1); reveal(crate::vx::val1); }}
proof {{ assert(Self::drest1($p0@) == crate::vx::rest1::<Self>($p0@));
    assert forall|vx_v: Self| #[trigger] Self::dval1($p0@, vx_v) == crate::vx::val1::<Self>($p0@, vx_v) by {{}} }}''')
# frames (part 2, section 2.3.1): data offset, type, channel, extended header, body
for ty, t, f, body, val in (('AmqpFrame', 0, 'performative', 'Frame', 'rd16(s.skip(2)) == v.channel_id && '), ('SaslFrame', 1, 'body', 'SaslFrameBody', '')):
    k = f'codec::decode::Decode for {ty}'
    w(f'''%impl {k}
open spec fn drest1(s: Seq<u8>) -> Option<Seq<u8>> {{ match frame_body({t}, s) {{ Some(b) => <crate::protocol::{body} as Decode>::drest1(b), None => None }} }}
open spec fn dval1(s: Seq<u8>, v: Self) -> bool {{ {val}<crate::protocol::{body} as Decode>::dval1(frame_body({t}, s).unwrap(), v.{f}) }}
%prologue {k}::decode
broadcast use group_dec;
proof {{ reveal(crate::vx::frame_body); }}''')
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)) + '/lib')
import split as _split
open(os.environ.get('VBUILD', '/verif/build') + '/gen/31-decode.vc', 'w').write(_split.split('\n'.join(out) + '\n%%\n'))
