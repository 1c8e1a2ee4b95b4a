# contracts of protocol::definitions and protocol, generated from the committed table amqp.json
# (AMQP 1.0 parts 2, 3 and 5: descriptors, field order, types, defaults, choices)
import json, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
from spec import reveals
T = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'amqp.json')))
by = {t['name']: t for t in T}
out, sp = [], []
w = out.append
s = sp.append
def camel(n): return ''.join(p.capitalize() for p in n.split('-'))
def snake(n): return n.replace('-', '_')
PRIM = {'symbol': 'Symbol', 'string': 'ByteStr', 'uint': 'u32', 'ulong': 'u64', 'ushort': 'u16', 'ubyte': 'u8',
        'boolean': 'bool', 'binary': 'Bytes', 'timestamp': 'DateTime<Utc>', 'list': 'List',
        'fields': 'HashMap<Symbol, Variant>', 'annotations': 'HashMap<Symbol, Variant>', 'map': 'HashMapVV',
        'filter-set': 'HashMap<Symbol, Option<ByteStr>>', 'string-variant-map': 'HashMap<Str, Variant>'}
REQ = {'address': 'ByteStr'}
def rtype(f):
    t, r = f['type'], f.get('requires')
    if r: return REQ.get(r, camel(r))
    return rtype_name(t)
def rtype_name(t):
    if t in PRIM: return PRIM[t]
    if t == '*': return 'Variant'
    d = by[t]
    if d['class'] == 'composite' or d.get('choice'): return camel(t)
    return rtype_name(d['source'])
def base(t):  # AMQP primitive of a restricted type
    while t not in PRIM: t = by[t]['source']
    return t
s('''%root vxp
use vstd::prelude::*;
pub use crate::vx::*;
pub use crate::protocol::*;
/// encoding of a described list
#[verifier::opaque]
pub open spec fn perf(code: u64, n: nat, body: Seq<u8>) -> Seq<u8> {
    b1(0) + (u64_enc(code) + cenc(0xc0, 0xd0, n, body))
}
#[verifier::opaque]
pub open spec fn sect(code: u64, body: Seq<u8>) -> Seq<u8> { b1(0) + (u64_enc(code) + body) }
/// the same bytes in the order they are appended
pub open spec fn perf_app(o: Seq<u8>, code: u64, n: nat, len: nat) -> Seq<u8> {
    let h = o + descr_enc(Descriptor::Ulong(code));
    if len + 1 > 255 { ((h + b1(0xd0)) + be32((len + 4) as u32)) + be32(n as u32) }
    else { ((h + b1(0xc0)) + b1((len + 1) as u8)) + b1(n as u8) }
}
pub proof fn perf_app_is(o: Seq<u8>, code: u64, n: nat, body: Seq<u8>)
    ensures perf_app(o, code, n, body.len()) + body == o + perf(code, n, body),
        descr_enc(Descriptor::Ulong(code)).len() + (if body.len() + 1 > 255 { 9 } else { 3int }) + body.len() == perf(code, n, body).len(),
        0 < code <= 255 ==> descr_enc(Descriptor::Ulong(code)).len() == 3,
{
    broadcast use group_bytes;
    reveal(perf); reveal(cenc); reveal(descr_enc); reveal(u64_enc);
}
/// a list constructor and its body
#[verifier::opaque]
pub open spec fn plist(s: Seq<u8>) -> Option<(nat, Seq<u8>, Seq<u8>)> {
    if s.len() >= 1 { lcomp(s.skip(1), s[0]) } else { None }
}
/// the descriptor at the start of `s` is this one (either form)
#[verifier::opaque]
pub open spec fn is_descr(s: Seq<u8>, code: u64, name: Seq<char>) -> bool {
    let (b, f) = (s.skip(1), s[0]);
    if f == 0x80 || f == 0x53 || f == 0x44 { u64_val(b, f) == code } else { sval(0xa3, 0xb3, b, f, name) }
}
/// field `i` of a list with `c` fields
#[verifier::opaque]
pub open spec fn freq<T: Decode>(c: nat, i: nat, r: Option<Seq<u8>>) -> Option<Seq<u8>> {
    match r { Some(r) => if c > i { T::drest1(r) } else { None }, None => None }
}
#[verifier::opaque]
pub open spec fn fopt<T: Decode>(c: nat, i: nat, r: Option<Seq<u8>>) -> Option<Seq<u8>> {
    match r { Some(r) => if c > i { T::drest1(r) } else { Some(r) }, None => None }
}
#[verifier::opaque]
pub open spec fn vreq<T: Decode>(r: Option<Seq<u8>>, v: T) -> bool { T::dval1(r.unwrap(), v) }
#[verifier::opaque]
pub open spec fn vopt<T: DecodeFormatted>(c: nat, i: nat, r: Option<Seq<u8>>, v: Option<T>) -> bool {
    if c > i { <Option<T> as Decode>::dval1(r.unwrap(), v) } else { v is None }
}
#[verifier::opaque]
pub open spec fn vdef<T: DecodeFormatted>(c: nat, i: nat, r: Option<Seq<u8>>, v: T, d: T) -> bool {
    if c > i && r.unwrap()[0] != 0x40 { T::dval(r.unwrap().skip(1), r.unwrap()[0], v) } else { v == d }
}
''')
DEC = '''%fn {k}
ensures match r {{
    Ok((vx_t, vx_o)) => {rest}($p0@) == Some(vx_t@) && {val}($p0@, vx_o) && vx_t@.len() <= $p0@.len(),
    Err(_) => {rest}($p0@) is None,
}},'''
M = 'protocol::definitions'
def R(expr, *stop): return f'\x01{expr}\x02{" ".join(stop)}\x03'
OP = '#[verifier::opaque]\n'
def lit(x): return f'"{x}"@'
def encfns(names, e, *stop, more=''):
    for n, v in names:
        w(f"""%prologue {n}
broadcast use crate::vx::group_bytes;
{R(e, *stop)}
assert({v}.enc().len() <= u32::MAX);{more}""")
for t in T:
    n, C, f = t['name'], camel(t['name']), snake(t['name'])
    fx = f'crate::vxp::{f}_'
    if t['class'] == 'restricted' and t.get('choice'):
        b = base(t['source'])
        bt = {'boolean': 'bool', 'ubyte': 'u8', 'uint': 'u32', 'symbol': 'Seq<char>'}[b]
        val = lambda v: lit(v) if b == 'symbol' else v
        arms = ', '.join(f'{C}::{camel(c)} => {val(v)}' for c, v in t['choice'])
        s(f'{OP}pub open spec fn {f}_code(e: {C}) -> {bt} {{ match e {{ {arms} }} }}')
        s(f'{OP}pub open spec fn {f}_known(x: {bt}) -> bool {{ ' + ' || '.join(f'x == {val(v)}' for c, v in t['choice']) + ' }')
        e = {'boolean': 'bool_enc(%s)', 'ubyte': '%s.enc()', 'uint': '%s.enc()', 'symbol': 'sym_enc(%s)'}[b] % f'{f}_code(v)'
        s(f'{OP}pub open spec fn {f}_enc(v: {C}) -> Seq<u8> {{ {e} }}')
        k = f'{M}::Encode for {C}'
        if b == 'symbol':
            s(f'pub proof fn {f}_lens(e: {C})\n    ensures utf8_enc({f}_code(e)).len() == match e {{ ' + ', '.join(f'{C}::{camel(c)} => {len(v)}nat' for c, v in t['choice']) + f' }},\n{{\n    reveal({f}_code);')
            for c, v in t['choice']:
                s(f'    reveal_strlit("{v}"); is_ascii_chars_encode_utf8({lit(v)});')
            s('}')
        w(f"""%impl {k}
open spec fn enc(&self) -> Seq<u8> {{ {fx}enc(*self) }}
open spec fn inv(&self) -> bool {{ true }}
%fn {M}::{C}::try_from
ensures match r {{ Ok(vx_o) => {fx}code(vx_o) == {'$p0@' if b == 'symbol' else '$p0'}, Err(_) => !{fx}known({'$p0@' if b == 'symbol' else '$p0'}) }},
%prologue {M}::{C}::try_from
{R(f'{f}_code {f}_known')}""")
        encfns([(f'{k}::encode', 'self'), (f'{k}::encoded_size', 'self')], f'{f}_enc', more=f"\nproof {{ {fx}lens(*self); }}" if b == 'symbol' else '')
        P = {'boolean': ('bool_rest(s, fmt)', 'bool_val(s, fmt)'), 'ubyte': ('fix_rest(0x50, 1, s, fmt)', 's[0]'),
             'uint': ('u32_rest(s, fmt)', 'u32_val(s, fmt)'), 'symbol': ('srest(0xa3, 0xb3, s, fmt)', 'utf8_dec(vbytes(0xa3, 0xb3, s, fmt).unwrap().0)')}[b]
        s(f'{OP}pub open spec fn {f}_drest(s: Seq<u8>, fmt: u8) -> Option<Seq<u8>> {{ if {P[0]} is Some && {f}_known({P[1]}) {{ {P[0]} }} else {{ None }} }}')
        s(f'{OP}pub open spec fn {f}_dval(s: Seq<u8>, fmt: u8, v: {C}) -> bool {{ {f}_code(v) == {P[1]} }}')
        k = f'{M}::DecodeFormatted for {C}'
        w(f"""%impl {k}
open spec fn drest(s: Seq<u8>, fmt: u8) -> Option<Seq<u8>> {{ {fx}drest(s, fmt) }}
open spec fn dval(s: Seq<u8>, fmt: u8, v: Self) -> bool {{ {fx}dval(s, fmt, v) }}
%prologue {k}::decode_with_format
broadcast use crate::vx::group_dec;
{R(f'{f}_drest {f}_dval {f}_known {f}_code sval')}""")
    elif t['class'] == 'composite':
        F = t['field'] if t.get('field') else []
        xs = []
        for q in F:
            ty = rtype(q)
            if q.get('multiple'): ty = f'Multiple<{ty}>'
            xs.append((snake(q['name']), ty, 'req' if q.get('mandatory') else 'def' if 'default' in q else 'opt', q))
        body = ' + ('.join(f'v.{a}.enc()' for a, *_ in xs) + ')' * (len(xs) - 1) if xs else 'Seq::<u8>::empty()'
        tail = n == 'transfer'
        s(f'pub open spec fn {f}_fields(v: {C}) -> Seq<u8> {{ {body} }}')
        s(f'pub open spec fn {f}_fapp(o: Seq<u8>, v: {C}) -> Seq<u8> {{ {"(" * len(xs)}o{"".join(f" + v.{a}.enc())" for a, *_ in xs)} }}')
        s(f"""pub proof fn {f}_app(o: Seq<u8>, v: {C})
    ensures {f}_fapp(perf_app(o, {t["code"]}, {len(xs)}, {f}_fields(v).len()), v){" + own(v.body)" if tail else ""} == o + {f}_enc(v),
        {f}_enc(v).len() == 3 + (if {f}_fields(v).len() + 1 > 255 {{ 9 }} else {{ 3int }}) + {f}_fields(v).len(){" + own(v.body).len()" if tail else ""},
        descr_enc(Descriptor::Ulong({t["code"]})).len() == 3,
{{
    reveal({f}_enc);
    let h = perf_app(o, {t["code"]}, {len(xs)}, {f}_fields(v).len());
    perf_app_is(o, {t["code"]}, {len(xs)}, {f}_fields(v));
    assert({f}_fapp(h, v) == h + {f}_fields(v)) by {{ broadcast use group_bytes; }}
    {"app_assoc(o, perf(%s, %d, %s_fields(v)), own(v.body));" % (t["code"], len(xs), f) if tail else ""}
}}""")
        s(f'{OP}pub open spec fn {f}_enc(v: {C}) -> Seq<u8> {{ perf({t["code"]}, {len(xs)}, {f}_fields(v))' + (' + own(v.body)' if tail else '') + ' }')
        s(f'{OP}pub open spec fn {f}_inv(v: {C}) -> bool {{ ' + (' && '.join(f'v.{a}.inv()' for a, *_ in xs) or 'true') + (' && oinv(v.body)' if tail else '') + ' }')
        prev = 'Some(b)'
        vals = []
        for i, (a, ty, m, q) in enumerate(xs):
            dt = ty if m == 'req' else f'Option<{ty}>'
            s(f'pub open spec fn {f}_r{i}(c: nat, b: Seq<u8>) -> Option<Seq<u8>> {{ {"freq" if m == "req" else "fopt"}::<{dt}>(c, {i}, {prev}) }}')
            if m == 'req': vals.append(f'vreq::<{ty}>({prev}, v.{a})')
            elif m == 'opt': vals.append(f'vopt::<{ty}>(c, {i}, {prev}, v.{a})')
            else:
                d = q['default']
                if not re.match(r'^(\d+|true|false)$', d): d = f'{ty}::{camel(d)}'
                vals.append(f'vdef::<{ty}>(c, {i}, {prev}, v.{a}, {d})')
            prev = f'{f}_r{i}(c, b)'
        rest = 'Some(p.2.skip(p.2.len() as int))' if tail else 'Some(p.2)'
        s(f"""{OP}pub open spec fn {f}_rest(s: Seq<u8>) -> Option<Seq<u8>> {{
    match plist(s) {{ Some(p) => {{ let (c, b) = (p.0, p.1); if {prev} is Some {{ {rest} }} else {{ None }} }}, None => None }}
}}
{OP}pub open spec fn {f}_val(s: Seq<u8>, v: {C}) -> bool {{
    let p = plist(s).unwrap(); let (c, b) = (p.0, p.1);
    {' && '.join(vals) if vals else 'true'}""" + ("""
    && match v.body { None => p.2.len() == 0, Some(TransferBody::Data(d)) => p.2.len() > 0 && d@ == p.2, _ => false }""" if tail else '') + '\n}')
        s(f"""{OP}pub open spec fn {f}_drest(s: Seq<u8>, fmt: u8) -> Option<Seq<u8>> {{
    if fmt == 0 && descr_rest1(s) is Some && is_descr(s, {t['code']}, {lit(t['descriptor'])}) {{ {f}_rest(descr_rest1(s).unwrap()) }} else {{ None }}
}}
{OP}pub open spec fn {f}_dval(s: Seq<u8>, fmt: u8, v: {C}) -> bool {{ {f}_val(descr_rest1(s).unwrap(), v) }}""")
        k = f'{M}::Encode for {C}'
        w(f"""%impl {k}
open spec fn enc(&self) -> Seq<u8> {{ {fx}enc(*self) }}
open spec fn inv(&self) -> bool {{ {fx}inv(*self) }}
%fn {M}::encoded_size_{f}_inner
requires $p0.inv(), $p0.enc().len() <= u32::MAX,
ensures r == $p0.enc().len(),
%fn {M}::encode_{f}_inner
requires $p0.inv(), $p0.enc().len() <= u32::MAX, old($p1).rem() >= $p0.enc().len(),
ensures final($p1)@ == old($p1)@ + $p0.enc(), final($p1).rem() >= old($p1).rem() - $p0.enc().len(),""")
        w(f"""%attr {M}::encode_{f}_inner
#[verifier::rlimit(60)]
%prologue {M}::encode_{f}_inner
broadcast use crate::vx::be_lens, {"crate::vxp::own_app" if tail else "crate::vx::app_nil"};
proof {{ {"reveal(crate::vxp::oinv); " if tail else ""}reveal(crate::vxp::{f}_inv); {fx}app(old($p1)@, *$p0); }}
%prologue {M}::encoded_size_{f}_inner
proof {{ {"reveal(crate::vxp::own); reveal(crate::vxp::oinv); " if tail else ""}reveal(crate::vxp::{f}_inv); {fx}app(Seq::empty(), *$p0); }}""")
        w(DEC.format(k=f'{M}::decode_{f}_inner', rest=fx + 'rest', val=fx + 'val') + f"""
%prologue {M}::decode_{f}_inner
broadcast use crate::vx::group_dec;
{R(f'{f}_rest {f}_val' + (' rest1 val1 opt_rest opt_val' if any(x[2] == 'def' for x in xs) else ''), 'lhead')}
%impl {M}::DecodeFormatted for {C}
open spec fn drest(s: Seq<u8>, fmt: u8) -> Option<Seq<u8>> {{ {fx}drest(s, fmt) }}
open spec fn dval(s: Seq<u8>, fmt: u8, v: Self) -> bool {{ {fx}dval(s, fmt, v) }}
%prologue {M}::DecodeFormatted for {C}::decode_with_format
broadcast use crate::vx::group_dec;
{R(f'{f}_drest {f}_dval is_descr descr_rest1 descr_val rest1 val1', f'{f}_rest', f'{f}_val', 'descr_rest', 'vbytes', 'u64_val', 'plist')}
proof {{ {fx}name(); }}""")
        for q, (fld, ty, kind, _) in zip(F, xs):
            tn = q['type']
            src = tn if tn in PRIM or tn == '*' else base(tn) if not q.get('requires') and by[tn]['class'] == 'restricted' else None
            byval = not q.get('requires') and not q.get('multiple') and (src in ('uint', 'ulong', 'ushort', 'ubyte', 'boolean', 'timestamp')
                or tn in by and by[tn]['class'] == 'restricted' and by[tn].get('choice') and ty not in ('ErrorCondition', 'DistributionMode'))
            if kind == 'opt':
                e = f'r == self.{fld}' if byval else f'match r {{ Some(x) => self.{fld} == Some(*x), None => self.{fld} is None }}'
            else:
                e = f'r == self.{fld}' if byval else f'*r == self.{fld}'
            w(f'%fn {M}::{C}::{fld}\nensures {e},')
        if tail:
            w(f'%fn {M}::{C}::body\nensures match r {{ Some(x) => self.body == Some(*x), None => self.body is None }},')
        nm = t['descriptor']
        s(f'''pub proof fn {f}_name()
    ensures utf8_enc({lit(nm)}) == seq![{', '.join(str(ord(c)) + 'u8' for c in nm)}],
        forall|c: Seq<char>| #[trigger] utf8_enc(c) == utf8_enc({lit(nm)}) ==> c == {lit(nm)},
{{
    reveal_strlit("{nm}"); is_ascii_chars_encode_utf8({lit(nm)});
    assert(utf8_enc({lit(nm)}) =~= seq![{', '.join(str(ord(c)) + 'u8' for c in nm)}]);
    assert forall|c: Seq<char>| #[trigger] utf8_enc(c) == utf8_enc({lit(nm)}) implies c == {lit(nm)} by {{ utf8_inverse2(c); utf8_inverse2({lit(nm)}); }}
}}''')
# unions
U = {'Frame': 'frame', 'DeliveryState': 'delivery-state', 'SaslFrameBody': 'sasl-frame-body', 'Outcome': 'outcome', 'Section': 'section'}
STOPU = [snake(t['name']) + x for t in T for x in ('_rest', '_val')]
for C, p in U.items():
    vs = [t for t in T if p in t.get('provides', [])]
    def venc(t, v):
        return f'{v}.enc()' if t['class'] == 'composite' else f'sect({t["code"]}, {v}.enc())'
    enc = ', '.join(f'{C}::{camel(t["name"])}(v) => {venc(t, "v")}' for t in vs)
    inv = ', '.join(f'{C}::{camel(t["name"])}(v) => v.inv()' for t in vs)
    if C == 'Frame':
        enc += ', Frame::Empty => Seq::empty()'; inv += ', Frame::Empty => true'
    k = f'{M}::Encode for {C}'
    f = snake(p)
    s(f'{OP}pub open spec fn {f}_uenc(u: {C}) -> Seq<u8> {{ match u {{ {enc} }} }}')
    s(f'{OP}pub open spec fn {f}_uinv(u: {C}) -> bool {{ match u {{ {inv} }} }}')
    w(f"""%impl {k}
open spec fn enc(&self) -> Seq<u8> {{ crate::vxp::{f}_uenc(*self) }}
open spec fn inv(&self) -> bool {{ crate::vxp::{f}_uinv(*self) }}""")
    encfns([(f'{k}::encode', 'self'), (f'{k}::encoded_size', 'self')], f'{f}_uenc {f}_uinv descr_enc')
    def drest(t, r):
        return f'{snake(t["name"])}_rest({r})' if t['class'] == 'composite' else f'<{rtype_name(t["source"])} as Decode>::drest1({r})'
    def dval(t, r, v):
        return f'{snake(t["name"])}_val({r}, {v})' if t['class'] == 'composite' else f'<{rtype_name(t["source"])} as Decode>::dval1({r}, {v})'
    s(f'{OP}pub open spec fn {f}_urest(s: Seq<u8>) -> Option<Seq<u8>> {{\n    let q = descr_rest1(s); let r = q.unwrap();\n    if q is None {{ None }}')
    for t in vs:
        s(f'    else if is_descr(s, {t["code"]}, {lit(t["descriptor"])}) {{ {drest(t, "r")} }}')
    s('    else { None }\n}')
    s(f'{OP}pub open spec fn {f}_uval(s: Seq<u8>, v: {C}) -> bool {{\n    let r = descr_rest1(s).unwrap();\n    match v {{')
    for t in vs:
        s(f'        {C}::{camel(t["name"])}(x) => is_descr(s, {t["code"]}, {lit(t["descriptor"])}) && {dval(t, "r", "x")},')
    if C == 'Frame': s('        Frame::Empty => false,')
    s('    }\n}')
    s(f'/// the descriptor names differ pairwise\npub proof fn {f}_names() ensures')
    prs = [(a['descriptor'], b['descriptor']) for i, a in enumerate(vs) for b in vs[:i]]
    s('    ' + ',\n    '.join(f'{lit(a)} != {lit(b)}' for a, b in prs) + ',\n{')
    for t in vs: s(f'    reveal_strlit("{t["descriptor"]}"); assert({lit(t["descriptor"])}.len() == {len(t["descriptor"])});')
    for a, b in prs:
        if len(a) == len(b):
            i = [i for i in range(len(a)) if a[i] != b[i]][0]
            s(f'    assert({lit(a)}[{i}] != {lit(b)}[{i}]);')
    s('}')
    if C == 'Frame':
        k = f'{M}::Decode for Frame'
        w(f'''%impl {k}
open spec fn drest1(s: Seq<u8>) -> Option<Seq<u8>> {{ if s.len() == 0 {{ Some(s) }} else if s[0] == 0 {{ crate::vxp::frame_urest(s.skip(1)) }} else {{ None }} }}
open spec fn dval1(s: Seq<u8>, v: Self) -> bool {{ if s.len() == 0 {{ v is Empty }} else {{ crate::vxp::frame_uval(s.skip(1), v) }} }}
%prologue {k}::decode
broadcast use crate::vx::group_dec;
{R('frame_urest frame_uval is_descr descr_rest1 descr_val rest1 val1', 'descr_rest', 'vbytes', 'u64_val', *STOPU)}
proof {{ crate::vxp::frame_names(); }}''')
    else:
        k = f'{M}::DecodeFormatted for {C}'
        w(f'''%impl {k}
open spec fn drest(s: Seq<u8>, fmt: u8) -> Option<Seq<u8>> {{ if fmt == 0 {{ crate::vxp::{f}_urest(s) }} else {{ None }} }}
open spec fn dval(s: Seq<u8>, fmt: u8, v: Self) -> bool {{ crate::vxp::{f}_uval(s, v) }}
%prologue {k}::decode_with_format
broadcast use crate::vx::group_dec;
{R(f'{f}_urest {f}_uval is_descr descr_rest1 descr_val rest1 val1', 'descr_rest', 'vbytes', 'u64_val', *STOPU)}
proof {{ crate::vxp::{f}_names(); }}''')
# the hand-written composites of protocol
k = 'protocol::Encode for MessageId'
w(f'''%impl {k}
open spec fn enc(&self) -> Seq<u8> {{ match *self {{ MessageId::Ulong(v) => v.enc(), MessageId::Uuid(v) => v.enc(), MessageId::Binary(v) => v.enc(), MessageId::String(v) => v.enc() }} }}
open spec fn inv(&self) -> bool {{ true }}
%prologue {k}::encode
assert(self.enc().len() <= u32::MAX);
%prologue {k}::encoded_size
assert(self.enc().len() <= u32::MAX);
%impl protocol::DecodeFormatted for MessageId
open spec fn drest(s: Seq<u8>, fmt: u8) -> Option<Seq<u8>> {{
    if fmt == 0x44 || fmt == 0x53 || fmt == 0x80 {{ crate::vx::u64_rest(s, fmt) }}
    else if fmt == 0x98 {{ crate::vx::fixed(s, 16) }}
    else if fmt == 0xa0 || fmt == 0xb0 {{ crate::vx::vrest_of(crate::vx::vbytes(0xa0, 0xb0, s, fmt)) }}
    else {{ crate::vx::srest(0xa1, 0xb1, s, fmt) }}
}}
open spec fn dval(s: Seq<u8>, fmt: u8, v: Self) -> bool {{
    match v {{
        MessageId::Ulong(x) => (fmt == 0x44 || fmt == 0x53 || fmt == 0x80) && x == crate::vx::u64_val(s, fmt),
        MessageId::Uuid(x) => fmt == 0x98 && x@ == s.take(16),
        MessageId::Binary(x) => (fmt == 0xa0 || fmt == 0xb0) && x@ == crate::vx::vbytes(0xa0, 0xb0, s, fmt).unwrap().0,
        MessageId::String(x) => (fmt == 0xa1 || fmt == 0xb1) && crate::vx::sval(0xa1, 0xb1, s, fmt, x@),
    }}
}}
%prologue protocol::DecodeFormatted for MessageId::decode_with_format
broadcast use crate::vx::group_dec;
{R('vbytes srest sval u64_rest fixed vrest_of fix_rest')}
%prologue protocol::DecodeFormatted for ErrorCondition::decode_with_format
{R('srest sval amqp_error_known connection_error_known session_error_known link_error_known', 'vbytes')}
%prologue protocol::DecodeFormatted for DistributionMode::decode_with_format
{R('srest sval', 'vbytes')}
%impl protocol::Encode for ErrorCondition
open spec fn enc(&self) -> Seq<u8> {{ match *self {{ ErrorCondition::AmqpError(v) => v.enc(), ErrorCondition::ConnectionError(v) => v.enc(), ErrorCondition::SessionError(v) => v.enc(), ErrorCondition::LinkError(v) => v.enc(), ErrorCondition::Custom(v) => v.enc() }} }}
open spec fn inv(&self) -> bool {{ true }}
%prologue protocol::Encode for ErrorCondition::encode
assert(self.enc().len() <= u32::MAX);
%prologue protocol::Encode for ErrorCondition::encoded_size
assert(self.enc().len() <= u32::MAX);
%impl protocol::DecodeFormatted for ErrorCondition
open spec fn drest(s: Seq<u8>, fmt: u8) -> Option<Seq<u8>> {{ crate::vx::srest(0xa3, 0xb3, s, fmt) }}
open spec fn dval(s: Seq<u8>, fmt: u8, v: Self) -> bool {{ crate::vx::sval(0xa3, 0xb3, s, fmt, crate::vxp::condition_str(v)) && crate::vxp::condition_ok(v) }}
%impl protocol::Encode for DistributionMode
open spec fn enc(&self) -> Seq<u8> {{ crate::vx::sym_enc(crate::vxp::dist_str(*self)) }}
open spec fn inv(&self) -> bool {{ true }}
%prologue protocol::Encode for DistributionMode::encode
broadcast use crate::vx::group_bytes;
proof {{ reveal(crate::vx::sym_enc); reveal(crate::vx::venc_bytes); }}
assert(self.enc().len() <= u32::MAX);
%prologue protocol::Encode for DistributionMode::encoded_size
broadcast use crate::vx::group_bytes;
proof {{ reveal(crate::vx::sym_enc); reveal(crate::vx::venc_bytes); }}
assert(self.enc().len() <= u32::MAX);
proof {{ reveal_strlit("move"); reveal_strlit("copy"); crate::vx::is_ascii_chars_encode_utf8("move"@); crate::vx::is_ascii_chars_encode_utf8("copy"@); }}
%impl protocol::DecodeFormatted for DistributionMode
open spec fn drest(s: Seq<u8>, fmt: u8) -> Option<Seq<u8>> {{ crate::vx::srest(0xa3, 0xb3, s, fmt) }}
open spec fn dval(s: Seq<u8>, fmt: u8, v: Self) -> bool {{ crate::vx::sval(0xa3, 0xb3, s, fmt, crate::vxp::dist_str(v)) && (v is Custom ==> crate::vxp::dist_str(v) != "move"@ && crate::vxp::dist_str(v) != "copy"@) }}
''')
s('''pub open spec fn dist_str(v: DistributionMode) -> Seq<char> {
    match v { DistributionMode::Move => "move"@, DistributionMode::Copy => "copy"@, DistributionMode::Custom(s) => s@ }
}
pub open spec fn condition_str(v: ErrorCondition) -> Seq<char> {
    match v {
        ErrorCondition::AmqpError(e) => amqp_error_code(e), ErrorCondition::ConnectionError(e) => connection_error_code(e),
        ErrorCondition::SessionError(e) => session_error_code(e), ErrorCondition::LinkError(e) => link_error_code(e),
        ErrorCondition::Custom(s) => s@,
    }
}
pub open spec fn condition_known(s: Seq<char>) -> bool {
    amqp_error_known(s) || connection_error_known(s) || session_error_known(s) || link_error_known(s)
}
pub open spec fn condition_ok(v: ErrorCondition) -> bool { v is Custom ==> !condition_known(condition_str(v)) }
''')
sptext = '\n'.join(sp)
import spec
D2 = spec.load([sptext])
D = {**spec.BASE, **D2}
def sub(m):
    ns = spec.closure(m.group(1), D, m.group(2).split())
    return 'proof { ' + ' '.join(f'reveal(crate::{"vxp" if n in D2 else "vx"}::{n});' for n in ns) + ' }' if ns else ''
outtext = re.sub('\x01(.*?)\x02(.*?)\x03', sub, '\n'.join(out))
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)) + '/lib')
import split as _split
open(os.environ.get('VBUILD', '/verif/build') + '/gen/32-perf.vc', 'w').write(_split.split(sptext + '\n%%\n' + outtext + '\n%%\n'))
