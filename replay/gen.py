#!/usr/bin/env python3
# writes src/perf.rs from the specification's type definitions (gen/amqp.json); run by hand, the result is committed
import json, os, re
here = os.path.dirname(os.path.abspath(__file__))
d = json.load(open(here + '/../gen/amqp.json'))
T = {x['name']: x for x in d}
def camel(s): return ''.join(p.capitalize() for p in re.split('[-_]', s))
def snake(s): return s.replace('-', '_')
o = ['// generated by gen.py from the definitions of the AMQP 1.0 specification', '#![allow(unused_variables)]',
     'use crate::av::{AVDefault, AV};', 'use crate::rng::Rng;', 'use crate::sample::Sample;', 'use amqp_codec::protocol::*;', '']
SRC = {'boolean': 'Bool', 'ubyte': 'U8', 'uint': 'U32', 'symbol': 'Sym', 'ushort': 'U16'}
def prim(t):
    while t in T and T[t]['class'] == 'restricted': t = T[t]['source']
    return t
for x in d:
    if x['class'] == 'restricted' and x.get('choice'):
        n = camel(x['name']); k = SRC[x['source']]
        val = (lambda v: f'AV::Sym("{v}".to_string())') if k == 'Sym' else (lambda v: f'AV::{k}({v})')
        o.append(f'impl Sample for {n} {{\n    fn gen(r: &mut Rng, _: u32) -> Self {{\n        match r.below({len(x["choice"])}) {{')
        for i, (c, v) in enumerate(x['choice']):
            o.append(f'            {i if i < len(x["choice"]) - 1 else "_"} => {n}::{camel(c)},')
        o.append('        }\n    }\n    fn av(&self) -> AV {\n        match self {')
        for c, v in x['choice']: o.append(f'            {n}::{camel(c)} => {val(v)},')
        o.append('        }\n    }\n}')
comps = [x for x in d if x['class'] == 'composite']
def dflt(f):
    if 'default' not in f: return 'None'
    t = prim(f['type']); v = f['default']
    tt = T.get(f['type'])
    if tt and tt.get('choice'): v = dict(map(tuple, tt['choice'])).get(v, v)
    k = SRC[t]
    return f'Some(AVDefault::Sym("{v}"))' if k == 'Sym' else f'Some(AVDefault::{k}({v}))'
for x in comps:
    n = camel(x['name']); fs = x.get('field', [])
    o.append(f'static D_{snake(x["name"]).upper()}: [Option<AVDefault>; {len(fs)}] = [{", ".join(dflt(f) for f in fs)}];')
    body = ', '.join(f'{snake(f["name"])}: Sample::gen(r, d + 1)' for f in fs)
    tail = x['name'] == 'transfer'
    if tail: body += ', body: if r.one_in(2) { None } else { Some(TransferBody::gen(r, d)) }'
    av = f'AV::Comp({x["code"]}, "{x["descriptor"]}", vec![{", ".join(f"self.{snake(f[chr(110)+chr(97)+chr(109)+chr(101)])}.av()" for f in fs)}], &D_{snake(x["name"]).upper()})'
    if tail: av = f'{{\n            let l = {av};\n            match &self.body {{\n                Some(b) => AV::Seq(vec![l, b.av()]),\n                None => l,\n            }}\n        }}'
    o.append(f'impl Sample for {n} {{\n    fn gen(r: &mut Rng, d: u32) -> Self {{\n        {n} {{ {body} }}\n    }}\n    fn av(&self) -> AV {{\n        {av}\n    }}\n}}')
def provided(p): return [x for x in d if x['class'] == 'composite' and p in (x.get('provides') or [])]
ENUMS = {'Frame': 'frame', 'SaslFrameBody': 'sasl-frame-body', 'Outcome': 'outcome', 'DeliveryState': 'delivery-state'}
for e, p in ENUMS.items():
    xs = provided(p); extra = e == 'Frame'
    o.append(f'impl Sample for {e} {{\n    fn gen(r: &mut Rng, d: u32) -> Self {{\n        match r.below({len(xs)}) {{')
    for i, x in enumerate(xs):
        o.append(f'            {i if i < len(xs) - 1 else "_"} => {e}::{camel(x["name"])}({camel(x["name"])}::gen(r, d)),')
    o.append('        }\n    }\n    fn av(&self) -> AV {\n        match self {')
    for x in xs: o.append(f'            {e}::{camel(x["name"])}(x) => x.av(),')
    if extra: o.append(f'            {e}::Empty => AV::Seq(vec![]),')
    o.append('        }\n    }\n}')
o.append('/// number of fields of the composite with this code\npub fn fields(code: u64) -> Option<usize> {\n    Some(match code {')
for x in comps: o.append(f'        {x["code"]} => {len(x.get("field", []))},')
o.append('        _ => return None,\n    })\n}\npub fn code(name: &str) -> Option<u64> {\n    Some(match name {')
for x in comps: o.append(f'        "{x["descriptor"]}" => {x["code"]},')
o.append('        _ => return None,\n    })\n}')
o.append('/// positions of the mandatory fields\npub fn mandatory(code: u64) -> &\'static [usize] {\n    match code {')
for x in comps:
    m = [i for i, f in enumerate(x.get('field', [])) if f.get('mandatory') == 'true']
    if m: o.append(f'        {x["code"]} => &{m},')
o.append('        _ => &[],\n    }\n}')
o.append('#[macro_export]\nmacro_rules! composites {\n    ($m:ident, $($a:tt)*) => { $m! { $($a)* ' + ', '.join('protocol::' + camel(x['name']) for x in comps) + ' } };\n}')
o.append('pub static CODES: &[u64] = &[' + ', '.join(str(x['code']) for x in comps) + '];')
o.append("impl<'a, T: Sample> Sample for &'a T {\n    fn gen(_: &mut Rng, _: u32) -> Self {\n        unreachable!()\n    }\n    fn av(&self) -> AV {\n        (**self).av()\n    }\n}")
o.append('pub fn getters(r: &mut Rng) -> Result<(), String> {\n    match r.below(%d) {' % len(comps))
for i, x in enumerate(comps):
    n = camel(x['name'])
    o.append(f'        {i if i < len(comps) - 1 else "_"} => {{\n            let v = {n}::gen(r, 1);')
    for f in x.get('field', []):
        g = snake(f['name'])
        o.append(f'            if v.{g}().av() != v.{g}.av() {{\n                return Err(format!("{n}::{g} of {{:?}} reports {{:?}}", v, v.{g}()));\n            }}')
    o.append('        }')
o.append('    }\n    Ok(())\n}')
restr = [x for x in d if x['class'] == 'restricted' and x.get('choice')]
o.append('/// the wire value of every choice of every closed restricted type\npub fn restricted() -> Vec<(&\'static str, Vec<AV>, Vec<String>)> {\n    vec![')
for x in restr:
    k = SRC[x['source']]
    vals = ', '.join((f'AV::Sym("{v}".to_string())' if k == 'Sym' else f'AV::{k}({v})') for c, v in x['choice'])
    names = ', '.join(f'"{camel(c)}".to_string()' for c, v in x['choice'])
    o.append(f'        ("{camel(x["name"])}", vec![{vals}], vec![{names}]),')
o.append('    ]\n}')
open(here + '/src/perf.rs', 'w').write('\n'.join(o) + '\n')
