# contracts of codec::encode and codec::{Encode, ArrayEncode}
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
from spec import reveals
out = []
def w(s): out.append(s)

w('''%trait codec::Encode
spec fn enc(&self) -> Seq<u8>;
spec fn inv(&self) -> bool;
%fn codec::Encode::encoded_size
requires self.inv(), self.enc().len() <= u32::MAX,
ensures r == self.enc().len(),
%fn codec::Encode::encode
requires self.inv(), self.enc().len() <= u32::MAX, old($p0).rem() >= self.enc().len(),
ensures final($p0)@ == old($p0)@ + self.enc(), final($p0).rem() >= old($p0).rem() - self.enc().len(),
%trait codec::ArrayEncode
spec fn aenc(&self) -> Seq<u8>;
spec fn ainv(&self) -> bool;
/// constructor of the elements (AMQP 1.0 part 1, section 1.6)
spec fn acode() -> u8;
proof fn code_ok() ensures Self::ARRAY_FORMAT_CODE == Self::acode();
%fn codec::ArrayEncode::array_encoded_size
requires self.ainv(), self.aenc().len() <= u32::MAX,
ensures r == self.aenc().len(),
%fn codec::ArrayEncode::array_encode
requires self.ainv(), self.aenc().len() <= u32::MAX, old($p0).rem() >= self.aenc().len(),
ensures final($p0)@ == old($p0)@ + self.aenc(), final($p0).rem() >= old($p0).rem() - self.aenc().len(),
%impl codec::encode::Encode for T
open spec fn enc(&self) -> Seq<u8> { b1(T::acode()) + self.aenc() }
open spec fn inv(&self) -> bool { self.ainv() }
''')
def fns(key, names, e='', stop=()):
    a = 'aenc' if 'array' in names[0] else 'enc'
    for n in names:
        w(f'%prologue {key}::{n}\nbroadcast use group_bytes;\n{reveals(e, stop=stop)}\nassert(self.{a}().len() <= u32::MAX);')
STOP = ['aflat', 'pflat', 'vflat', 'vpflat']
def enc(ty, e, inv='true', rec=None, stop=STOP):
    k = f'codec::encode::Encode for {ty}'
    w(f'%impl {k}\nopen spec fn enc(&self) -> Seq<u8> {{ {e} }}\nopen spec fn inv(&self) -> bool {{ {inv} }}')
    fns(k, ['encode', 'encoded_size'], e + inv, stop)
    if rec is not None:
        w(f'%fn {k}::encode\ndecreases {rec}')
        w(f'%fn {k}::encoded_size\ndecreases {rec}')
ACODE = {'bool': 0x56, 'u8': 0x50, 'u16': 0x60, 'u32': 0x70, 'u64': 0x80, 'i8': 0x51, 'i16': 0x61, 'i32': 0x71, 'i64': 0x81, 'f32': 0x72,
         'f64': 0x82, 'char': 0x73, 'DateTime<Utc>': 0x83, 'Uuid': 0x98, 'Bytes': 0xb0, 'ByteStr': 0xb1, 'str': 0xb1, 'Symbol': 0xb3, 'HashMap<K,V>': 0xd1}
def aenc(ty, e, inv='true'):
    k = f'codec::encode::ArrayEncode for {ty}'
    w(f'%impl {k}\nopen spec fn aenc(&self) -> Seq<u8> {{ {e} }}\nopen spec fn ainv(&self) -> bool {{ {inv} }}\nopen spec fn acode() -> u8 {{ {ACODE[ty]} }}\nproof fn code_ok() {{ }}')
    fns(k, ['array_encode', 'array_encoded_size'], e + inv, STOP)
fns('codec::encode::Encode for T', ['encode', 'encoded_size'])
for n in ('encode', 'encoded_size'):
    for k in ('T', 'Vec<T>'): w(f'%prologue codec::encode::Encode for {k}::{n}\nproof {{ T::code_ok(); }}')

enc('bool', 'bool_enc(*self)')
aenc('bool', 'b1(if *self { 1 } else { 0 })')
aenc('u8', 'b1(*self)')
aenc('u16', 'be16(*self)')
enc('u32', 'u32_enc(*self)'); aenc('u32', 'be32(*self)')
enc('u64', 'u64_enc(*self)'); aenc('u64', 'be64(*self)')
aenc('i8', 'b1(*self as u8)')
aenc('i16', 'be16(*self as u16)')
enc('i32', 'i32_enc(*self)'); aenc('i32', 'be32(*self as u32)')
enc('i64', 'i64_enc(*self)'); aenc('i64', 'be64(*self as u64)')
aenc('f32', 'be32(f32_bits(*self))')
aenc('f64', 'be64(f64_bits(*self))')
aenc('char', 'be32(*self as u32)')
aenc('DateTime<Utc>', 'ts_enc(*self)')
aenc('Uuid', 'self@')
enc('Bytes', 'venc_bytes(0xa0, 0xb0, self@)'); aenc('Bytes', 'be32(self@.len() as u32) + self@')
enc('ByteStr', 'str_enc(self@)'); aenc('ByteStr', 'be32(utf8_enc(self@).len() as u32) + utf8_enc(self@)')
enc('str', 'str_enc(self@)'); aenc('str', 'be32(utf8_enc(self@).len() as u32) + utf8_enc(self@)')
enc('Str', 'str_enc(self@)')
enc('Symbol', 'sym_enc(self@)'); aenc('Symbol', 'be32(utf8_enc(self@).len() as u32) + utf8_enc(self@)')
enc('StaticSymbol', 'sym_enc(self.0@)')
enc('Descriptor', 'descr_enc(*self)')
enc('Option<T>', 'opt_enc(*self)', 'opt_inv(*self)')

def loops(key, names, flat, items, itemlens):
    """fold loops add up sizes, write loops append elements"""
    for n in names:
        k = f'{key}::{n}'
        w(f'''%loop {k} #acc
invariant
    $i <= $c.len(),
    $c@ == {items},
    $A0 == {flat}($c@.take($i as int)).len(),
decreases $c.len() - $i,
%loopstart {k} #acc
proof {{ {flat}_step($c@, $i as int); }}
%before {k} #buf
let ghost vx_b0 = $buf@; let ghost vx_r0 = $buf.rem();
%loop {k} #buf
invariant
    $i <= $c.len(),
    $c@ == {items},
    $buf@ == vx_b0 + {flat}($c@.take($i as int)),
    $buf.rem() >= vx_r0 - {flat}($c@.take($i as int)).len(),
decreases $c.len() - $i,
%loopstart {k} #buf
proof {{ {flat}_step($c@, $i as int); }}''')

K = 'codec::encode::Encode for HashMap<K,V,S>'
enc('HashMap<K,V,S>', 'cenc(0xc1, 0xd1, 2 * self.items().len(), pflat(self.items()))', 'pairs_inv(self.items())')
loops(K, ['encode', 'encoded_size'], 'pflat', 'self.items()', 2)
K = 'codec::encode::ArrayEncode for HashMap<K,V>'
aenc('HashMap<K,V>', 'be32((pflat(self.items()).len() + 4) as u32) + (be32((2 * self.items().len()) as u32) + pflat(self.items()))', 'pairs_inv(self.items())')
loops(K, ['array_encode', 'array_encoded_size'], 'pflat', 'self.items()', 2)
K = 'codec::encode::Encode for VecVariantMap'
enc('VecVariantMap', 'cenc(0xc1, 0xd1, 2 * self.0@.len(), pflat(self.0@))')
loops(K, ['encode', 'encoded_size'], 'pflat', 'self.0@', 2)
for n in ('encode', 'encoded_size'): w(f'%prologue {K}::{n}\nproof {{ crate::vx::svflat_len(self.0@); }}')

K = 'codec::encode::Encode for Vec<T>'
enc('Vec<T>', 'arenc(T::acode(), self@.len(), aflat(self@))', 'vec_inv(self@)')
loops(K, ['encode', 'encoded_size'], 'aflat', 'self@', 1)
enc('Multiple<T>', 'mul_enc(*self)', 'mul_inv(*self)')
# frames: 8-byte header (size, data offset 2, type, channel) and body
FR = "frame_enc({t}, {c}, {b}.enc())"
enc('AmqpFrame', FR.format(b='self.performative', t=0, c='self.channel_id'), 'self.performative.inv()')
enc('SaslFrame', FR.format(b='self.body', t=1, c='0'), 'self.body.inv()')
# recursive part
K = 'codec::encode::Encode for List'
enc('List', 'cenc(0xc0, 0xd0, self.0@.len(), vflat(self.0@))', rec='self.0@, 1int')
loops(K, ['encode', 'encoded_size'], 'vflat', 'self.0@', 1)
K = 'codec::encode::Encode for HashMapVV'
enc('HashMapVV', 'cenc(0xc1, 0xd1, 2 * self.items().len(), vpflat(self.items()))', rec='self.items(), 1int')
loops(K, ['encode', 'encoded_size'], 'vpflat', 'self.items()', 2)
enc('Variant', 'venc(*self)', rec='*self, 1int', stop=STOP + 'u32_enc u64_enc i32_enc i64_enc bool_enc sym_enc str_enc venc_bytes cenc descr_enc be16'.split())
for n in ('encode', 'encoded_size'):
    w(f'''%prologue codec::encode::Encode for Variant::{n}
proof {{ match self {{ Variant::List(l) => {{ assert(l.enc().len() >= 0); assert(l.inv()); }} Variant::Map(m) => {{ assert(m.map.inv()); }} Variant::Described(d) => {{ assert(d.0.inv()); assert(d.1.inv()); }} _ => {{}} }} }}''')
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)) + '/lib')
import split as _split
open(os.environ.get('VBUILD', '/verif/build') + '/gen/30-encode.vc', 'w').write(_split.split('\n'.join(out) + '\n%%\n'))
