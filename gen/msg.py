# contracts of message::{body, inmessage, outmessage} and protocol::TransferBody
import json
PROPS = 'message_id user_id to subject reply_to correlation_id content_type content_encoding absolute_expiry_time creation_time group_id group_sequence reply_to_group_id'.split()
out, sp = [], []
w = out.append
s = sp.append
s('''%root vxp
pub use crate::message::*;
// ------------------------------------------------------------------ messages (AMQP 1.0 part 3, section 3.2)
pub open spec fn properties0() -> Properties { Properties { ''' + ', '.join(f'{x}: None' for x in PROPS) + ''' } }
pub proof fn app7(o: Seq<u8>, a: Seq<u8>, b: Seq<u8>, c: Seq<u8>, d: Seq<u8>, e: Seq<u8>, f: Seq<u8>, g: Seq<u8>)
    ensures o + (a + (b + (c + (d + (e + (f + g)))))) == ((((((o + a) + b) + c) + d) + e) + f) + g,
{ assert(o + (a + (b + (c + (d + (e + (f + g)))))) =~= ((((((o + a) + b) + c) + d) + e) + f) + g); }
/// an optional section: described sections carry their own descriptor, the others are prefixed
#[verifier::opaque]
pub open spec fn own<T: Encode>(v: Option<T>) -> Seq<u8> { match v { Some(x) => x.enc(), None => Seq::empty() } }
#[verifier::opaque]
pub open spec fn osect<T: Encode>(code: u64, v: Option<T>) -> Seq<u8> { match v { Some(x) => sect(code, x.enc()), None => Seq::empty() } }
#[verifier::opaque]
pub open spec fn oinv<T: Encode>(v: Option<T>) -> bool { match v { Some(x) => x.inv(), None => true } }
pub broadcast proof fn sect_len(code: u64, b: Seq<u8>)
    requires 0 < code <= 255,
    ensures (#[trigger] sect(code, b)).len() == 3 + b.len(),
{ reveal(sect); reveal(u64_enc); }
pub broadcast proof fn sect_is(code: u64, b: Seq<u8>)
    requires 0 < code <= 255,
    ensures #[trigger] sect(code, b) == descr_enc(Descriptor::Ulong(code)) + b, descr_enc(Descriptor::Ulong(code)).len() == 3,
{ broadcast use group_bytes; reveal(sect); reveal(u64_enc); reveal(descr_enc); }
pub broadcast proof fn own_app<T: Encode>(o: Seq<u8>, v: Option<T>)
    ensures #[trigger] (o + own(v)) == (match v { Some(x) => o + x.enc(), None => o }), own(v).len() == (match v { Some(x) => x.enc().len(), None => 0 }),
{ reveal(own); if v is None { assert(o + Seq::<u8>::empty() =~= o); } }
pub broadcast proof fn osect_app<T: Encode>(o: Seq<u8>, code: u64, v: Option<T>)
    requires 0 < code <= 255,
    ensures #[trigger] (o + osect(code, v)) == (match v { Some(x) => (o + descr_enc(Descriptor::Ulong(code))) + x.enc(), None => o }),
        descr_enc(Descriptor::Ulong(code)).len() == 3,
        osect(code, v).len() == (match v { Some(x) => 3 + x.enc().len(), None => 0 }),
{
    reveal(osect);
    match v { Some(x) => { sect_is(code, x.enc()); assert(o + (descr_enc(Descriptor::Ulong(code)) + x.enc()) =~= (o + descr_enc(Descriptor::Ulong(code))) + x.enc()); }
        None => { sect_is(code, o); assert(o + Seq::<u8>::empty() =~= o); } }
}
pub broadcast proof fn nonempty_app(o: Seq<u8>, b: Seq<u8>)
    ensures #[trigger] (o + nonempty(b)) == (if b.len() == 0 { ((o + descr_enc(Descriptor::Ulong(117))) + b1(0xa0)) + b1(0) } else { o + b }),
        nonempty(b).len() == (if b.len() == 0 { 5 } else { b.len() }), descr_enc(Descriptor::Ulong(117)).len() == 3,
{
    reveal(nonempty); sect_is(117, b1(0xa0) + b1(0));
    assert(((o + descr_enc(Descriptor::Ulong(117))) + b1(0xa0)) + b1(0) =~= o + (descr_enc(Descriptor::Ulong(117)) + (b1(0xa0) + b1(0))));
}
pub broadcast group group_app { own_app, osect_app, nonempty_app }
/// what is sent for one element of a body
pub trait VxPart: Sized {
    spec fn part(&self) -> Seq<u8>;
    spec fn part_inv(&self) -> bool;
}
impl VxPart for Bytes {
    open spec fn part(&self) -> Seq<u8> { sect(117, venc_bytes(0xa0, 0xb0, self@)) }
    open spec fn part_inv(&self) -> bool { true }
}
impl VxPart for List {
    open spec fn part(&self) -> Seq<u8> { sect(118, self.enc()) }
    open spec fn part_inv(&self) -> bool { self.inv() }
}
impl VxPart for TransferBody {
    open spec fn part(&self) -> Seq<u8> { tb_part(*self) }
    open spec fn part_inv(&self) -> bool { tb_inv(*self) }
}
#[verifier::opaque]
pub open spec fn parts<T: VxPart>(s: Seq<T>) -> Seq<u8>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else { parts(s.drop_last()) + s.last().part() }
}
#[verifier::opaque]
pub open spec fn parts_inv<T: VxPart>(s: Seq<T>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).part_inv() }
pub proof fn parts_step<T: VxPart>(s: Seq<T>, i: int)
    requires 0 <= i < s.len(),
    ensures
        parts(s.take(i + 1)) == parts(s.take(i)) + s[i].part(),
        parts(s.take(i)).len() + s[i].part().len() <= parts(s).len(),
    decreases s.len(),
{
    reveal(parts);
    assert(s.take(i + 1).drop_last() =~= s.take(i));
    if i + 1 == s.len() {
        assert(s.take(i + 1) =~= s);
    } else {
        parts_step(s.drop_last(), i);
        assert(s.drop_last().take(i) =~= s.take(i));
    }
}
/// a nested message travels as a data section holding its encoding
#[verifier::opaque]
pub open spec fn tb_part(t: TransferBody) -> Seq<u8>
    decreases t, 1int,
{ sect(117, venc_bytes(0xa0, 0xb0, tb_enc(t))) }
#[verifier::opaque]
pub open spec fn tb_enc(t: TransferBody) -> Seq<u8>
    decreases t, 0int,
{
    match t { TransferBody::Data(d) => d@, TransferBody::MessageIn(m) => in_enc(m), TransferBody::MessageOut(m) => out_enc(m) }
}
#[verifier::opaque]
pub open spec fn mparts(s: Seq<TransferBody>) -> Seq<u8>
    decreases s, s.len(),
{
    if s.len() == 0 { Seq::empty() } else { mparts(s.drop_last()) + tb_part(s.last()) }
}
#[verifier::opaque]
pub open spec fn body_enc(b: MessageBody) -> Seq<u8>
    decreases b,
{ parts(b.data@) + (parts(b.sequence@) + (osect(119, b.value) + mparts(b.messages@))) }
pub broadcast proof fn parts_zero<T: VxPart>(s: Seq<T>, n: int)
    requires n == 0,
    ensures #[trigger] parts(s.take(n)) == Seq::<u8>::empty(),
{ reveal(parts); }
/// a message without body sends one empty data section
#[verifier::opaque]
pub open spec fn nonempty(b: Seq<u8>) -> Seq<u8> { if b.len() == 0 { sect(117, b1(0xa0) + b1(0)) } else { b } }
pub broadcast proof fn mparts_parts(s: Seq<TransferBody>)
    ensures #[trigger] mparts(s) == parts(s),
    decreases s.len(),
{
    reveal(parts); reveal(mparts); reveal(tb_part);
    if s.len() > 0 { mparts_parts(s.drop_last()); assert(s.last().part() == tb_part(s.last())); assert(parts(s) == parts(s.drop_last()) + s.last().part()); assert(mparts(s) == mparts(s.drop_last()) + tb_part(s.last())); }
}
#[verifier::opaque]
pub open spec fn tb_inv(t: TransferBody) -> bool
    decreases t, 0int,
{
    match t { TransferBody::Data(d) => true, TransferBody::MessageIn(m) => in_inv(m), TransferBody::MessageOut(m) => out_inv(m) }
}
#[verifier::opaque]
pub open spec fn body_inv(b: MessageBody) -> bool
    decreases b,
{
    &&& parts_inv(b.data@) && parts_inv(b.sequence@) && oinv(b.value)
    &&& forall|i: int| 0 <= i < b.messages@.len() ==> tb_inv(#[trigger] b.messages@[i])
}''')
B = 'message::body'
k = f'{B}::Encode for MessageBody'
w('%mod message::body\nuse crate::vxp::VxPart;')
w(f'''%impl {k}
open spec fn enc(&self) -> Seq<u8> {{ crate::vxp::body_enc(*self) }}
open spec fn inv(&self) -> bool {{ crate::vxp::body_inv(*self) }}
%fn {k}::encoded_size
decreases *self, 0int
%fn {k}::encode
decreases *self, 1int''')
for n in ('encode', 'encoded_size'):
    w(f'''%attr {k}::{n}
#[verifier::loop_isolation(false)]
%prologue {k}::{n}
broadcast use crate::vx::group_bytes, crate::vxp::sect_len, crate::vxp::sect_is, crate::vxp::mparts_parts, crate::vxp::parts_zero;
proof {{ reveal(crate::vxp::body_enc); reveal(crate::vxp::body_inv); reveal(crate::vxp::osect); reveal(crate::vxp::oinv); reveal(crate::vxp::tb_part); reveal(crate::vxp::parts_inv); reveal(crate::vx::venc_bytes); }}
assert(self.enc().len() <= u32::MAX);
assert(forall|i: int| 0 <= i < self.messages@.len() ==> #[trigger] self.messages@[i].part_inv() == crate::vxp::tb_inv(self.messages@[i]));
%before {k}::{n} #acc
let ghost vx_s0 = $A0;
%loop {k}::{n} #acc
invariant
    $i <= $c.len(),
    $A0 == vx_s0 + crate::vxp::parts($c@.take($i as int)).len(),
decreases $c.len() - $i,
%loopstart {k}::{n} #acc
proof {{ crate::vxp::parts_step($c@, $i as int); assert($c@[$i as int].part_inv()); }}
%before {k}::{n} #buf
let ghost vx_b0 = $buf@; let ghost vx_r0 = $buf.rem();
%loop {k}::{n} #buf
invariant
    $i <= $c.len(),
    $buf@ == vx_b0 + crate::vxp::parts($c@.take($i as int)),
    $buf.rem() >= vx_r0 - crate::vxp::parts($c@.take($i as int)).len(),
decreases $c.len() - $i,
%loopstart {k}::{n} #buf
proof {{ crate::vxp::parts_step($c@, $i as int); assert($c@[$i as int].part_inv()); }}''')
w(f'''%fn {B}::MessageBody::data
ensures match r {{ Some(vx_d) => self.data@.len() > 0 && *vx_d == self.data@[0], None => self.data@.len() == 0 }},
%fn {B}::MessageBody::value
ensures match r {{ Some(vx_d) => self.value == Some(*vx_d), None => self.value is None }},
%fn {B}::MessageBody::set_data
ensures final(self).data@ == seq![$p0], final(self).sequence == old(self).sequence, final(self).messages == old(self).messages, final(self).value == old(self).value,''')
k = 'protocol::Encode for TransferBody'
w(f'''%impl {k}
open spec fn enc(&self) -> Seq<u8> {{ crate::vxp::tb_enc(*self) }}
open spec fn inv(&self) -> bool {{ crate::vxp::tb_inv(*self) }}
%fn {k}::encoded_size
decreases *self, 0int
%fn {k}::encode
decreases *self, 1int
%prologue {k}::encode
proof {{ reveal(crate::vxp::tb_enc); reveal(crate::vxp::tb_inv);
    match self {{ TransferBody::MessageIn(m) => {{ assert(m.enc() == self.enc()); assert(m.inv()); }} TransferBody::MessageOut(m) => {{ assert(m.enc() == self.enc()); assert(m.inv()); }} _ => {{}} }} }}
assert(self.enc().len() <= u32::MAX);
%prologue {k}::encoded_size
proof {{ reveal(crate::vxp::tb_enc); reveal(crate::vxp::tb_inv);
    match self {{ TransferBody::MessageIn(m) => {{ assert(m.enc() == self.enc()); assert(m.inv()); }} TransferBody::MessageOut(m) => {{ assert(m.enc() == self.enc()); assert(m.inv()); }} _ => {{}} }} }}
assert(self.enc().len() <= u32::MAX);
%fn protocol::TransferBody::len
requires self.inv(), self.enc().len() <= u32::MAX,
ensures r == self.enc().len(),
%fn protocol::TransferBody::message_format
ensures r == (match *self {{ TransferBody::Data(v) => None, TransferBody::MessageIn(v) => v.message_format, TransferBody::MessageOut(v) => v.message_format }}),''')
for C, p, AP, ap in (('InMessage', 'in', 'HashMap<Str, Variant>', 'm.application_properties'), ('OutMessage', 'out', 'VecVariantMap', 'm.application_properties')):
    M = f'message::{C.lower()}'
    s(f'''#[verifier::opaque]
pub open spec fn {p}_enc(m: {C}) -> Seq<u8>
    decreases m,
{{
    own(m.header) + (osect(113, m.delivery_annotations) + (osect(114, m.message_annotations) + (own(m.properties)
    + (osect(116, m.application_properties) + (nonempty(body_enc(m.body)) + osect(120, m.footer))))))
}}
/// the encoding in the order it is appended, and its length
pub proof fn {p}_app_is(o: Seq<u8>, m: {C})
    ensures o + {p}_enc(m) == ((((((o + own(m.header)) + osect(113, m.delivery_annotations)) + osect(114, m.message_annotations)) + own(m.properties))
            + osect(116, m.application_properties)) + nonempty(body_enc(m.body))) + osect(120, m.footer),
        {p}_enc(m).len() == own(m.header).len() + osect(113, m.delivery_annotations).len() + osect(114, m.message_annotations).len() + own(m.properties).len()
            + osect(116, m.application_properties).len() + nonempty(body_enc(m.body)).len() + osect(120, m.footer).len(),
{{ reveal({p}_enc); reveal(body_enc); app7(o, own(m.header), osect(113, m.delivery_annotations), osect(114, m.message_annotations), own(m.properties), osect(116, m.application_properties), nonempty(body_enc(m.body)), osect(120, m.footer)); }}
/// everything except the cached size
#[verifier::opaque]
pub open spec fn {p}_parts_inv(m: {C}) -> bool
    decreases m, 0int,
{{
    oinv(m.header) && oinv(m.delivery_annotations) && oinv(m.message_annotations) && oinv(m.properties)
    && oinv(m.application_properties) && oinv(m.footer) && body_inv(m.body)
}}
#[verifier::opaque]
pub open spec fn {p}_inv(m: {C}) -> bool
    decreases m, 1int,
{{ {p}_parts_inv(m) && m.size.ok({p}_enc(m).len()) }}''')
    k = f'{M}::Encode for {C}'
    w(f'''%impl {M}::{C}
pub open spec fn vx_size(&self) -> nat {{ crate::vxp::{p}_enc(*self).len() }}
%impl {k}
open spec fn enc(&self) -> Seq<u8> {{ crate::vxp::{p}_enc(*self) }}
open spec fn inv(&self) -> bool {{ crate::vxp::{p}_inv(*self) }}
%fn {k}::encoded_size
decreases *self, 0int
%fn {k}::encode
decreases *self, 1int''')
    for n in ('encode', 'encoded_size'):
        w(f'''%prologue {k}::{n}
broadcast use crate::vxp::group_app;
proof {{ reveal(crate::vxp::{p}_inv); reveal(crate::vxp::{p}_parts_inv); reveal(crate::vxp::oinv);
    assert(self.body.inv()); assert(self.body.enc() == crate::vxp::body_enc(self.body));
    crate::vxp::{p}_app_is({'$buf@' if n == 'encode' else 'Seq::empty()'}, *self); }}
assert(self.enc().len() <= u32::MAX);''')
    # builder calls and accessors: exactly the named part changes, the cached size stays current (P12, P20)
    T = f'{M}::{C}'
    FRESH = 'r.size.ok(r.vx_size())'
    OLD = 'self.size.ok(self.vx_size())'
    def upd(**kw): return f'{C} {{ ' + ', '.join(f'{a}: {b}' for a, b in kw.items()) + ', size: r.size, ..self }'
    BODY0 = 'r.body.sequence@.len() == 0, r.body.value is None'
    NONE = ', '.join(f'r.{x} is None' for x in 'message_format header delivery_annotations message_annotations properties application_properties footer'.split())
    props0 = 'Properties { ' + ', '.join(f'{x}: None' for x in PROPS) + ' }'
    w(f'''%mod {M}
impl vstd::std_specs::cmp::PartialEqSpecImpl for {C} {{
    open spec fn obeys_eq_spec() -> bool {{ true }}
    open spec fn eq_spec(&self, o: &Self) -> bool {{
        {' && '.join(f'vstd::std_specs::cmp::PartialEqSpec::eq_spec(&self.{x}, &o.{x})' for x in 'message_format header delivery_annotations message_annotations properties application_properties footer body'.split())}
    }}
}}
%fn {T}::with_body
ensures r.body.data@ == seq![$p0], r.body.messages@.len() == 0, {BODY0}, {NONE}, {FRESH},
%fn {T}::with_messages
ensures r.body.messages@ == $p0@, r.body.data@.len() == 0, {BODY0}, {NONE}, {FRESH},
%fn {T}::header
ensures r == (match self.header {{ Some(vx_h) => Some(&vx_h), None => None }}),
%fn {T}::properties
ensures r == (match self.properties {{ Some(vx_h) => Some(&vx_h), None => None }}),
%fn {T}::body
ensures *r == self.body,
%fn {T}::value
ensures r == (match self.body.value {{ Some(vx_h) => Some(&vx_h), None => None }}),
%fn {T}::set_header
ensures r == ({upd(header='Some($p0)')}), {FRESH},
%fn {T}::set_value
ensures exists|vx_v: Variant| #[trigger] call_ensures(V::into, ($p0,), vx_v) && r == ({upd(body='MessageBody { value: Some(vx_v), ..self.body }')}),
    {FRESH},
%fn {T}::set_body
requires forall|vx_q: &mut MessageBody| $p0.requires((vx_q,)),
ensures exists|vx_q: &mut MessageBody| #[trigger] $p0.ensures((vx_q,), ()) && *vx_q == self.body && r == ({upd(body='*final(vx_q)')}),
    {FRESH},
%fn {T}::set_properties
requires forall|vx_q: &mut Properties| $p0.requires((vx_q,)),
ensures exists|vx_q: &mut Properties| #[trigger] $p0.ensures((vx_q,), ()) && (match self.properties {{ Some(vx_p) => *vx_q == vx_p, None => *vx_q == crate::vxp::properties0() }})
        && r == ({upd(properties='Some(*final(vx_q))')}),
    {FRESH},
%fn {T}::update
requires {OLD}, forall|vx_x: {C}| $p0.requires((vx_x,)),
    forall|vx_x: {C}, vx_y: {C}| vx_x.size.ok(vx_x.vx_size()) && #[trigger] $p0.ensures((vx_x,), vx_y) ==> vx_y.size.ok(vx_y.vx_size()),
ensures exists|vx_x: {C}| #[trigger] $p0.ensures((vx_x,), r) && vx_x == ({C} {{ size: vx_x.size, ..self }}), {FRESH},
%fn {T}::if_some
requires {OLD}, forall|vx_x: {C}, vx_t: &T| $p1.requires((vx_x, vx_t)),
    forall|vx_x: {C}, vx_t: &T, vx_y: {C}| vx_x.size.ok(vx_x.vx_size()) && #[trigger] $p1.ensures((vx_x, vx_t), vx_y) ==> vx_y.size.ok(vx_y.vx_size()),
ensures match *$p0 {{
        Some(vx_t) => exists|vx_x: {C}| #[trigger] $p1.ensures((vx_x, &vx_t), r) && vx_x == ({C} {{ size: vx_x.size, ..self }}),
        None => r == ({C} {{ size: r.size, ..self }}) }}, {FRESH},
%prologue {T}::vx_none'''.replace('\n%prologue ' + T + '::vx_none', ''))
    for n in 'set_header set_value set_body set_properties update if_some'.split():
        w(f'''%prologue {T}::{n}
broadcast use crate::vxp::{p}_size_free;''')
    s(f'''/// the encoding does not depend on the cached size (nor on the out-of-band message format)
pub broadcast proof fn {p}_size_free(m: {C}, k: {C})
    requires m == ({C} {{ size: m.size, ..k }}),
    ensures #![trigger {p}_enc(m), {p}_enc(k)] {p}_enc(m) == {p}_enc(k),
{{ reveal({p}_enc); }}''')
    if p == 'in':
        w(f'''%fn {T}::app_property
ensures match r {{
    Some(vx_v) => self.application_properties is Some && exists|i: int| 0 <= i < self.application_properties->0.items().len()
        && self.application_properties->0.items()[i].0@ == $p0@ && #[trigger] self.application_properties->0.items()[i].1 == *vx_v,
    None => self.application_properties is None || forall|i: int| 0 <= i < self.application_properties->0.items().len()
        ==> (#[trigger] self.application_properties->0.items()[i]).0@ != $p0@ }},
%fn {T}::set_app_property
ensures exists|vx_k: Str, vx_v: Variant| #[trigger] call_ensures(K::into, ($p0,), vx_k) && #[trigger] call_ensures(V::into, ($p1,), vx_v)
        && r.application_properties is Some
        && r.application_properties->0.log() == (match self.application_properties {{ Some(vx_m) => vx_m.log(), None => Seq::empty() }}).push((vx_k, vx_v)),
    r == ({upd(application_properties='r.application_properties')}), {FRESH},''')
    else:
        w(f'''%fn {T}::app_properties
ensures r == (match self.application_properties {{ Some(vx_h) => Some(&vx_h), None => None }}),
%fn {T}::set_app_property
ensures exists|vx_k: Str, vx_v: Variant| #[trigger] call_ensures(K::into, ($p0,), vx_k) && #[trigger] call_ensures(V::into, ($p1,), vx_v)
        && r.application_properties is Some
        && r.application_properties.unwrap().0@ == (match self.application_properties {{ Some(vx_m) => vx_m.0@, None => Seq::empty() }}).push((vx_k, vx_v)),
    r == ({upd(application_properties='r.application_properties')}), {FRESH},''')
    w(f'''%fn {T}::reply_message
ensures r.properties is Some <==> self.properties is Some,
    r.properties is Some ==> r.properties->0.correlation_id == self.properties->0.message_id,
    r.body.data@.len() == 0, r.body.messages@.len() == 0, {BODY0}, r.message_format is None, r.header is None,
    r.delivery_annotations is None, r.message_annotations is None, r.application_properties is None, r.footer is None,
    r.properties is Some ==> r.properties->0 == (Properties {{ correlation_id: self.properties->0.message_id, ..crate::vxp::properties0() }}),
    {FRESH},
%closure {T}::reply_message 0
OutMessage; &Properties -> (vx_r: OutMessage)
ensures vx_r.size.ok(vx_r.vx_size()), vx_r == (OutMessage {{ properties: vx_r.properties, size: vx_r.size, ..$c0 }}), vx_r.properties is Some,
    vx_r.properties->0 == (Properties {{ correlation_id: $c1.message_id, ..(match $c0.properties {{ Some(vx_p) => vx_p, None => crate::vxp::properties0() }}) }})
%closure {T}::reply_message 1
&mut Properties -> (vx_r: ())
ensures *final($c0) == (Properties {{ correlation_id: $o1.message_id, ..*old($c0) }})''')
    # decoding: sections until the end of the input
    k = f'{M}::Decode for {C}'
    s(f'''#[verifier::opaque]
pub open spec fn {p}_rest(s: Seq<u8>) -> Option<Seq<u8>>
    decreases s.len(),
{{
    match <Section as Decode>::drest1(s) {{
        Some(r) => if r.len() == 0 {{ Some(r) }} else if r.len() < s.len() {{ {p}_rest(r) }} else {{ None }},
        None => None,
    }}
}}
/// the next section is `sec`
pub open spec fn {p}_step(a: MsgV, sec: Section) -> MsgV {{
    match sec {{
        Section::Header(v) => MsgV {{ header: Some(v), ..a }},
        Section::DeliveryAnnotations(v) => MsgV {{ da: Some(v), ..a }},
        Section::MessageAnnotations(v) => MsgV {{ ma: Some(v), ..a }},
        Section::Properties(v) => MsgV {{ properties: Some(v), ..a }},
        Section::ApplicationProperties(v) => MsgV {{ {('ap: Some(v)', 'apv: Some(v.items())')[p == 'out']}, ..a }},
        Section::Footer(v) => MsgV {{ footer: Some(v), ..a }},
        Section::Data(v) => MsgV {{ data: a.data.push(v), ..a }},
        Section::AmqpSequence(v) => MsgV {{ sequence: a.sequence.push(v), ..a }},
        Section::AmqpValue(v) => MsgV {{ value: Some(v), ..a }},
    }}
}}
pub open spec fn {p}_view(m: {C}) -> MsgV {{
    MsgV {{ message_format: m.message_format, header: m.header, da: m.delivery_annotations, ma: m.message_annotations, properties: m.properties,
        {('ap: m.application_properties, apv: None', 'ap: None, apv: match m.application_properties { Some(v) => Some(v.0@), None => None }')[p == 'out'].replace('{', '{{').replace('}', '}}') if False else ('ap: m.application_properties, apv: None', 'ap: None, apv: match m.application_properties { Some(v) => Some(v.0@), None => None }')[p == 'out']},
        footer: m.footer, data: m.body.data@, sequence: m.body.sequence@, messages: m.body.messages@, value: m.body.value }}
}}
/// `f` is `a` with the sections of `s` added
#[verifier::opaque]
pub open spec fn {p}_fold(s: Seq<u8>, a: MsgV, f: MsgV) -> bool
    decreases s.len(),
{{
    match <Section as Decode>::drest1(s) {{
        Some(r) => exists|sec: Section| #[trigger] <Section as Decode>::dval1(s, sec)
            && (if r.len() == 0 {{ f == {p}_step(a, sec) }} else {{ r.len() < s.len() && {p}_fold(r, {p}_step(a, sec), f) }}),
        None => false,
    }}
}}
pub open spec fn {p}_val(s: Seq<u8>, m: {C}) -> bool {{ {p}_fold(s, msg0(), {p}_view(m)) && (forall|n: nat| #[trigger] m.size.ok(n)) }}''')
    if p == 'in':
        s('''pub ghost struct MsgV {
    pub message_format: Option<u32>, pub header: Option<Header>, pub da: Option<Annotations>, pub ma: Option<Annotations>,
    pub properties: Option<Properties>, pub ap: Option<StringVariantMap>, pub apv: Option<Seq<(Str, Variant)>>, pub footer: Option<Annotations>,
    pub data: Seq<Bytes>, pub sequence: Seq<List>, pub messages: Seq<TransferBody>, pub value: Option<Variant>,
}
pub open spec fn msg0() -> MsgV {
    MsgV { message_format: None, header: None, da: None, ma: None, properties: None, ap: None, apv: None, footer: None,
        data: Seq::empty(), sequence: Seq::empty(), messages: Seq::empty(), value: None }
}''')
    w(f'''%impl {k}
open spec fn drest1(s: Seq<u8>) -> Option<Seq<u8>> {{ crate::vxp::{p}_rest(s) }}
open spec fn dval1(s: Seq<u8>, v: Self) -> bool {{ crate::vxp::{p}_val(s, v) }}
%prologue {k}::decode
proof {{ reveal(crate::vxp::{p}_rest); }}
%fn {k.replace('Decode for', 'Default for')}::default
ensures r == ({C} {{ message_format: None, header: None, delivery_annotations: None, message_annotations: None, properties: None, application_properties: None, footer: None, body: r.body, size: r.size }}),
    r.body.data@.len() == 0, r.body.sequence@.len() == 0, r.body.messages@.len() == 0, r.body.value is None,
    forall|n: nat| r.size.ok(n),
%before {k}::decode *
proof {{ let m = crate::vxp::{p}_view($M0); let z = crate::vxp::msg0(); assert(m.data =~= z.data); assert(m.sequence =~= z.sequence); assert(m.messages =~= z.messages); assert(m == z); }}
%loop {k}::decode *
invariant
    crate::vxp::{p}_rest(vx_in) == crate::vxp::{p}_rest($A0@),
    forall|f: crate::vxp::MsgV| #[trigger] crate::vxp::{p}_fold($A0@, crate::vxp::{p}_view($M0), f) ==> crate::vxp::{p}_fold(vx_in, crate::vxp::msg0(), f),
    $A0@.len() > 0 || vx_in.len() == 0,
    $A0@.len() <= vx_in.len(),
    forall|n: nat| #[trigger] $M0.size.ok(n),
decreases $A0@.len(),
%loopstart {k}::decode *
let ghost vx_s1 = $A0@;
let ghost vx_v1 = crate::vxp::{p}_view($M0);
proof {{
    let r = <crate::vxp::Section as Decode>::drest1(vx_s1);
    reveal(crate::vxp::{p}_fold);
    if r is Some {{
        let r = r.unwrap();
        assert forall|sec: crate::vxp::Section| r.len() == 0 && #[trigger] <crate::vxp::Section as Decode>::dval1(vx_s1, sec)
            implies crate::vxp::{p}_fold(vx_in, crate::vxp::msg0(), crate::vxp::{p}_step(vx_v1, sec)) by {{
            assert(crate::vxp::{p}_fold(vx_s1, vx_v1, crate::vxp::{p}_step(vx_v1, sec)));
        }}
        assert forall|sec: crate::vxp::Section, x: crate::vxp::MsgV, f: crate::vxp::MsgV| 0 < r.len() < vx_s1.len() && #[trigger] <crate::vxp::Section as Decode>::dval1(vx_s1, sec)
            && x == crate::vxp::{p}_step(vx_v1, sec) && #[trigger] crate::vxp::{p}_fold(r, x, f)
            implies crate::vxp::{p}_fold(vx_in, crate::vxp::msg0(), f) by {{
            assert(crate::vxp::{p}_fold(vx_s1, vx_v1, f));
        }}
    }}
}}''')
w('''%fn protocol::Default for Properties::default
ensures r == crate::vxp::properties0(),
%fn message::body::Default for MessageBody::default
ensures r.data@.len() == 0, r.sequence@.len() == 0, r.messages@.len() == 0, r.value is None,''')
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)) + '/lib')
import split as _split
open(os.environ.get('VBUILD', '/verif/build') + '/gen/33-msg.vc', 'w').write(_split.split('\n'.join(sp) + '\n%%\n' + '\n'.join(out) + '\n%%\n'))
