%root canary
// Every function of this module claims something false on the strength of the assumed contracts alone. The verifier
// has to refuse each one: a canary it accepts means that the trusted base is contradictory.
use vstd::prelude::*;
use core::ops::Deref;
use vstd::std_specs::cmp::*;
use crate::model::*;
use crate::types::*;
use crate::vx::*;
broadcast use crate::vx::group_bytes, crate::vx::group_dec, crate::vxp::group_app;

pub proof fn c_groups() ensures false { }
pub proof fn c_utf8(b: Seq<u8>, c: Seq<char>) requires utf8_ok(b), ensures false {
    utf8_inverse(b); utf8_inverse2(c); utf8_inverse2(utf8_dec(b));
}
pub proof fn c_floats(a: f32, b: f32, c: f64, d: f64) ensures false { f32_bits_inj(a, b); f64_bits_inj(c, d); }
pub proof fn c_bounds<T>(a: &str, s: String<T>) ensures false { str_bound(a); string_bound(s); }
pub proof fn c_uuid(a: Uuid, b: Uuid) ensures false { uuid_len(a); uuid_len(b); uuid_ext(a, b); }
pub proof fn c_time(a: DateTime<Utc>, b: DateTime<Utc>) ensures false { dt_range(a); dt_range(b); dt_ext(a, b); }
pub proof fn c_order(a: &str, b: &str, c: &str) ensures false {
    crate::types::axiom_str_obeys(); crate::types::axiom_str_cmp(a, b); crate::types::axiom_str_cmp(b, c); crate::types::axiom_str_cmp(a, c);
    crate::types::axiom_str_cmp(b, a); crate::types::axiom_str_cmp(c, a); crate::types::axiom_str_cmp(c, b);
}
pub fn c_buf(b: &mut BytesMut, f: f32, g: f64, s: &[u8]) ensures false {
    b.reserve(64);
    b.put_u8(1); b.put_i8(-1); b.put_u16_be(2); b.put_i16_be(-2); b.put_u32_be(3); b.put_i32_be(-3); b.put_u64_be(4); b.put_i64_be(-4);
    b.put_f32_be(f); b.put_f64_be(g);
    b.put_u16_le(2); b.put_u32_le(2); b.put_u64_le(2);
    b.extend_from_slice(s);
    let n = b.len();
    if n > 3 { let mut c = b.split_to(2); b.advance(1); c.truncate(1); let d = c.take(); let e = d.freeze(); let f = e.clone(); let r = f.deref(); let _ = r.len(); }
    if b.remaining_mut() >= s.len() { b.put_slice(s); }
    let _ = b.is_empty();
    b.clear();
    let r = b.as_ref();
    let _ = r.len();
}
pub fn c_read(b: &[u8]) requires b@.len() >= 8, ensures false {
    let _ = BigEndian::read_u16(b); let _ = BigEndian::read_u32(b); let _ = BigEndian::read_u64(b);
    let _ = BigEndian::read_i16(b); let _ = BigEndian::read_i32(b); let _ = BigEndian::read_i64(b);
    let _ = BigEndian::read_f32(b); let _ = BigEndian::read_f64(b);
}
pub fn c_text(b: &[u8], t: &str, x: u32, y: Bytes) ensures false {
    let _ = from_utf8(b); let _ = char_from_u32(x);
    let s = String::<Bytes>::from_str(t); let _ = s.deref(); let u = s.clone();
    let _ = String::<Bytes>::try_from(y);
    let z = Bytes::from(b); let _ = z.len(); let _ = z.is_empty(); let e = Bytes::new(); let _ = e.as_ref();
}
pub fn c_uuid_exec(b: &[u8]) ensures false {
    match Uuid::from_slice(b) { Ok(u) => { let _ = u.as_bytes(); } Err(_) => {} }
}
pub fn c_chrono(d: DateTime<Utc>, s: i64, n: u32, m: i64) ensures false {
    let a = d.timestamp(); let b = d.timestamp_subsec_millis(); let c = d.timestamp_subsec_micros(); let e = d.timestamp_subsec_nanos();
    let f = d.timestamp_millis();
    let g = Utc.timestamp_opt(s, n).single();
    let h = Utc.timestamp_millis_opt(m).single();
    let i = Utc.timestamp_opt(a, e).single();
}
pub fn c_map(k: Str, l: Str, v: Variant, w: Variant, t: &str) ensures false {
    let mut m: HashMap<Str, Variant> = HashMap::new();
    m.insert(k, v); m.insert(l, w);
    let _ = m.len(); let _ = m.is_empty(); let r = m.get(t); let c = m.clone();
    let i = c.vx_iter(); let x = c.vx_into_vec();
    let e: HashMap<Str, Variant> = HashMap::vx_with_capacity(0, Ghost(0)); let _ = e.len();
}
pub fn c_mapvv(k: Variant, l: Variant, v: Variant, w: Variant) ensures false {
    let mut m = HashMapVV::new();
    m.insert(k, v); m.insert(l, w);
    let _ = m.len(); let _ = m.is_empty(); let c = m.clone(); let _ = c.vx_iter();
    let e = HashMapVV::vx_with_capacity(0, Ghost(0)); let _ = e.len();
}
pub fn c_cell(n: Ghost<nat>, v: usize) requires v == n@, ensures false {
    let mut c: Cell<usize> = Cell::new(0);
    let _ = c.vx_get(n); c.vx_set(v, n); let _ = c.vx_get(n);
    c.vx_set_owned(0); let d = c.clone(); let _ = d.vx_get(n); let e: Cell<usize> = Cell::vx_default(); let _ = e.vx_get(n);
}
pub fn c_eq(a: String<Bytes>, b: String<Bytes>, c: Bytes, d: Bytes, s: &str, m: HashMap<Str, Variant>, n: HashMap<Str, Variant>) ensures false {
    let _ = a == b; let _ = a.eq(s); let _ = c == d; let _ = m == n;
}
pub fn c_conv(a: u8, b: u16, c: u32, d: u64, e: bool, f: char) ensures false {
    let _ = i16::from(a); let _ = i32::from(a); let _ = i64::from(a); let _ = i128::from(a); let _ = isize::from(a);
    let _ = i32::from(b); let _ = i64::from(b); let _ = i128::from(b); let _ = i64::from(c); let _ = i128::from(c); let _ = i128::from(d);
    let _ = u8::from(e); let _ = u32::from(e); let _ = u64::from(e); let _ = usize::from(e); let _ = i32::from(e); let _ = i64::from(e);
    let _ = char::from(a); let _ = u32::from(f); let _ = u64::from(f);
}
pub fn c_div(a: i64, b: i64) requires b > 0, ensures false { let _ = a.div_euclid(b); let _ = a.rem_euclid(b); }
%%
