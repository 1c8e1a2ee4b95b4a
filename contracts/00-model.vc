%crateattr
#![verifier::loop_isolation(false)]
%root model
use vstd::prelude::*;
// Contracts assumed for code outside the repository (bytes 0.4, byteorder, chrono, uuid,
// hashbrown, string, ordered-float, std). Everything `external_body`, `uninterp` or
// `assume_specification` in this module is part of the trusted base.
use core::convert::AsRef;
use core::ops::Deref;
use vstd::string::*;
use crate::types::*;
use crate::vx::*;

#[verifier::external_body]
pub fn vx_unreached<T>() -> (r: T) { panic!() }

/// `panic!`, `unreachable!`, failed `assert!`: an obligation that it is never reached.
#[verifier::external_body]
pub fn vx_panic() -> (r: bool)
    requires false,
{ panic!() }
pub fn vx_assert(b: bool)
    requires b,
{ }

// ------------------------------------------------------------------ std
pub fn min(a: usize, b: usize) -> (r: usize)
    ensures r == (if a <= b { a } else { b }),
{ if a <= b { a } else { b } }
pub fn max(a: usize, b: usize) -> (r: usize)
    ensures r == (if a >= b { a } else { b }),
{ if a >= b { a } else { b } }

pub assume_specification [ i64::div_euclid ] (a: i64, b: i64) -> (r: i64)
    requires b != 0, !(a == i64::MIN && b == -1),
    ensures r == a as int / b as int;
pub assume_specification [ i64::rem_euclid ] (a: i64, b: i64) -> (r: i64)
    requires b != 0, !(a == i64::MIN && b == -1),
    ensures r == a as int % b as int;

pub fn bytes_eq(a: &[u8], b: &[u8]) -> (r: bool)
    ensures r == (a@ == b@),
{
    if a.len() != b.len() { return false; }
    let mut i: usize = 0;
    while i < a.len()
        invariant i <= a.len(), a@.len() == b@.len(), forall|j: int| 0 <= j < i ==> a@[j] == b@[j],
        decreases a.len() - i,
    {
        if a[i] != b[i] { return false; }
        i = i + 1;
    }
    assert(a@ =~= b@);
    true
}

#[verifier::external_body]
#[derive(Debug)]
pub struct Utf8Error { x: u8 }
#[verifier::external_body]
#[derive(Debug)]
pub struct BytesError { x: u8 }
#[verifier::external_body]
#[derive(Debug)]
pub struct IoError { x: u8 }
impl Clone for Utf8Error {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { panic!() }
}
impl Clone for BytesError {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { panic!() }
}

/// The characters a valid UTF-8 byte sequence stands for.
pub uninterp spec fn utf8_dec(b: Seq<u8>) -> Seq<char>;
pub open spec fn utf8_ok(b: Seq<u8>) -> bool { vstd::utf8::valid_utf8(b) }
pub open spec fn utf8_enc(c: Seq<char>) -> Seq<u8> { vstd::utf8::encode_utf8(c) }
/// encoding is injective, decoding is its inverse on valid input
pub axiom fn utf8_inverse(b: Seq<u8>)
    requires utf8_ok(b),
    ensures utf8_enc(utf8_dec(b)) == b;
pub axiom fn utf8_inverse2(c: Seq<char>)
    ensures utf8_ok(utf8_enc(c)), utf8_dec(utf8_enc(c)) == c;

#[verifier::external_body]
pub fn from_utf8(b: &[u8]) -> (r: Result<&str, Utf8Error>)
    ensures match r {
        Ok(s) => utf8_ok(b@) && s@ == utf8_dec(b@),
        Err(_) => !utf8_ok(b@),
    },
{ panic!() }

pub open spec fn char_ok(x: u32) -> bool { x < 0xd800 || (0xe000 <= x && x < 0x110000) }
#[verifier::external_body]
pub fn char_from_u32(x: u32) -> (r: Option<char>)
    ensures match r {
        Some(c) => char_ok(x) && c as u32 == x,
        None => !char_ok(x),
    },
{ panic!() }

pub use core::cmp::Ordering;

pub trait Borrow<B: ?Sized> {
    fn borrow(&self) -> &B;
}

// ------------------------------------------------------------------ floats
pub uninterp spec fn f32_bits(f: f32) -> u32;
pub uninterp spec fn f64_bits(f: f64) -> u64;
pub axiom fn f32_bits_inj(a: f32, b: f32)
    ensures f32_bits(a) == f32_bits(b) ==> a == b;
pub axiom fn f64_bits_inj(a: f64, b: f64)
    ensures f64_bits(a) == f64_bits(b) ==> a == b;
pub struct OrderedFloat<T>(pub T);
impl<T> OrderedFloat<T> {
    pub fn into_inner(self) -> (r: T) ensures r == self.0 { self.0 }
}
impl<T> Deref for OrderedFloat<T> {
    type Target = T;
    fn deref(&self) -> (r: &T) ensures *r == self.0 { &self.0 }
}
impl<T: Copy> Clone for OrderedFloat<T> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { panic!() }
}
impl<T: Copy> Copy for OrderedFloat<T> {}

// ------------------------------------------------------------------ byteorder
pub struct BigEndian {}
impl BigEndian {
    #[verifier::external_body]
    pub fn read_u16(b: &[u8]) -> (r: u16)
        requires b@.len() >= 2,
        ensures r == rd16(b@),
    { panic!() }
    #[verifier::external_body]
    pub fn read_u32(b: &[u8]) -> (r: u32)
        requires b@.len() >= 4,
        ensures r == rd32(b@),
    { panic!() }
    #[verifier::external_body]
    pub fn read_u64(b: &[u8]) -> (r: u64)
        requires b@.len() >= 8,
        ensures r == rd64(b@),
    { panic!() }
    #[verifier::external_body]
    pub fn read_i16(b: &[u8]) -> (r: i16)
        requires b@.len() >= 2,
        ensures r == rd16(b@) as i16,
    { panic!() }
    #[verifier::external_body]
    pub fn read_i32(b: &[u8]) -> (r: i32)
        requires b@.len() >= 4,
        ensures r == rd32(b@) as i32,
    { panic!() }
    #[verifier::external_body]
    pub fn read_i64(b: &[u8]) -> (r: i64)
        requires b@.len() >= 8,
        ensures r == rd64(b@) as i64,
    { panic!() }
    #[verifier::external_body]
    pub fn read_f32(b: &[u8]) -> (r: f32)
        requires b@.len() >= 4,
        ensures f32_bits(r) == rd32(b@),
    { panic!() }
    #[verifier::external_body]
    pub fn read_f64(b: &[u8]) -> (r: f64)
        requires b@.len() >= 8,
        ensures f64_bits(r) == rd64(b@),
    { panic!() }
}

// ------------------------------------------------------------------ bytes
#[verifier::external_body]
pub struct BytesMut { x: Vec<u8> }
impl View for BytesMut {
    type V = Seq<u8>;
    uninterp spec fn view(&self) -> Seq<u8>;
}
impl BytesMut {
    /// room left before the buffer has to grow; writing beyond it panics
    pub uninterp spec fn rem(&self) -> int;
    pub open spec fn put_ok(o: &BytesMut, n: &BytesMut, s: Seq<u8>) -> bool {
        n@ == o@ + s && n.rem() == o.rem() - s.len()
    }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { panic!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { panic!() }
    #[verifier::external_body]
    pub fn remaining_mut(&self) -> (r: usize) ensures r == self.rem() { panic!() }
    #[verifier::external_body]
    pub fn reserve(&mut self, n: usize)
        ensures final(self)@ == old(self)@, final(self).rem() >= n, final(self).rem() >= old(self).rem(),
    { panic!() }
    #[verifier::external_body]
    pub fn put_u8(&mut self, x: u8)
        requires old(self).rem() >= 1,
        ensures BytesMut::put_ok(old(self), final(self), seq![x]),
    { panic!() }
    #[verifier::external_body]
    pub fn put_i8(&mut self, x: i8)
        requires old(self).rem() >= 1,
        ensures BytesMut::put_ok(old(self), final(self), seq![x as u8]),
    { panic!() }
    #[verifier::external_body]
    pub fn put_u16_be(&mut self, x: u16)
        requires old(self).rem() >= 2,
        ensures BytesMut::put_ok(old(self), final(self), be16(x)),
    { panic!() }
    #[verifier::external_body]
    pub fn put_i16_be(&mut self, x: i16)
        requires old(self).rem() >= 2,
        ensures BytesMut::put_ok(old(self), final(self), be16(x as u16)),
    { panic!() }
    #[verifier::external_body]
    pub fn put_u32_be(&mut self, x: u32)
        requires old(self).rem() >= 4,
        ensures BytesMut::put_ok(old(self), final(self), be32(x)),
    { panic!() }
    #[verifier::external_body]
    pub fn put_i32_be(&mut self, x: i32)
        requires old(self).rem() >= 4,
        ensures BytesMut::put_ok(old(self), final(self), be32(x as u32)),
    { panic!() }
    #[verifier::external_body]
    pub fn put_u64_be(&mut self, x: u64)
        requires old(self).rem() >= 8,
        ensures BytesMut::put_ok(old(self), final(self), be64(x)),
    { panic!() }
    #[verifier::external_body]
    pub fn put_i64_be(&mut self, x: i64)
        requires old(self).rem() >= 8,
        ensures BytesMut::put_ok(old(self), final(self), be64(x as u64)),
    { panic!() }
    #[verifier::external_body]
    pub fn put_f32_be(&mut self, x: f32)
        requires old(self).rem() >= 4,
        ensures BytesMut::put_ok(old(self), final(self), be32(f32_bits(x))),
    { panic!() }
    #[verifier::external_body]
    pub fn put_f64_be(&mut self, x: f64)
        requires old(self).rem() >= 8,
        ensures BytesMut::put_ok(old(self), final(self), be64(f64_bits(x))),
    { panic!() }
    #[verifier::external_body]
    pub fn put_u16_le(&mut self, x: u16)
        requires old(self).rem() >= 2,
        ensures BytesMut::put_ok(old(self), final(self), be16(x).reverse()),
    { panic!() }
    #[verifier::external_body]
    pub fn put_u32_le(&mut self, x: u32)
        requires old(self).rem() >= 4,
        ensures BytesMut::put_ok(old(self), final(self), be32(x).reverse()),
    { panic!() }
    #[verifier::external_body]
    pub fn put_u64_le(&mut self, x: u64)
        requires old(self).rem() >= 8,
        ensures BytesMut::put_ok(old(self), final(self), be64(x).reverse()),
    { panic!() }
    #[verifier::external_body]
    pub fn put_slice(&mut self, s: &[u8])
        requires old(self).rem() >= s@.len(),
        ensures BytesMut::put_ok(old(self), final(self), s@),
    { panic!() }
    /// reserves first, so it never panics
    #[verifier::external_body]
    pub fn extend_from_slice(&mut self, s: &[u8])
        ensures final(self)@ == old(self)@ + s@, final(self).rem() >= old(self).rem() - s@.len(), final(self).rem() >= 0,
    { panic!() }
    #[verifier::external_body]
    pub fn split_to(&mut self, n: usize) -> (r: BytesMut)
        requires n <= old(self)@.len(),
        ensures r@ == old(self)@.take(n as int), final(self)@ == old(self)@.skip(n as int), final(self).rem() >= old(self).rem(),
    { panic!() }
    #[verifier::external_body]
    pub fn advance(&mut self, n: usize)
        requires n <= old(self)@.len(),
        ensures final(self)@ == old(self)@.skip(n as int), final(self).rem() >= old(self).rem(),
    { panic!() }
    #[verifier::external_body]
    pub fn take(&mut self) -> (r: BytesMut)
        ensures r@ == old(self)@, final(self)@ == Seq::<u8>::empty(), final(self).rem() >= old(self).rem(),
    { panic!() }
    #[verifier::external_body]
    pub fn clear(&mut self)
        ensures final(self)@ == Seq::<u8>::empty(), final(self).rem() >= old(self).rem(),
    { panic!() }
    #[verifier::external_body]
    pub fn truncate(&mut self, n: usize)
        ensures final(self)@ == (if n <= old(self)@.len() { old(self)@.take(n as int) } else { old(self)@ }),
    { panic!() }
    #[verifier::external_body]
    pub fn as_ref(&self) -> (r: &[u8]) ensures r@ == self@ { panic!() }
    #[verifier::external_body]
    pub fn freeze(self) -> (r: Bytes) ensures r@ == self@ { panic!() }
}
impl Deref for BytesMut {
    type Target = [u8];
    #[verifier::external_body]
    fn deref(&self) -> (r: &[u8]) ensures r@ == self@ { panic!() }
}

#[verifier::external_body]
pub struct Bytes { x: Vec<u8> }
impl View for Bytes {
    type V = Seq<u8>;
    uninterp spec fn view(&self) -> Seq<u8>;
}
impl Clone for Bytes {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { panic!() }
}
impl Bytes {
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { panic!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { panic!() }
    #[verifier::external_body]
    pub fn from(s: &[u8]) -> (r: Bytes) ensures r@ == s@ { panic!() }
    #[verifier::external_body]
    pub fn new() -> (r: Bytes) ensures r@ == Seq::<u8>::empty() { panic!() }
    #[verifier::external_body]
    pub fn from_static(s: &'static [u8]) -> (r: Bytes) ensures r@ == s@ { panic!() }
    #[verifier::external_body]
    pub fn as_ref(&self) -> (r: &[u8]) ensures r@ == self@ { panic!() }
}
impl Deref for Bytes {
    type Target = [u8];
    #[verifier::external_body]
    fn deref(&self) -> (r: &[u8]) ensures r@ == self@ { panic!() }
}

// ------------------------------------------------------------------ string::String<Bytes>
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct String<T> { x: T }
impl<T> View for String<T> {
    type V = Seq<char>;
    uninterp spec fn view(&self) -> Seq<char>;
}
impl<T> Clone for String<T> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { panic!() }
}
impl String<Bytes> {
    #[verifier::external_body]
    pub fn from_str(s: &str) -> (r: String<Bytes>) ensures r@ == s@ { panic!() }
    #[verifier::external_body]
    pub fn try_from(s: Bytes) -> (r: Result<String<Bytes>, Utf8Error>)
        ensures match r { Ok(v) => utf8_ok(s@) && v@ == utf8_dec(s@), Err(_) => !utf8_ok(s@) },
    { panic!() }
}
impl<T> Deref for String<T> {
    type Target = str;
    #[verifier::external_body]
    fn deref(&self) -> (r: &str) ensures r@ == self@ { panic!() }
}

pub open spec fn str_is(r: &str, c: Seq<char>) -> bool { r@ == c }
pub open spec fn u8s_is(r: &[u8], c: Seq<u8>) -> bool { r@ == c }
/// no object is larger than the address space
pub axiom fn str_bound(s: &str)
    ensures utf8_enc(s@).len() <= isize::MAX;
pub axiom fn string_bound<T>(s: String<T>)
    ensures utf8_enc(s@).len() <= isize::MAX;
impl<T> AsRef<str> for String<T> {
    #[verifier::external_body]
    fn as_ref(&self) -> (r: &str) ensures str_is(r, self@) { panic!() }
}
impl<T> AsRef<[u8]> for String<T> {
    #[verifier::external_body]
    fn as_ref(&self) -> (r: &[u8]) ensures u8s_is(r, utf8_enc(self@)) { panic!() }
}

// ------------------------------------------------------------------ uuid
#[verifier::external_body]
pub struct Uuid { x: u8 }
impl View for Uuid {
    type V = Seq<u8>;
    uninterp spec fn view(&self) -> Seq<u8>;
}
pub broadcast axiom fn uuid_len(u: Uuid)
    ensures #[trigger] u@.len() == 16;
pub axiom fn uuid_ext(a: Uuid, b: Uuid)
    ensures a@ == b@ ==> a == b;
impl Clone for Uuid {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { panic!() }
}
impl Copy for Uuid {}
impl Uuid {
    #[verifier::external_body]
    pub fn from_slice(b: &[u8]) -> (r: Result<Uuid, BytesError>)
        ensures match r { Ok(u) => b@.len() == 16 && u@ == b@, Err(_) => b@.len() != 16 },
    { panic!() }
    #[verifier::external_body]
    pub fn as_bytes(&self) -> (r: &[u8])
        ensures r@ == self@, r@.len() == 16,
    { panic!() }
}

// ------------------------------------------------------------------ chrono
pub struct Utc;
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct DateTime<T> { x: core::marker::PhantomData<T> }
pub open spec fn TS_MIN() -> int { -8334601228800 }
pub open spec fn TS_MAX() -> int { 8210266876799 }
/// seconds (since the epoch) chrono can represent
pub open spec fn secs_ok(s: int) -> bool { TS_MIN() <= s && s <= TS_MAX() }
impl<T> DateTime<T> {
    pub uninterp spec fn secs(&self) -> int;
    pub uninterp spec fn nanos(&self) -> int;
    /// milliseconds since the epoch, sub-millisecond part rounded toward the past
    pub open spec fn millis(&self) -> int { self.secs() * 1000 + self.nanos() / 1000000 }
}
/// chrono keeps whole seconds and a non-negative sub-second part (up to 2 s for leap seconds)
pub axiom fn dt_range<T>(d: DateTime<T>)
    ensures secs_ok(d.secs()), 0 <= d.nanos() < 2_000_000_000;
pub axiom fn dt_ext<T>(a: DateTime<T>, b: DateTime<T>)
    ensures a.secs() == b.secs() && a.nanos() == b.nanos() ==> a == b;
impl<T> Clone for DateTime<T> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { panic!() }
}
impl<T> Copy for DateTime<T> {}
impl<T> DateTime<T> {
    #[verifier::external_body]
    pub fn timestamp(&self) -> (r: i64)
        ensures r == self.secs(), secs_ok(r as int), 0 <= self.nanos() < 2_000_000_000,
    { panic!() }
    #[verifier::external_body]
    pub fn timestamp_subsec_millis(&self) -> (r: u32)
        ensures r == self.nanos() / 1000000, 0 <= self.nanos() < 2_000_000_000, secs_ok(self.secs()),
    { panic!() }
    #[verifier::external_body]
    pub fn timestamp_subsec_micros(&self) -> (r: u32)
        ensures r == self.nanos() / 1000, 0 <= self.nanos() < 2_000_000_000, secs_ok(self.secs()),
    { panic!() }
    #[verifier::external_body]
    pub fn timestamp_subsec_nanos(&self) -> (r: u32)
        ensures r == self.nanos(), 0 <= self.nanos() < 2_000_000_000, secs_ok(self.secs()),
    { panic!() }
    #[verifier::external_body]
    pub fn timestamp_millis(&self) -> (r: i64)
        ensures r == self.millis(),
    { panic!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct LocalResult<T> { x: T }
impl<T> LocalResult<T> {
    pub uninterp spec fn view(&self) -> Option<T>;
    #[verifier::external_body]
    pub fn single(self) -> (r: Option<T>) ensures r == self.view() { panic!() }
    #[verifier::external_body]
    pub fn earliest(self) -> (r: Option<T>) ensures r == self.view() { panic!() }
    #[verifier::external_body]
    pub fn latest(self) -> (r: Option<T>) ensures r == self.view() { panic!() }
    #[verifier::external_body]
    pub fn unwrap(self) -> (r: T)
        requires self.view() is Some,
        ensures Some(r) == self.view(),
    { panic!() }
}
pub open spec fn ts_ok(s: int, n: int) -> bool {
    secs_ok(s) && (n < 1_000_000_000 || (n < 2_000_000_000 && s % 60 == 59))
}
impl Utc {
    #[verifier::external_body]
    pub fn timestamp_opt(&self, s: i64, n: u32) -> (r: LocalResult<DateTime<Utc>>)
        ensures match r.view() {
            Some(d) => ts_ok(s as int, n as int) && d.secs() == s && d.nanos() == n,
            None => !ts_ok(s as int, n as int),
        },
    { panic!() }
    #[verifier::external_body]
    pub fn timestamp(&self, s: i64, n: u32) -> (r: DateTime<Utc>)
        requires ts_ok(s as int, n as int),
        ensures r.secs() == s, r.nanos() == n,
    { panic!() }
    #[verifier::external_body]
    pub fn timestamp_millis_opt(&self, m: i64) -> (r: LocalResult<DateTime<Utc>>)
        ensures match r.view() {
            Some(d) => secs_ok(m as int / 1000) && d.secs() == m as int / 1000 && d.nanos() == (m as int % 1000) * 1000000,
            None => !secs_ok(m as int / 1000),
        },
    { panic!() }
    #[verifier::external_body]
    pub fn timestamp_millis(&self, m: i64) -> (r: DateTime<Utc>)
        requires secs_ok(m as int / 1000),
        ensures r.secs() == m as int / 1000, r.nanos() == (m as int % 1000) * 1000000,
    { panic!() }
}

// ------------------------------------------------------------------ Cell<usize> as size cache
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Cell<T> { x: T }
impl Cell<usize> {
    /// the content is 0 ("unknown") or `n`
    pub uninterp spec fn ok(&self, n: nat) -> bool;
    #[verifier::external_body]
    pub fn vx_get(&self, Ghost(n): Ghost<nat>) -> (r: usize)
        requires self.ok(n),
        ensures r == 0 || r == n,
    { panic!() }
    /// a write through a shared reference keeps what the invariant promises to other readers
    #[verifier::external_body]
    pub fn vx_set(&self, v: usize, Ghost(n): Ghost<nat>)
        requires self.ok(n), v == 0 || v == n,
    { panic!() }
    #[verifier::external_body]
    pub fn vx_set_owned(&mut self, v: usize)
        ensures forall|n: nat| #[trigger] final(self).ok(n) <==> (v == 0 || v == n),
    { panic!() }
    #[verifier::external_body]
    pub fn vx_default() -> (r: Self)
        ensures forall|n: nat| #[trigger] r.ok(n),
    { panic!() }
    #[verifier::external_body]
    pub fn new(v: usize) -> (r: Self)
        ensures forall|n: nat| #[trigger] r.ok(n) <==> (v == 0 || v == n),
    { panic!() }
}
impl Clone for Cell<usize> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { panic!() }
}

// ------------------------------------------------------------------ Vec
#[verifier::external_body]
pub fn vx_vec_with_capacity<T>(n: usize, Ghost(avail): Ghost<nat>) -> (r: Vec<T>)
    requires n <= avail,
    ensures r@ == Seq::<T>::empty(),
{ panic!() }

/// `for x in collection`: by reference, in iteration order.
pub trait VxIter {
    type T;
    spec fn vx_items(&self) -> Seq<Self::T>;
    fn vx_iter(&self) -> (r: &[Self::T])
        ensures r@ == self.vx_items();
}
impl<T> VxIter for Vec<T> {
    type T = T;
    open spec fn vx_items(&self) -> Seq<T> { self@ }
    fn vx_iter(&self) -> (r: &[T]) { let r = self.as_slice(); assert(r@ == self@); assert(self.vx_items() == self@); r }
}
impl<T> VxIter for [T] {
    type T = T;
    open spec fn vx_items(&self) -> Seq<T> { self@ }
    fn vx_iter(&self) -> (r: &[T]) { self }
}

// ------------------------------------------------------------------ hashbrown::HashMap
// `items` is the content in iteration order, `log` the history of inserts since creation.
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct HashMap<K, V> { x: Vec<(K, V)> }
impl<K, V> HashMap<K, V> {
    pub uninterp spec fn items(&self) -> Seq<(K, V)>;
    pub uninterp spec fn log(&self) -> Seq<(K, V)>;
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.items().len(), r <= isize::MAX { panic!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.items().len() == 0) { panic!() }
    #[verifier::external_body]
    pub fn vx_with_capacity(n: usize, Ghost(avail): Ghost<nat>) -> (r: Self)
        requires n <= avail,
        ensures r.log() == Seq::<(K, V)>::empty(), r.items() == Seq::<(K, V)>::empty(),
    { panic!() }
    #[verifier::external_body]
    pub fn new() -> (r: Self)
        ensures r.log() == Seq::<(K, V)>::empty(), r.items() == Seq::<(K, V)>::empty(),
    { panic!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self).log() == old(self).log().push((k, v)),
    { panic!() }
}
impl<K, V> HashMap<K, V> {
    #[verifier::external_body]
    pub fn vx_into_vec(self) -> (r: Vec<(K, V)>)
        ensures r@ == self.items(),
    { panic!() }
}
impl<V> HashMap<Str, V> {
    /// lookup by borrowed string (std contract of `Borrow`/`Hash`/`Eq`, which P14 establishes)
    #[verifier::external_body]
    pub fn get(&self, k: &str) -> (r: Option<&V>)
        ensures match r {
            Some(v) => exists|i: int| 0 <= i < self.items().len() && self.items()[i].0.view() == k@ && #[trigger] self.items()[i].1 == *v,
            None => forall|i: int| 0 <= i < self.items().len() ==> (#[trigger] self.items()[i]).0.view() != k@,
        },
    { panic!() }
}
impl<K, V> Clone for HashMap<K, V> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { panic!() }
}
impl<K, V> VxIter for HashMap<K, V> {
    type T = (K, V);
    open spec fn vx_items(&self) -> Seq<(K, V)> { self.items() }
    #[verifier::external_body]
    fn vx_iter(&self) -> (r: &[(K, V)]) { panic!() }
}
/// `HashMap<Variant, Variant>`: the same contract, monomorphic because the type is recursive.
pub struct HashMapVV { pub it: Ghost<Seq<(Variant, Variant)>>, pub lg: Ghost<Seq<(Variant, Variant)>>, pub vx: Vec<u8> }
impl HashMapVV {
    pub open spec fn items(&self) -> Seq<(Variant, Variant)> { self.it@ }
    pub open spec fn log(&self) -> Seq<(Variant, Variant)> { self.lg@ }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.items().len(), r <= isize::MAX { panic!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.items().len() == 0) { panic!() }
    #[verifier::external_body]
    pub fn vx_with_capacity(n: usize, Ghost(avail): Ghost<nat>) -> (r: Self)
        requires n <= avail,
        ensures r.log() == Seq::<(Variant, Variant)>::empty(), r.items() == Seq::<(Variant, Variant)>::empty(),
    { panic!() }
    #[verifier::external_body]
    pub fn new() -> (r: Self)
        ensures r.log() == Seq::<(Variant, Variant)>::empty(), r.items() == Seq::<(Variant, Variant)>::empty(),
    { panic!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: Variant, v: Variant) -> (r: Option<Variant>)
        ensures final(self).log() == old(self).log().push((k, v)),
    { panic!() }
}
impl Clone for HashMapVV {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { panic!() }
}
impl VxIter for HashMapVV {
    type T = (Variant, Variant);
    open spec fn vx_items(&self) -> Seq<(Variant, Variant)> { self.items() }
    #[verifier::external_body]
    fn vx_iter(&self) -> (r: &[(Variant, Variant)]) { panic!() }
}

// ------------------------------------------------------------------ tokio codec traits
pub trait Decoder: Sized {
    type Item;
    type Error;
    /// what every value of the decoder satisfies between calls
    spec fn dreq(&self) -> bool;
    /// what one call does to the decoder (`pre`/`post`) and to the received bytes (`b`/`a`), and what it reports
    spec fn dens(pre: Self, b: Seq<u8>, post: Self, a: Seq<u8>, r: Result<Option<Self::Item>, Self::Error>) -> bool;
    fn decode(&mut self, src: &mut BytesMut) -> (r: Result<Option<Self::Item>, Self::Error>)
        requires old(self).dreq(),
        ensures Self::dens(*old(self), old(src)@, *final(self), final(src)@, r), final(self).dreq();
}
pub trait Encoder: Sized {
    type Item;
    type Error;
    spec fn ereq(item: Self::Item) -> bool;
    spec fn eenc(item: Self::Item) -> Seq<u8>;
    fn encode(&mut self, item: Self::Item, dst: &mut BytesMut) -> (r: Result<(), Self::Error>)
        requires Self::ereq(item),
        ensures final(dst)@ == old(dst)@ + Self::eenc(item), r is Ok;
}
/// A hasher is what it has been fed.
pub trait Hasher: Sized {
    spec fn seen(&self) -> Seq<int>;
}
pub trait Hash {
    spec fn hlog(&self) -> Seq<int>;
    fn hash<H: Hasher>(&self, state: &mut H)
        ensures final(state).seen() == old(state).seen() + self.hlog();
}
pub uninterp spec fn str_log(s: Seq<char>) -> Seq<int>;
impl<T: Hash + ?Sized> Hash for &T {
    open spec fn hlog(&self) -> Seq<int> { (**self).hlog() }
    #[verifier::external_body]
    fn hash<H: Hasher>(&self, state: &mut H) { panic!() }
}
impl Hash for str {
    open spec fn hlog(&self) -> Seq<int> { str_log(self@) }
    #[verifier::external_body]
    fn hash<H: Hasher>(&self, state: &mut H) { panic!() }
}
impl<T> Hash for String<T> {
    open spec fn hlog(&self) -> Seq<int> { str_log(self@) }
    #[verifier::external_body]
    fn hash<H: Hasher>(&self, state: &mut H) { panic!() }
}
impl Hash for usize {
    open spec fn hlog(&self) -> Seq<int> { seq![*self as int] }
    #[verifier::external_body]
    fn hash<H: Hasher>(&self, state: &mut H) { panic!() }
}

// ------------------------------------------------------------------ equality of external types
impl<T> PartialEq for String<T> {
    #[verifier::external_body]
    fn eq(&self, o: &Self) -> (r: bool) { panic!() }
}
impl<T> vstd::std_specs::cmp::PartialEqSpecImpl for String<T> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { self@ == o@ }
}
impl<T> PartialEq<str> for String<T> {
    #[verifier::external_body]
    fn eq(&self, o: &str) -> (r: bool) { panic!() }
}
impl<T> vstd::std_specs::cmp::PartialEqSpecImpl<str> for String<T> {
    // string 0.1.3 implements this by comparing with itself: it never returns, so nothing may rest on it
    open spec fn obeys_eq_spec() -> bool { false }
    open spec fn eq_spec(&self, o: &str) -> bool { self@ == o@ }
}
impl PartialEq for Bytes {
    #[verifier::external_body]
    fn eq(&self, o: &Self) -> (r: bool) { panic!() }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for Bytes {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { self@ == o@ }
}
impl<K, V> PartialEq for HashMap<K, V> {
    #[verifier::external_body]
    fn eq(&self, o: &Self) -> (r: bool) { panic!() }
}
pub uninterp spec fn map_eq<K, V>(a: HashMap<K, V>, b: HashMap<K, V>) -> bool;
impl<K, V> vstd::std_specs::cmp::PartialEqSpecImpl for HashMap<K, V> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { map_eq(*self, *o) }
}
// ------------------------------------------------------------------ lossless `From` conversions vstd does not specify
pub assume_specification[<i16 as core::convert::From<u8>>::from](x: u8) -> (r: i16)
    ensures r == x as i16;
pub assume_specification[<i32 as core::convert::From<u8>>::from](x: u8) -> (r: i32)
    ensures r == x as i32;
pub assume_specification[<i64 as core::convert::From<u8>>::from](x: u8) -> (r: i64)
    ensures r == x as i64;
pub assume_specification[<i128 as core::convert::From<u8>>::from](x: u8) -> (r: i128)
    ensures r == x as i128;
pub assume_specification[<i32 as core::convert::From<u16>>::from](x: u16) -> (r: i32)
    ensures r == x as i32;
pub assume_specification[<i64 as core::convert::From<u16>>::from](x: u16) -> (r: i64)
    ensures r == x as i64;
pub assume_specification[<i128 as core::convert::From<u16>>::from](x: u16) -> (r: i128)
    ensures r == x as i128;
pub assume_specification[<i64 as core::convert::From<u32>>::from](x: u32) -> (r: i64)
    ensures r == x as i64;
pub assume_specification[<i128 as core::convert::From<u32>>::from](x: u32) -> (r: i128)
    ensures r == x as i128;
pub assume_specification[<i128 as core::convert::From<u64>>::from](x: u64) -> (r: i128)
    ensures r == x as i128;
pub assume_specification[<isize as core::convert::From<u8>>::from](x: u8) -> (r: isize)
    ensures r == x as isize;
pub assume_specification[<u8 as core::convert::From<bool>>::from](x: bool) -> (r: u8)
    ensures r == (if x { 1u8 } else { 0 });
pub assume_specification[<u32 as core::convert::From<bool>>::from](x: bool) -> (r: u32)
    ensures r == (if x { 1u32 } else { 0 });
pub assume_specification[<u64 as core::convert::From<bool>>::from](x: bool) -> (r: u64)
    ensures r == (if x { 1u64 } else { 0 });
pub assume_specification[<usize as core::convert::From<bool>>::from](x: bool) -> (r: usize)
    ensures r == (if x { 1usize } else { 0 });
pub assume_specification[<i32 as core::convert::From<bool>>::from](x: bool) -> (r: i32)
    ensures r == (if x { 1i32 } else { 0 });
pub assume_specification[<i64 as core::convert::From<bool>>::from](x: bool) -> (r: i64)
    ensures r == (if x { 1i64 } else { 0 });
pub assume_specification[<char as core::convert::From<u8>>::from](x: u8) -> (r: char)
    ensures r == x as char;
pub assume_specification[<u32 as core::convert::From<char>>::from](x: char) -> (r: u32)
    ensures r == x as u32;
pub assume_specification[<u64 as core::convert::From<char>>::from](x: char) -> (r: u64)
    ensures r == x as u64;
%%
