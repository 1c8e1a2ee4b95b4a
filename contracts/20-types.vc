%modend types
impl View for Str {
    type V = Seq<char>;
    open spec fn view(&self) -> Seq<char> {
        match self { Str::ByteStr(s) => s@, Str::Static(s) => s@ }
    }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for Str {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { self@ == o@ }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl<str> for Str {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &str) -> bool { self@ == o@ }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl<str> for Symbol {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &str) -> bool { self@ == o@ }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl<str> for Variant {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &str) -> bool {
        match *self { Variant::String(s) => s@ == o@, Variant::Symbol(s) => s@ == o@, _ => false }
    }
}
impl View for Symbol {
    type V = Seq<char>;
    open spec fn view(&self) -> Seq<char> { self.0@ }
}
%impl types::Hash for Str
open spec fn hlog(&self) -> Seq<int> { str_log(self@) }
%%
%external protocol::SaslInit::prepare_response
%%
%%
%fn types::Str::from_str
ensures r@ == $p0@,
%fn types::Str::as_bytes
ensures r@ == utf8_enc(self@),
%fn types::Str::as_str
ensures r@ == self@,
%fn types::Str::as_bytes_str
ensures r@ == self@,
%fn types::Str::len
ensures r == utf8_enc(self@).len(),
%fn types::symbol::Symbol::from_slice
ensures r@ == $p0@,
%fn types::symbol::Symbol::as_bytes
ensures r@ == utf8_enc(self@),
%fn types::symbol::Symbol::as_str
ensures r@ == self@,
%fn types::symbol::Symbol::as_bytes_str
ensures r@ == self@,
%fn types::symbol::Symbol::len
ensures r == utf8_enc(self@).len(),
%%
%prologue types::Str::len
proof { match self { Str::ByteStr(s) => string_bound(*s), Str::Static(s) => str_bound(s) } }
%prologue types::Str::as_bytes_str
proof { utf8_inverse2(self@); }
%%
%fn types::Multiple<T>::len
ensures r == self.0@.len(),
%fn types::Multiple<T>::is_empty
ensures r == (self.0@.len() == 0),
%fn types::Multiple<T>::iter
ensures r@ == self.0@,
%fn types::Deref for Multiple<T>::deref
ensures *r == self.0,
%fn types::DerefMut for Multiple<T>::deref_mut
ensures *old(self) == Multiple(*r), *final(self) == Multiple(*final(r)),
%fn types::Default for Multiple<T>::default
ensures r.0@.len() == 0,
%fn types::List::len
ensures r == self.0@.len(),
%fn types::List::is_empty
ensures r == (self.0@.len() == 0),
%fn types::List::iter
ensures r@ == self.0@,
%fn types::variant::VariantMap::new
ensures r.map == $p0,
%fn types::variant::Deref for VecVariantMap::deref
ensures *r == self.0,
%fn types::variant::DerefMut for VecVariantMap::deref_mut
ensures *old(self) == VecVariantMap(*r), *final(self) == VecVariantMap(*final(r)),
%fn types::variant::Default for VecVariantMap::default
ensures r.0@.len() == 0,
%fn types::Borrow<str> for Str::borrow
ensures r@ == self@,
%fn types::symbol::Borrow<str> for Symbol::borrow
ensures r@ == self@,
%fn types::variant::Variant::as_str
ensures match *self { Variant::String(s) => r is Some && r->0@ == s@, Variant::Symbol(s) => r is Some && r->0@ == s@, _ => r is None },
%fn types::variant::Variant::as_bytes_str
ensures match *self { Variant::String(s) => r is Some && r->0@ == s@, Variant::Symbol(s) => r is Some && r->0@ == s@, _ => r is None },
%impl types::variant::Hash for VariantMap
open spec fn hlog(&self) -> Seq<int> { seq![self.map.items().len() as int] }
%%
%mod types
impl vstd::std_specs::convert::FromSpecImpl<&'static str> for Str {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: &'static str) -> Self { Str::Static(v) }
}
impl vstd::std_specs::convert::FromSpecImpl<String<Bytes>> for Str {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: String<Bytes>) -> Self { Str::ByteStr(v) }
}
%%
%mod types::symbol
impl vstd::std_specs::convert::FromSpecImpl<&'static str> for Symbol {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: &'static str) -> Self { Symbol(Str::Static(v)) }
}
impl vstd::std_specs::convert::FromSpecImpl<String<Bytes>> for Symbol {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: String<Bytes>) -> Self { Symbol(Str::ByteStr(v)) }
}
impl vstd::std_specs::convert::FromSpecImpl<&'static str> for StaticSymbol {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: &'static str) -> Self { StaticSymbol(v) }
}
%%
%mod types::variant
impl vstd::std_specs::convert::FromSpecImpl<String<Bytes>> for Variant {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: String<Bytes>) -> Self { Variant::String(Str::ByteStr(v)) }
}
impl vstd::std_specs::convert::FromSpecImpl<&'static str> for Variant {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: &'static str) -> Self { Variant::String(Str::Static(v)) }
}
%%
%mod errors
impl vstd::std_specs::convert::FromSpecImpl<crate::model::IoError> for AmqpCodecError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: crate::model::IoError) -> Self { AmqpCodecError::Io(Some(v)) }
}
%%
%mod framing
impl vstd::std_specs::convert::FromSpecImpl<protocol::SaslMechanisms> for SaslFrame {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: protocol::SaslMechanisms) -> Self { SaslFrame { body: protocol::SaslFrameBody::SaslMechanisms(v) } }
}
impl vstd::std_specs::convert::FromSpecImpl<protocol::SaslInit> for SaslFrame {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: protocol::SaslInit) -> Self { SaslFrame { body: protocol::SaslFrameBody::SaslInit(v) } }
}
impl vstd::std_specs::convert::FromSpecImpl<protocol::SaslChallenge> for SaslFrame {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: protocol::SaslChallenge) -> Self { SaslFrame { body: protocol::SaslFrameBody::SaslChallenge(v) } }
}
impl vstd::std_specs::convert::FromSpecImpl<protocol::SaslResponse> for SaslFrame {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: protocol::SaslResponse) -> Self { SaslFrame { body: protocol::SaslFrameBody::SaslResponse(v) } }
}
impl vstd::std_specs::convert::FromSpecImpl<protocol::SaslOutcome> for SaslFrame {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: protocol::SaslOutcome) -> Self { SaslFrame { body: protocol::SaslFrameBody::SaslOutcome(v) } }
}
%%
%external types::symbol::From<&'static str> for Symbol::from
%%
%mod types
use vstd::std_specs::cmp::{OrdSpec, PartialOrdSpec};
/// the order of `str` is a function of its characters (core's Ord for str; trusted)
pub uninterp spec fn str_cmp(a: Seq<char>, b: Seq<char>) -> core::cmp::Ordering;
pub axiom fn axiom_str_obeys()
    ensures <str as OrdSpec>::obeys_cmp_spec();
pub broadcast axiom fn axiom_str_cmp(a: &str, b: &str)
    ensures #[trigger] <str as OrdSpec>::cmp_spec(a, b) == str_cmp(a@, b@);
impl vstd::std_specs::cmp::PartialOrdSpecImpl for Str {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Self) -> Option<core::cmp::Ordering> { Some(str_cmp(self@, o@)) }
}
impl vstd::std_specs::cmp::OrdSpecImpl for Str {
    open spec fn obeys_cmp_spec() -> bool { true }
    open spec fn cmp_spec(&self, o: &Self) -> core::cmp::Ordering { str_cmp(self@, o@) }
}
%prologue types::Ord for Str::cmp
broadcast use axiom_str_cmp;
proof { axiom_str_obeys(); }
%%
