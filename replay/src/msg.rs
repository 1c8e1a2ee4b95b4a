//! Messages: histories of calls on the real types next to a plain record of what they should hold.
#![allow(dead_code)]
use crate::av::{same, short, AV};
use crate::props::{bytes_of, enc_check, fail, Res};
use crate::rng::Rng;
use crate::sample::{body_av, section, Sample};
use amqp_codec::protocol::*;
use amqp_codec::types::*;
use amqp_codec::*;
use bytes::Bytes;

#[derive(Debug, Clone, Default)]
pub struct M {
    pub header: Option<Header>,
    pub da: Option<Annotations>,
    pub ma: Option<Annotations>,
    pub props: Option<Properties>,
    pub app: Option<Vec<(Str, Variant)>>,
    pub footer: Option<Annotations>,
    pub body: MessageBody,
}
fn app_av(a: &[(Str, Variant)]) -> AV {
    AV::Map(a.iter().map(|(k, v)| (k.av(), v.av())).collect())
}
impl M {
    pub fn av(&self) -> AV {
        let mut l = vec![];
        if let Some(x) = &self.header {
            l.push(x.av());
        }
        if let Some(x) = &self.da {
            l.push(section(113, x.av()));
        }
        if let Some(x) = &self.ma {
            l.push(section(114, x.av()));
        }
        if let Some(x) = &self.props {
            l.push(x.av());
        }
        if let Some(x) = &self.app {
            l.push(section(116, app_av(x)));
        }
        body_av(&self.body, &mut l);
        if let Some(x) = &self.footer {
            l.push(section(120, x.av()));
        }
        AV::Seq(l)
    }
    pub fn gen(r: &mut Rng, d: u32) -> M {
        fn some<T>(r: &mut Rng, f: impl Fn(&mut Rng) -> T) -> Option<T> {
            if r.one_in(2) {
                Some(f(r))
            } else {
                None
            }
        }
        M {
            header: some(r, |r| Header::gen(r, d)),
            da: some(r, |r| Annotations::gen(r, d + 1)),
            ma: some(r, |r| Annotations::gen(r, d + 1)),
            props: some(r, |r| Properties::gen(r, d)),
            app: some(r, |r| VecVariantMap::gen(r, d + 1).0),
            footer: some(r, |r| Annotations::gen(r, d + 1)),
            body: MessageBody { messages: vec![], ..MessageBody::gen(r, d) },
        }
    }
    /// as after encoding and decoding: nested messages are data sections, an empty body one empty data section
    pub fn decoded(mut self) -> M {
        let ms: Vec<TransferBody> = self.body.messages.drain(..).collect();
        for m in ms {
            if let AV::Tail(t) = m.av() {
                self.body.data.push(Bytes::from(t));
            }
        }
        if self.body.data.is_empty() && self.body.sequence.is_empty() && self.body.value.is_none() {
            self.body.data.push(Bytes::new());
        }
        self
    }
    /// a byte string the specification permits for this message; data and sequence sections keep their order
    pub fn reference(&self, r: &mut Rng) -> Vec<u8> {
        let mut out = vec![];
        if let AV::Seq(l) = self.av() {
            for x in &l {
                match x {
                    AV::Desc(d, v) if r.one_in(4) => {
                        let name = match **d {
                            AV::U64(113) => "amqp:delivery-annotations:map",
                            AV::U64(114) => "amqp:message-annotations:map",
                            AV::U64(116) => "amqp:application-properties:map",
                            AV::U64(117) => "amqp:data:binary",
                            AV::U64(118) => "amqp:amqp-sequence:list",
                            AV::U64(119) => "amqp:amqp-value:*",
                            _ => "amqp:footer:map",
                        };
                        crate::av::enc(&AV::Desc(Box::new(AV::Sym(name.into())), v.clone()), r, &mut out)
                    }
                    x => crate::av::enc(x, r, &mut out),
                }
            }
        }
        out
    }
}

pub trait Msg: Sized + Clone + PartialEq + Encode + Decode + std::fmt::Debug + Default {
    const ORDERED: bool;
    fn with_body_(b: Bytes) -> Self;
    fn with_messages_(m: Vec<TransferBody>) -> Self;
    fn header_(&self) -> Option<&Header>;
    fn set_header_(self, h: Header) -> Self;
    fn properties_(&self) -> Option<&Properties>;
    fn set_properties_<F: Fn(&mut Properties)>(self, f: F) -> Self;
    fn app_same(&self, want: &Option<Vec<(Str, Variant)>>) -> bool;
    fn set_app_(self, k: Str, v: Variant) -> Self;
    fn update_<F: Fn(Self) -> Self>(self, f: F) -> Self;
    fn if_some_<T, F: Fn(Self, &T) -> Self>(self, v: &Option<T>, f: F) -> Self;
    fn body_(&self) -> &MessageBody;
    fn value_(&self) -> Option<&Variant>;
    fn set_value_(self, v: Variant) -> Self;
    fn set_body_<F: Fn(&mut MessageBody)>(self, f: F) -> Self;
    fn reply(&self) -> OutMessage;
    fn set_format(&mut self, f: Option<u32>);
    fn wrap(self) -> TransferBody;
}
fn opt_av<T: Sample>(x: Option<&T>) -> AV {
    x.map_or(AV::Null, |x| x.av())
}
macro_rules! msg {
    ($t:ident, $o:expr, $w:ident, $app:expr) => {
        impl Msg for $t {
            const ORDERED: bool = $o;
            fn with_body_(b: Bytes) -> Self { $t::with_body(b) }
            fn with_messages_(m: Vec<TransferBody>) -> Self { $t::with_messages(m) }
            fn header_(&self) -> Option<&Header> { self.header() }
            fn set_header_(self, h: Header) -> Self { self.set_header(h) }
            fn properties_(&self) -> Option<&Properties> { self.properties() }
            fn set_properties_<F: Fn(&mut Properties)>(self, f: F) -> Self { self.set_properties(f) }
            fn app_same(&self, want: &Option<Vec<(Str, Variant)>>) -> bool { $app(self, want) }
            fn set_app_(self, k: Str, v: Variant) -> Self { self.set_app_property(k, v) }
            fn update_<F: Fn(Self) -> Self>(self, f: F) -> Self { self.update(f) }
            fn if_some_<T, F: Fn(Self, &T) -> Self>(self, v: &Option<T>, f: F) -> Self { self.if_some(v, f) }
            fn body_(&self) -> &MessageBody { self.body() }
            fn value_(&self) -> Option<&Variant> { self.value() }
            fn set_value_(self, v: Variant) -> Self { self.set_value(v) }
            fn set_body_<F: Fn(&mut MessageBody)>(self, f: F) -> Self { self.set_body(f) }
            fn reply(&self) -> OutMessage { self.reply_message() }
            fn set_format(&mut self, f: Option<u32>) { self.message_format = f }
            fn wrap(self) -> TransferBody { TransferBody::$w(self) }
        }
    };
}
msg!(InMessage, false, MessageIn, |m: &InMessage, want: &Option<Vec<(Str, Variant)>>| match want {
    None => m.app_property("a").is_none() && m.app_property("").is_none(),
    Some(l) => l.iter().all(|(k, v)| m.app_property(k.as_str()).map_or(false, |x| same(&v.av(), &x.av())))
        && l.iter().all(|(k, _)| k.as_str() != "absent") == m.app_property("absent").is_none(),
});
msg!(OutMessage, true, MessageOut, |m: &OutMessage, want: &Option<Vec<(Str, Variant)>>| match (want, m.app_properties()) {
    (None, None) => true,
    (Some(l), Some(g)) => l.len() == g.0.len()
        && l.iter().all(|(k, v)| g.0.iter().any(|(k2, v2)| k.as_str() == k2.as_str() && same(&v.av(), &v2.av()))),
    _ => false,
});

/// which of the checks of a history belong to the property that is being searched
#[derive(Clone, Copy, PartialEq)]
pub enum What {
    Keep,
    Size,
    Access,
    None,
}

pub fn view<T: Msg>(m: &T, want: &M, at: &str) -> Res {
    let body = |b: &MessageBody| {
        AV::Seq(vec![
            AV::List(b.data.iter().map(|x| x.av()).collect()),
            AV::List(b.sequence.iter().map(|x| x.av()).collect()),
            opt_av(b.value.as_ref()),
            AV::List(b.messages.iter().map(|x| x.av()).collect()),
        ])
    };
    if !same(&opt_av(want.header.as_ref()), &opt_av(m.header_())) {
        return fail(format!("{}: header is {:?}, expected {:?}", at, m.header_(), want.header));
    }
    if !same(&opt_av(want.props.as_ref()), &opt_av(m.properties_())) {
        return fail(format!("{}: properties are {:?}, expected {:?}", at, m.properties_(), want.props));
    }
    if !m.app_same(&want.app) {
        return fail(format!("{}: application properties of {:?}, expected {:?}", at, m, want.app));
    }
    if !same(&body(&want.body), &body(m.body_())) || !same(&opt_av(want.body.value.as_ref()), &opt_av(m.value_())) {
        return fail(format!("{}: body is {:?}, expected {:?}", at, m.body_(), want.body));
    }
    let d = want.body.data.first();
    if opt_av(m.body_().data()) != opt_av(d) || !same(&opt_av(want.body.value.as_ref()), &opt_av(m.body_().value())) {
        return fail(format!("{}: first data section is {:?}, expected {:?}", at, m.body_().data(), d));
    }
    Ok(())
}
fn size_is<T: Msg>(m: &T, at: &str) -> Res {
    let size = m.encoded_size();
    let len = bytes_of(m).len();
    if size != len {
        return fail(format!("{}: the reported size is {} and the encoding has {} bytes; {:?}", at, size, len, m));
    }
    Ok(())
}
fn put(want: &mut M, ordered: bool, k: Str, v: Variant) {
    let l = want.app.get_or_insert_with(Vec::new);
    if !ordered {
        if let Some(x) = l.iter_mut().find(|x| x.0.as_str() == k.as_str()) {
            x.1 = v;
            return;
        }
    }
    l.push((k, v));
}
/// a message made by a random history, with what it should hold
pub fn history<T: Msg>(r: &mut Rng, d: u32, what: What) -> Result<(T, M), String> {
    let mut log = String::new();
    let mut want = M::default();
    let mut m = match r.below(4) {
        0 => {
            log += "default";
            T::default()
        }
        1 => {
            let b = Bytes::gen(r, d);
            log += "with_body";
            want.body.data.push(b.clone());
            T::with_body_(b)
        }
        2 => {
            let l: Vec<TransferBody> = (0..if d < 2 { r.below(3) } else { 0 }).map(|_| TransferBody::gen(r, d + 1)).collect();
            log += "with_messages";
            want.body.messages = l.clone();
            T::with_messages_(l)
        }
        _ => {
            want = M::gen(r, d);
            let bytes = want.reference(r);
            want = want.decoded();
            log += "decode";
            crate::props::note_bytes(&bytes);
            match T::decode(&bytes) {
                Ok((rest, m)) => {
                    if what == What::Keep && !rest.is_empty() {
                        return Err(format!("decoding left {} bytes of a message", rest.len()));
                    }
                    m
                }
                Err(_) if what != What::Keep => {
                    want = M::default();
                    T::default()
                }
                Err(e) => return Err(format!("the message {} was refused: {:?}", crate::av::hex(&bytes), e)),
            }
        }
    };
    if what == What::Access || what == What::Keep {
        view(&m, &want, &log)?;
    }
    let n = r.below(7);
    for _ in 0..n {
        let before = m.clone();
        match r.below(11) {
            0 => {
                let h = Header::gen(r, d);
                log += ", set_header";
                m = m.set_header_(h.clone());
                want.header = Some(h);
            }
            1 | 2 => {
                let p = Properties::gen(r, d);
                if r.one_in(2) {
                    log += ", set_properties(one field)";
                    m = m.set_properties_(|x| x.subject = p.subject.clone());
                    want.props.get_or_insert_with(Properties::default).subject = p.subject.clone();
                } else {
                    log += ", set_properties(all)";
                    m = m.set_properties_(|x| *x = p.clone());
                    want.props = Some(p);
                }
            }
            3 => {
                let k = if r.one_in(2) { Str::from(*r.pick(&["a", "b", "longer key of an application property"])) } else { Str::gen(r, d + 1) };
                if T::ORDERED && want.app.as_ref().map_or(false, |l| l.iter().any(|x| x.0.as_str() == k.as_str())) {
                    continue;
                }
                let v = Variant::gen(r, d + 2);
                log += &format!(", set_app_property({:?}, {:?})", k, v);
                m = m.set_app_(k.clone(), v.clone());
                put(&mut want, T::ORDERED, k, v);
            }
            4 => {
                let h = Header::gen(r, d);
                log += ", update(set_header)";
                if r.one_in(2) {
                    m = m.update_(|m| {
                        m.encoded_size();
                        m.set_header_(h.clone())
                    });
                } else {
                    m = m.update_(|m| m.set_header_(h.clone()));
                }
                want.header = Some(h);
            }
            5 => {
                let v: Option<Variant> = if r.one_in(2) { None } else { Some(Variant::gen(r, d + 1)) };
                log += &format!(", if_some({:?}, set_value)", v);
                m = m.if_some_(&v, |m, v| m.set_value_(v.clone()));
                if v.is_some() {
                    want.body.value = v;
                }
            }
            6 => {
                let v = Variant::gen(r, d + 1);
                log += &format!(", set_value({:?})", v);
                m = m.set_value_(v.clone());
                want.body.value = Some(v);
            }
            7 => {
                let b = MessageBody::gen(r, d + 1);
                let data = Bytes::gen(r, d + 1);
                match r.below(3) {
                    0 => {
                        log += ", set_body(all)";
                        m = m.set_body_(|x| *x = b.clone());
                        want.body = b;
                    }
                    1 => {
                        log += ", set_body(set_data)";
                        m = m.set_body_(|x| x.set_data(data.clone()));
                        want.body.data = vec![data];
                    }
                    _ => {
                        log += ", set_body(data.push)";
                        m = m.set_body_(|x| x.data.push(data.clone()));
                        want.body.data.push(data);
                    }
                }
            }
            8 => {
                log += ", encoded_size";
                let s = m.encoded_size();
                let len = bytes_of(&m).len();
                if what == What::Size && s != len {
                    return Err(format!("{}: the reported size is {} and the encoding has {} bytes", log, s, len));
                }
            }
            9 => {
                log += ", clone";
                let c = m.clone();
                if what == What::Size {
                    m.encoded_size();
                    if c != m {
                        return Err(format!("{}: differs from its clone after a size query", log));
                    }
                }
                m = c;
            }
            _ => {
                let f = if r.one_in(2) { None } else { Some(r.int() as u32) };
                m.set_format(f);
            }
        }
        match what {
            What::Access => view(&m, &want, &log)?,
            What::Size => {
                if before.clone() != before && !format!("{:?}", before).contains("NaN") {
                    return Err(format!("{}: a message differs from its clone", log));
                }
                if r.one_in(2) {
                    size_is(&m, &log)?;
                }
            }
            _ => {}
        }
    }
    match what {
        What::Size => size_is(&m, &log)?,
        What::Access => {
            let rep = m.reply();
            match &want.props {
                None => {
                    if rep.properties().is_some() {
                        return Err(format!("{}: the reply to a message without properties has {:?}", log, rep.properties()));
                    }
                }
                Some(p) => {
                    let q = Properties { correlation_id: p.message_id.clone(), ..Properties::default() };
                    if rep.properties() != Some(&q) {
                        return Err(format!("{}: the reply to {:?} has properties {:?}", log, p, rep.properties()));
                    }
                }
            }
            if rep.header().is_some() || rep.app_properties().is_some() || *rep.body() != MessageBody::default() {
                return Err(format!("{}: the reply carries more than a correlation identifier: {:?}", log, rep));
            }
        }
        _ => {}
    }
    crate::props::note(|| short(&log));
    Ok((m, want))
}
pub fn keep<T: Msg>(r: &mut Rng) -> Res {
    let (m, want) = history::<T>(r, 0, What::Keep)?;
    let av = want.av();
    let enc = bytes_of(&m);
    enc_check(&av, &enc, &m)?;
    crate::props::note_bytes(&enc);
    match T::decode(&enc) {
        Err(e) => fail(format!("decoding the encoding of {:?} fails: {:?}", m, e)),
        Ok((rest, m2)) => {
            if !rest.is_empty() {
                return fail(format!("decoding the encoding of {:?} leaves {} bytes", m, rest.len()));
            }
            let want2 = want.decoded();
            view(&m2, &want2, "after encode and decode")?;
            // annotations and footer have no accessors: they show in the encoding
            let av2 = want2.av();
            enc_check(&av2, &bytes_of(&m2), &m2)
        }
    }
}
