//! AMQP 1.0 values (part 1 of the specification) with their own encoder and decoder: the oracle of the search.
//! Written from the specification, independently of the crate under test.
use crate::rng::Rng;

#[derive(Clone, Debug, PartialEq, PartialOrd)]
pub enum AV {
    Null,
    Bool(bool),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    F32(u32),
    F64(u64),
    Char(u32),
    Ts(i64),
    Uuid(Vec<u8>),
    Bin(Vec<u8>),
    Str(String),
    Sym(String),
    List(Vec<AV>),
    Map(Vec<(AV, AV)>),
    Array(Vec<AV>),
    /// descriptor, value
    Desc(Box<AV>, Box<AV>),
    /// a composite: code, symbolic name, fields (trailing nulls may be left out), defaults of its fields
    Comp(u64, &'static str, Vec<AV>, &'static [Option<AVDefault>]),
    /// several values one after the other
    Seq(Vec<AV>),
    /// bytes up to the end
    Tail(Vec<u8>),
}
#[derive(Clone, Copy, Debug, PartialEq, PartialOrd)]
pub enum AVDefault {
    Bool(bool),
    U8(u8),
    U16(u16),
    U32(u32),
    Sym(&'static str),
}
impl AVDefault {
    pub fn av(&self) -> AV {
        match *self {
            AVDefault::Bool(b) => AV::Bool(b),
            AVDefault::U8(b) => AV::U8(b),
            AVDefault::U16(b) => AV::U16(b),
            AVDefault::U32(b) => AV::U32(b),
            AVDefault::Sym(b) => AV::Sym(b.to_string()),
        }
    }
}

fn cmp_key(v: &AV) -> String {
    format!("{:?}", v)
}
/// maps without order, composites as described lists without trailing nulls
pub fn norm(v: &AV) -> AV {
    match v {
        AV::List(l) => AV::List(l.iter().map(norm).collect()),
        AV::Array(l) => AV::Array(l.iter().map(norm).collect()),
        AV::Seq(l) => AV::Seq(l.iter().map(norm).collect()),
        AV::Map(m) => {
            let mut x: Vec<(AV, AV)> = m.iter().map(|(a, b)| (norm(a), norm(b))).collect();
            x.sort_by_key(|p| cmp_key(&p.0));
            AV::Map(x)
        }
        AV::Desc(d, x) => AV::Desc(Box::new(norm(d)), Box::new(norm(x))),
        AV::Comp(c, _, f, _) => AV::Desc(Box::new(AV::U64(*c)), Box::new(AV::List(f.iter().map(norm).collect()))),
        x => x.clone(),
    }
}
/// equal up to the freedom the specification leaves in composites: null or missing stands for the default
pub fn same(want: &AV, got: &AV) -> bool {
    match (want, got) {
        (AV::Comp(c, name, f, defs), AV::Desc(d, l)) => {
            let dok = **d == AV::U64(*c) || **d == AV::Sym(name.to_string());
            let l = match &**l {
                AV::List(l) => l,
                _ => return false,
            };
            if !dok || l.len() > f.len() {
                return false;
            }
            f.iter().enumerate().all(|(i, w)| {
                let g = l.get(i).cloned().unwrap_or(AV::Null);
                if g == AV::Null {
                    *w == AV::Null || defs[i].map_or(false, |x| x.av() == *w)
                } else {
                    same(w, &g)
                }
            })
        }
        (AV::Comp(..), AV::Comp(..)) => norm(want) == norm(got),
        (AV::List(a), AV::List(b)) | (AV::Array(a), AV::Array(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same(x, y)),
        (AV::Desc(a, b), AV::Desc(c, d)) => same(a, c) && same(b, d),
        (AV::Map(a), AV::Map(b)) => {
            if a.len() != b.len() {
                return false;
            }
            let (x, y) = (norm(want), norm(got));
            if let (AV::Map(a), AV::Map(b)) = (x, y) {
                a.iter().zip(b.iter()).all(|(p, q)| same(&p.0, &q.0) && same(&p.1, &q.1))
            } else {
                false
            }
        }
        (AV::Seq(a), AV::Seq(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same(x, y)),
        // one of several values may stand alone
        (a, AV::Array(b)) if b.len() == 1 => same(a, &b[0]),
        (a, b) => a == b,
    }
}

fn be(out: &mut Vec<u8>, v: u64, n: usize) {
    for i in (0..n).rev() {
        out.push((v >> (8 * i)) as u8);
    }
}
fn var(out: &mut Vec<u8>, c8: u8, c32: u8, b: &[u8], r: &mut Rng) {
    if b.len() <= 255 && !r.one_in(3) {
        out.push(c8);
        out.push(b.len() as u8);
    } else {
        out.push(c32);
        be(out, b.len() as u64, 4);
    }
    out.extend_from_slice(b);
}
fn comp(out: &mut Vec<u8>, c8: u8, c32: u8, n: usize, b: &[u8], r: &mut Rng) {
    if b.len() + 1 <= 255 && n <= 255 && !r.one_in(3) {
        out.push(c8);
        out.push(b.len() as u8 + 1);
        out.push(n as u8);
    } else {
        out.push(c32);
        be(out, b.len() as u64 + 4, 4);
        be(out, n as u64, 4);
    }
    out.extend_from_slice(b);
}
/// one of the encodings the specification permits
pub fn enc(v: &AV, r: &mut Rng, out: &mut Vec<u8>) {
    match v {
        AV::Null => out.push(0x40),
        AV::Bool(b) => {
            if r.one_in(2) {
                out.push(0x56);
                out.push(*b as u8);
            } else {
                out.push(if *b { 0x41 } else { 0x42 });
            }
        }
        AV::U8(x) => {
            out.push(0x50);
            out.push(*x);
        }
        AV::I8(x) => {
            out.push(0x51);
            out.push(*x as u8);
        }
        AV::U16(x) => {
            out.push(0x60);
            be(out, *x as u64, 2);
        }
        AV::I16(x) => {
            out.push(0x61);
            be(out, *x as u16 as u64, 2);
        }
        AV::U32(x) => {
            if *x == 0 && r.one_in(2) {
                out.push(0x43);
            } else if *x <= 255 && r.one_in(2) {
                out.push(0x52);
                out.push(*x as u8);
            } else {
                out.push(0x70);
                be(out, *x as u64, 4);
            }
        }
        AV::U64(x) => {
            if *x == 0 && r.one_in(2) {
                out.push(0x44);
            } else if *x <= 255 && r.one_in(2) {
                out.push(0x53);
                out.push(*x as u8);
            } else {
                out.push(0x80);
                be(out, *x, 8);
            }
        }
        AV::I32(x) => {
            if *x >= -128 && *x <= 127 && r.one_in(2) {
                out.push(0x54);
                out.push(*x as i8 as u8);
            } else {
                out.push(0x71);
                be(out, *x as u32 as u64, 4);
            }
        }
        AV::I64(x) => {
            if *x >= -128 && *x <= 127 && r.one_in(2) {
                out.push(0x55);
                out.push(*x as i8 as u8);
            } else {
                out.push(0x81);
                be(out, *x as u64, 8);
            }
        }
        AV::F32(x) => {
            out.push(0x72);
            be(out, *x as u64, 4);
        }
        AV::F64(x) => {
            out.push(0x82);
            be(out, *x, 8);
        }
        AV::Char(x) => {
            out.push(0x73);
            be(out, *x as u64, 4);
        }
        AV::Ts(x) => {
            out.push(0x83);
            be(out, *x as u64, 8);
        }
        AV::Uuid(x) => {
            out.push(0x98);
            out.extend_from_slice(x);
        }
        AV::Bin(x) => var(out, 0xa0, 0xb0, x, r),
        AV::Str(x) => var(out, 0xa1, 0xb1, x.as_bytes(), r),
        AV::Sym(x) => var(out, 0xa3, 0xb3, x.as_bytes(), r),
        AV::List(l) => list(l, r, out),
        AV::Map(m) => {
            let mut b = vec![];
            for (k, x) in m {
                enc(k, r, &mut b);
                enc(x, r, &mut b);
            }
            comp(out, 0xc1, 0xd1, 2 * m.len(), &b, r);
        }
        AV::Array(l) => array(l, r, out),
        AV::Desc(d, x) => {
            out.push(0);
            enc(d, r, out);
            enc(x, r, out);
        }
        AV::Comp(c, name, f, defs) => {
            out.push(0);
            if r.one_in(4) {
                enc(&AV::Sym(name.to_string()), r, out);
            } else {
                enc(&AV::U64(*c), r, out);
            }
            let mut l = f.clone();
            for i in 0..l.len() {
                if defs[i].map_or(false, |x| x.av() == l[i]) && r.one_in(2) {
                    l[i] = AV::Null;
                }
            }
            if r.one_in(2) {
                while l.last() == Some(&AV::Null) {
                    l.pop();
                    if r.one_in(6) {
                        break;
                    }
                }
            }
            list(&l, r, out);
        }
        AV::Seq(l) => {
            for x in l {
                enc(x, r, out);
            }
        }
        AV::Tail(b) => out.extend_from_slice(b),
    }
}
fn list(l: &[AV], r: &mut Rng, out: &mut Vec<u8>) {
    if l.is_empty() && r.one_in(2) {
        out.push(0x45);
        return;
    }
    let mut b = vec![];
    for x in l {
        enc(x, r, &mut b);
    }
    comp(out, 0xc0, 0xd0, l.len(), &b, r);
}
/// all elements share one constructor, so the widest form is used
fn array(l: &[AV], r: &mut Rng, out: &mut Vec<u8>) {
    let small = |v: &AV| match v {
        AV::Bin(x) => x.len() <= 255,
        AV::Str(x) => x.len() <= 255,
        AV::Sym(x) => x.len() <= 255,
        AV::U32(x) => *x <= 255,
        AV::U64(x) => *x <= 255,
        AV::I32(x) => *x >= -128 && *x < 128,
        AV::I64(x) => *x >= -128 && *x < 128,
        _ => false,
    };
    let s = !l.is_empty() && l.iter().all(small) && r.one_in(2);
    let mut b = vec![];
    let mut code = 0x40;
    for v in l {
        match v {
            AV::Bool(x) => {
                code = 0x56;
                b.push(*x as u8)
            }
            AV::U8(x) => {
                code = 0x50;
                b.push(*x)
            }
            AV::I8(x) => {
                code = 0x51;
                b.push(*x as u8)
            }
            AV::U16(x) => {
                code = 0x60;
                be(&mut b, *x as u64, 2)
            }
            AV::I16(x) => {
                code = 0x61;
                be(&mut b, *x as u16 as u64, 2)
            }
            AV::U32(x) => {
                code = if s { 0x52 } else { 0x70 };
                be(&mut b, *x as u64, if s { 1 } else { 4 })
            }
            AV::I32(x) => {
                code = if s { 0x54 } else { 0x71 };
                be(&mut b, *x as u32 as u64, if s { 1 } else { 4 })
            }
            AV::U64(x) => {
                code = if s { 0x53 } else { 0x80 };
                be(&mut b, *x, if s { 1 } else { 8 })
            }
            AV::I64(x) => {
                code = if s { 0x55 } else { 0x81 };
                be(&mut b, *x as u64, if s { 1 } else { 8 })
            }
            AV::F32(x) => {
                code = 0x72;
                be(&mut b, *x as u64, 4)
            }
            AV::F64(x) => {
                code = 0x82;
                be(&mut b, *x, 8)
            }
            AV::Char(x) => {
                code = 0x73;
                be(&mut b, *x as u64, 4)
            }
            AV::Ts(x) => {
                code = 0x83;
                be(&mut b, *x as u64, 8)
            }
            AV::Uuid(x) => {
                code = 0x98;
                b.extend_from_slice(x)
            }
            AV::Bin(x) => {
                code = if s { 0xa0 } else { 0xb0 };
                be(&mut b, x.len() as u64, if s { 1 } else { 4 });
                b.extend_from_slice(x)
            }
            AV::Str(x) => {
                code = if s { 0xa1 } else { 0xb1 };
                be(&mut b, x.len() as u64, if s { 1 } else { 4 });
                b.extend_from_slice(x.as_bytes())
            }
            AV::Sym(x) => {
                code = if s { 0xa3 } else { 0xb3 };
                be(&mut b, x.len() as u64, if s { 1 } else { 4 });
                b.extend_from_slice(x.as_bytes())
            }
            AV::Map(m) => {
                code = 0xd1;
                let mut c = vec![];
                for (k, x) in m {
                    enc(k, r, &mut c);
                    enc(x, r, &mut c);
                }
                be(&mut b, c.len() as u64 + 4, 4);
                be(&mut b, 2 * m.len() as u64, 4);
                b.extend_from_slice(&c)
            }
            _ => panic!("array of {:?}", v),
        }
    }
    let mut c = vec![code];
    c.extend_from_slice(&b);
    comp(out, 0xe0, 0xf0, l.len(), &c, r);
}

#[derive(Debug, Clone, PartialEq)]
pub enum Bad {
    /// the input ends before the value does, or a value does not fit the compound that holds it
    Short,
    Code(u8),
    Utf8,
    Char(u32),
    Size,
    Bool(u8),
    /// maps with an odd number of entries, bytes left in a compound (tolerated by the crate, see DESIGN.md)
    Loose,
}
fn take<'a>(s: &mut &'a [u8], n: usize) -> Result<&'a [u8], Bad> {
    if s.len() < n {
        return Err(Bad::Short);
    }
    let (a, b) = s.split_at(n);
    *s = b;
    Ok(a)
}
fn num(s: &mut &[u8], n: usize) -> Result<u64, Bad> {
    Ok(take(s, n)?.iter().fold(0, |a, b| (a << 8) | *b as u64))
}
/// decoder: `strict` also refuses what the crate is known to tolerate. `fields` bounds how many list elements of a
/// described list with that code are looked at (a reader may skip fields it does not know).
pub struct Dec {
    pub strict: bool,
    pub depth: usize,
}
impl Dec {
    pub fn value(&self, s: &mut &[u8]) -> Result<AV, Bad> {
        let c = take(s, 1)?[0];
        self.coded(c, s)
    }
    pub fn coded(&self, c: u8, s: &mut &[u8]) -> Result<AV, Bad> {
        Ok(match c {
            0x00 => {
                let d = self.value(s)?;
                let lim = match &d {
                    AV::U64(c) => crate::perf::fields(*c),
                    AV::Sym(n) => crate::perf::code(n).and_then(crate::perf::fields),
                    _ => None,
                };
                let v = match (lim, s.first()) {
                    (Some(n), Some(0xc0)) | (Some(n), Some(0xd0)) if !self.strict => {
                        let c = take(s, 1)?[0];
                        self.list(c, s, n)?
                    }
                    _ => self.value(s)?,
                };
                AV::Desc(Box::new(d), Box::new(v))
            }
            0x40 => AV::Null,
            0x41 => AV::Bool(true),
            0x42 => AV::Bool(false),
            0x56 => {
                let b = num(s, 1)? as u8;
                if b > 1 && self.strict {
                    return Err(Bad::Bool(b));
                }
                AV::Bool(b != 0)
            }
            0x43 => AV::U32(0),
            0x44 => AV::U64(0),
            0x45 => AV::List(vec![]),
            0x50 => AV::U8(num(s, 1)? as u8),
            0x51 => AV::I8(num(s, 1)? as u8 as i8),
            0x52 => AV::U32(num(s, 1)? as u32),
            0x53 => AV::U64(num(s, 1)?),
            0x54 => AV::I32(num(s, 1)? as u8 as i8 as i32),
            0x55 => AV::I64(num(s, 1)? as u8 as i8 as i64),
            0x60 => AV::U16(num(s, 2)? as u16),
            0x61 => AV::I16(num(s, 2)? as u16 as i16),
            0x70 => AV::U32(num(s, 4)? as u32),
            0x71 => AV::I32(num(s, 4)? as u32 as i32),
            0x72 => AV::F32(num(s, 4)? as u32),
            0x73 => {
                let x = num(s, 4)? as u32;
                if x > 0x10ffff || (x >= 0xd800 && x < 0xe000) {
                    return Err(Bad::Char(x));
                }
                AV::Char(x)
            }
            0x80 => AV::U64(num(s, 8)?),
            0x81 => AV::I64(num(s, 8)? as i64),
            0x82 => AV::F64(num(s, 8)?),
            0x83 => AV::Ts(num(s, 8)? as i64),
            0x98 => AV::Uuid(take(s, 16)?.to_vec()),
            0xa0 | 0xb0 => AV::Bin(self.var(c, s)?.to_vec()),
            0xa1 | 0xb1 => AV::Str(String::from_utf8(self.var(c, s)?.to_vec()).map_err(|_| Bad::Utf8)?),
            0xa3 | 0xb3 => AV::Sym(String::from_utf8(self.var(c, s)?.to_vec()).map_err(|_| Bad::Utf8)?),
            0xc0 | 0xd0 => self.list(c, s, usize::max_value())?,
            0xc1 | 0xd1 => {
                let (n, mut b) = self.header(c, s)?;
                if n % 2 == 1 && self.strict {
                    return Err(Bad::Loose);
                }
                let mut m = vec![];
                for _ in 0..n / 2 {
                    let k = self.value(&mut b)?;
                    let v = self.value(&mut b)?;
                    m.push((k, v));
                }
                if !b.is_empty() && self.strict {
                    return Err(Bad::Loose);
                }
                AV::Map(m)
            }
            0xe0 | 0xf0 => {
                let (n, mut b) = self.header(c, s)?;
                let e = take(&mut b, 1)?[0];
                let mut l = vec![];
                for _ in 0..n {
                    l.push(self.coded(e, &mut b)?);
                    if l.len() > 100_000 {
                        break;
                    }
                }
                if !b.is_empty() && self.strict {
                    return Err(Bad::Loose);
                }
                AV::Array(l)
            }
            _ => return Err(Bad::Code(c)),
        })
    }
    fn list(&self, c: u8, s: &mut &[u8], lim: usize) -> Result<AV, Bad> {
        let (n, mut b) = self.header(c, s)?;
        let mut l = vec![];
        for _ in 0..n.min(lim) {
            l.push(self.value(&mut b)?);
        }
        if !b.is_empty() && self.strict {
            return Err(Bad::Loose);
        }
        Ok(AV::List(l))
    }
    fn var<'a>(&self, c: u8, s: &mut &'a [u8]) -> Result<&'a [u8], Bad> {
        let n = num(s, if c < 0xb0 { 1 } else { 4 })?;
        take(s, n as usize)
    }
    fn header<'a>(&self, c: u8, s: &mut &'a [u8]) -> Result<(usize, &'a [u8]), Bad> {
        let w = if c & 0xf0 == 0xc0 || c & 0xf0 == 0xe0 { 1 } else { 4 };
        let size = num(s, w)? as usize;
        if size < w {
            return Err(Bad::Size);
        }
        let b = take(s, size)?;
        let mut b = b;
        let n = num(&mut b, w)? as usize;
        Ok((n, b))
    }
}
/// `bytes` begin with an encoding of `want`; returns what follows
pub fn conforms<'a>(want: &AV, bytes: &'a [u8]) -> Result<&'a [u8], String> {
    match want {
        AV::Seq(l) => {
            let mut b = bytes;
            for x in l {
                b = conforms(x, b)?;
            }
            Ok(b)
        }
        AV::Tail(t) => {
            if bytes.starts_with(t) {
                Ok(&bytes[t.len()..])
            } else {
                Err(format!("expected the bytes {}", hex(t)))
            }
        }
        _ => {
            let mut b = bytes;
            let got = Dec { strict: true, depth: 0 }.value(&mut b).map_err(|e| format!("not a valid AMQP encoding: {:?}", e))?;
            if same(want, &got) {
                Ok(b)
            } else {
                Err(format!("the bytes stand for {}", short(&format!("{:?}", got))))
            }
        }
    }
}
pub fn hex(b: &[u8]) -> String {
    let s: String = b.iter().take(400).map(|x| format!("{:02x}", x)).collect();
    if b.len() > 400 {
        format!("{}.. ({} bytes)", s, b.len())
    } else {
        s
    }
}
pub fn short(s: &str) -> String {
    if s.len() > 600 {
        let mut k = 600;
        while !s.is_char_boundary(k) {
            k -= 1;
        }
        format!("{}..", &s[..k])
    } else {
        s.to_string()
    }
}
