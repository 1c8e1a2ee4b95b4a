//! Body-level desugaring. Every rewrite here is meaning preserving on the
//! executable code; what is dropped is listed in DESIGN.md.
use proc_macro2::{Ident, Span, TokenStream};
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Opt,
    Res,
    Other,
}

pub type FnRet = BTreeMap<String, Kind>;

pub fn kind_of_type(t: &Type) -> Kind {
    if let Type::Path(p) = t {
        if let Some(s) = p.path.segments.last() {
            if s.ident == "Option" {
                return Kind::Opt;
            }
            if s.ident == "Result" {
                return Kind::Res;
            }
        }
    }
    Kind::Other
}

// ---------------------------------------------------------------- paths

pub struct PathMap<'a> {
    pub aliases: &'a BTreeMap<String, Vec<String>>,
    pub dropped_bounds: &'a [&'a str],
}

fn join(v: &[String]) -> String {
    v.join("::")
}

/// Where an external path lives in the verified crate; None keeps it as is.
pub fn extmap(full: &[String]) -> Option<Vec<String>> {
    let s = join(full);
    let m = |x: &str| Some(x.split("::").map(|x| x.to_string()).collect::<Vec<_>>());
    let model = |n: usize| {
        let mut v = vec!["crate".to_string(), "model".to_string()];
        v.extend(full[n..].iter().cloned());
        Some(v)
    };
    match full[0].as_str() {
        "bytes" | "hashbrown" | "ordered_float" | "uuid" | "string" | "chrono" => return model(1),
        "tokio_io" | "tokio_codec" => return model(if full.len() > 2 { 2 } else { 1 }),
        _ => {}
    }
    if full[0] == "std" || full[0] == "core" {
        let rest = join(&full[1..]);
        for (p, r) in [
            ("cell::Cell", "crate::model::Cell"),
            ("hash::Hash", "crate::model::Hash"),
            ("hash::Hasher", "crate::model::Hasher"),
            ("str::from_utf8", "crate::model::from_utf8"),
            ("str::Utf8Error", "crate::model::Utf8Error"),
            ("char::from_u32", "crate::model::char_from_u32"),
            ("cmp::min", "crate::model::min"),
            ("cmp::max", "crate::model::max"),
            ("io::Error", "crate::model::IoError"),
            ("borrow::Borrow", "crate::model::Borrow"),
            ("cmp::Ordering", "crate::model::Ordering"),
            ("collections::HashMap", "crate::model::HashMap"),
        ] {
            if rest == p || rest.starts_with(&format!("{}::", p)) {
                return m(&format!("{}{}", r, &rest[p.len()..]));
            }
        }
        for p in ["u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize"] {
            if rest.starts_with(&format!("{}::", p)) {
                return m(&rest);
            }
        }
        if rest == "str" || rest == "char" || rest == "u8" || rest == "i8" {
            return None;
        }
        return m(&s);
    }
    None
}

impl<'a> VisitMut for PathMap<'a> {
    fn visit_expr_path_mut(&mut self, e: &mut ExprPath) {
        if let Some(q) = &mut e.qself {
            if q.position == 0 {
                self.visit_type_mut(&mut q.ty);
                return;
            }
        }
        visit_mut::visit_expr_path_mut(self, e);
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        if p.segments.is_empty() {
            return;
        }
        let first = p.segments[0].ident.to_string();
        const PRIMS: [&str; 14] = ["u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize", "bool", "f32", "f64", "u128"];
        if PRIMS.contains(&first.as_str()) {
            return;
        }
        if p.segments.len() == 1 && p.leading_colon.is_none() {
            match self.aliases.get(&first) {
                None => return,
                Some(a) if a.len() < 2 || first == "char" || first == "str" => return,
                // a local variable may carry the name of an imported module
                Some(a) if (a[0] == "std" || a[0] == "core") && a.len() == 2 => return,
                Some(a) if a[0] == "crate" && a.len() == 2 && first.chars().next().unwrap().is_lowercase() => return,
                _ => {}
            }
        }
        let lead: Vec<String> = if p.leading_colon.is_some() {
            vec![first.clone()]
        } else if let Some(full) = self.aliases.get(&first) {
            full.clone()
        } else {
            vec![first.clone()]
        };
        let mut full = lead.clone();
        full.extend(p.segments.iter().skip(1).map(|s| s.ident.to_string()));
        let mut mapped = extmap(&full);
        if mapped.is_some() && full.len() >= 3 && (full[0] == "std" || full[0] == "core") && (full[1] == "char" || full[1] == "str") {
            let j = join(mapped.as_ref().unwrap());
            if !j.starts_with("crate") {
                mapped = Some(full[1..].to_vec());
            }
        }
        // primitive inherent functions reached through the primitive type
        if mapped.is_none() {
            let j = join(&full);
            if j == "char::from_u32" {
                mapped = Some(vec!["crate".into(), "model".into(), "char_from_u32".into()]);
            } else if j == "std::str::from_utf8" || j == "str::from_utf8" {
                mapped = Some(vec!["crate".into(), "model".into(), "from_utf8".into()]);
            } else if lead.len() > 1 || p.leading_colon.is_some() {
                mapped = Some(full.clone());
            }
        }
        if let Some(n) = mapped {
            // keep generic args of the trailing segments
            let k = p.segments.len();
            let args: Vec<PathArguments> = p.segments.iter().map(|s| s.arguments.clone()).collect();
            let mut segs: syn::punctuated::Punctuated<PathSegment, Token![::]> = Default::default();
            let off = n.len() as isize - k as isize;
            for (i, name) in n.iter().enumerate() {
                let j = i as isize - off;
                let a = if j >= 0 && (j as usize) < k { args[j as usize].clone() } else { PathArguments::None };
                let id = match name.as_str() {
                    "crate" | "self" | "super" | "Self" => Ident::new(name, Span::call_site()),
                    _ => Ident::new(name, Span::call_site()),
                };
                segs.push(PathSegment { ident: id, arguments: a });
            }
            p.leading_colon = None;
            p.segments = segs;
        }
    }
}

// ------------------------------------------------------- HashMap handling

fn is_variant(t: &GenericArgument) -> bool {
    if let GenericArgument::Type(Type::Path(p)) = t {
        return p.path.segments.last().map_or(false, |s| s.ident == "Variant");
    }
    false
}

pub struct MapTypes;
impl VisitMut for MapTypes {
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        for s in p.segments.iter_mut() {
            if s.ident == "HashMap" {
                if let PathArguments::AngleBracketed(a) = &mut s.arguments {
                    while a.args.len() > 2 {
                        a.args.pop();
                    }
                    if a.args.trailing_punct() {
                        let v: Vec<_> = a.args.iter().cloned().collect();
                        a.args = v.into_iter().collect();
                    }
                    if a.args.len() == 2 && a.args.iter().all(is_variant) {
                        s.ident = Ident::new("HashMapVV", Span::call_site());
                        s.arguments = PathArguments::None;
                    }
                }
            }
        }
    }
}

/// Substitute type parameters by types.
pub struct SubstTy<'a> {
    pub env: &'a BTreeMap<String, Type>,
}
impl<'a> VisitMut for SubstTy<'a> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(p) = t {
            if p.qself.is_none() && p.path.segments.len() == 1 && p.path.segments[0].arguments.is_none() {
                if let Some(n) = self.env.get(&p.path.segments[0].ident.to_string()) {
                    *t = n.clone();
                    return;
                }
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_expr_path_mut(&mut self, e: &mut ExprPath) {
        if e.qself.is_none() && e.path.segments.len() >= 2 {
            let f = e.path.segments[0].ident.to_string();
            if let Some(n) = self.env.get(&f) {
                // T::m  ->  <X>::m
                let rest: Vec<PathSegment> = e.path.segments.iter().skip(1).cloned().collect();
                let toks = quote!(<#n>:: #(#rest)::*);
                if let Ok(Expr::Path(np)) = parse2::<Expr>(toks) {
                    *e = np;
                    return;
                }
            }
        }
        visit_mut::visit_expr_path_mut(self, e);
    }
}

// ------------------------------------------------------------ desugaring

pub struct Desugar<'a> {
    pub fnret: &'a FnRet,
    pub cells: &'a BTreeSet<String>,
    pub byte_consts: &'a BTreeSet<String>,
    pub has_slice_param: bool,
    pub owned_self: bool,
    pub counter: usize,
    pub unsupported: Vec<String>,
    pub used_capacity: bool,
}

fn is_lit_str(p: &Pat) -> bool {
    match p {
        Pat::Lit(ExprLit { lit: Lit::Str(_), .. }) => true,
        Pat::Or(o) => o.cases.iter().all(is_lit_str),
        _ => false,
    }
}
fn is_byte_str(e: &Expr) -> bool {
    match e {
        Expr::Lit(ExprLit { lit: Lit::ByteStr(_), .. }) => true,
        Expr::Reference(r) => is_byte_str(&r.expr),
        Expr::Paren(r) => is_byte_str(&r.expr),
        Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) => is_byte_str(expr),
        _ => false,
    }
}

struct HasEsc(bool);
impl<'ast> Visit<'ast> for HasEsc {
    fn visit_expr_try(&mut self, _: &'ast ExprTry) {
        self.0 = true;
    }
    fn visit_expr_return(&mut self, _: &'ast ExprReturn) {
        self.0 = true;
    }
}
fn escapes(e: &Expr) -> bool {
    let mut h = HasEsc(false);
    h.visit_expr(e);
    h.0
}

impl<'a> Desugar<'a> {
    fn kind(&self, e: &Expr) -> Kind {
        match e {
            Expr::Paren(p) => self.kind(&p.expr),
            Expr::Group(p) => self.kind(&p.expr),
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let n = p.path.segments.last().unwrap().ident.to_string();
                    match n.as_str() {
                        "Some" => Kind::Opt,
                        "Ok" | "Err" => Kind::Res,
                        "char_from_u32" | "from_u32" => Kind::Opt,
                        "from_utf8" | "from_slice" => Kind::Res,
                        _ => *self.fnret.get(&n).unwrap_or(&Kind::Other),
                    }
                } else {
                    Kind::Other
                }
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                match n.as_str() {
                    "as_ref" | "as_mut" | "get" | "get_mut" | "first" | "last" | "single" | "pop" | "ok" | "split_first"
                    | "split_last" | "next" | "take" | "cloned" | "copied" | "err" => Kind::Opt,
                    "ok_or" | "ok_or_else" => Kind::Res,
                    "map" | "or_else" | "and_then" => self.kind(&m.receiver),
                    "map_err" => Kind::Res,
                    _ if n.starts_with("checked_") => Kind::Opt,
                    _ => *self.fnret.get(&n).unwrap_or(&Kind::Other),
                }
            }
            Expr::Match(m) => {
                let mut k = Kind::Other;
                for a in &m.arms {
                    let x = self.kind(&a.body);
                    if x != Kind::Other {
                        k = x;
                    }
                }
                k
            }
            Expr::Block(b) => match b.block.stmts.last() {
                Some(Stmt::Expr(e, None)) => self.kind(e),
                _ => Kind::Other,
            },
            _ => Kind::Other,
        }
    }
    fn bytesy(&self, e: &Expr) -> bool {
        match e {
            Expr::Paren(p) => self.bytesy(&p.expr),
            Expr::Group(p) => self.bytesy(&p.expr),
            Expr::Reference(r) => match &*r.expr {
                Expr::Index(ix) => matches!(&*ix.index, Expr::Range(_)),
                x => self.bytesy(x),
            },
            Expr::Index(ix) => matches!(&*ix.index, Expr::Range(_)),
            Expr::MethodCall(m) => m.method == "as_bytes",
            Expr::Path(p) => {
                p.path.segments.last().map_or(false, |s| self.byte_consts.contains(&s.ident.to_string()))
            }
            e => is_byte_str(e),
        }
    }
    /// pattern and body of a one-argument closure or function path
    fn callee(&self, f: &Expr) -> Option<(TokenStream, TokenStream, bool)> {
        match f {
            Expr::Closure(c) if c.inputs.len() == 1 => {
                if escapes(&c.body) {
                    return None;
                }
                let p = match &c.inputs[0] {
                    Pat::Type(t) => t.pat.to_token_stream(),
                    p => p.to_token_stream(),
                };
                let tup = matches!(&c.inputs[0], Pat::Tuple(_));
                Some((p, c.body.to_token_stream(), tup))
            }
            Expr::Path(p) => {
                let pp = p.to_token_stream();
                Some((quote!(vx_x), quote!(#pp(vx_x)), false))
            }
            _ => None,
        }
    }
    fn fresh(&mut self) -> usize {
        self.counter += 1;
        self.counter
    }
    /// `for PAT in ITER BODY` as an index loop
    fn loop_over(&mut self, pat: TokenStream, iter: Expr, body: TokenStream) -> TokenStream {
        let n = self.fresh();
        let i = Ident::new(&format!("vx_i{}", n), Span::call_site());
        let nn = Ident::new(&format!("vx_n{}", n), Span::call_site());
        let c = Ident::new(&format!("vx_c{}", n), Span::call_site());
        let mut it = iter;
        while let Expr::Paren(p) = it {
            it = *p.expr;
        }
        if let Expr::Range(r) = &it {
            if let (Some(a), Some(b), RangeLimits::HalfOpen(_)) = (&r.start, &r.end, &r.limits) {
                let cc = match len_of(b) {
                    Some(x) => x.to_token_stream(),
                    None => nn.to_token_stream(),
                };
                return quote!({
                    let #nn = #b;
                    let mut #i = #a;
                    __vx_before!(#n);
                    while #i < #nn {
                        __vx_loop!(#n, #i, #cc, #nn);
                        let #pat = #i;
                        #i = #i + 1;
                        #body
                        __vx_loopend!(#n);
                    }
                    __vx_after!(#n);
                });
            }
        }
        let coll = iter_base(&it);
        quote!({
            let #c = #coll;
            let mut #i: usize = 0;
            __vx_before!(#n);
            while #i < #c.len() {
                __vx_loop!(#n, #i, #c, #c);
                let #pat = &#c[#i];
                #i = #i + 1;
                #body
                __vx_loopend!(#n);
            }
            __vx_after!(#n);
        })
    }
}

/// statements without any effect
pub struct NoOps;
fn pure(e: &Expr) -> bool {
    match unparen(e) {
        Expr::Lit(_) | Expr::Path(_) => true,
        Expr::Tuple(t) => t.elems.iter().all(pure),
        Expr::Unary(u) => !matches!(u.op, UnOp::Deref(_)) && lit_only(&u.expr),
        Expr::Binary(b) => lit_only(&b.left) && lit_only(&b.right),
        Expr::Reference(r) => pure(&r.expr),
        Expr::Field(f) => pure(&f.base),
        Expr::Cast(c) => pure(&c.expr),
        Expr::Block(b) => b.label.is_none() && b.block.stmts.is_empty(),
        Expr::MethodCall(m) => (m.method == "len" || m.method == "is_empty") && m.args.is_empty() && pure(&m.receiver),
        Expr::Call(c) => match &*c.func {
            Expr::Path(p) => {
                let last = &p.path.segments.last().unwrap().ident;
                let ok = match c.args.len() {
                    0 => last == "size_of" || last == "align_of" || last == "new" || last == "default",
                    1 => last == "black_box" || last == "identity" || last == "drop" || last == "size_of_val",
                    _ => false,
                };
                let ty = p.path.segments.len() >= 2 && {
                    let t = p.path.segments[p.path.segments.len() - 2].ident.to_string();
                    t == "String" || t == "Vec" || t == "Default"
                };
                let konst = c.args.iter().all(|a| lit_only(a));
                ok && if last == "new" || last == "default" { ty } else { konst || last == "identity" || last == "size_of_val" && c.args.iter().all(pure) }
            }
            _ => false,
        },
        _ => false,
    }
}
/// built from literals only, and small enough not to overflow
fn lit_only(e: &Expr) -> bool {
    match unparen(e) {
        Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) => i.base10_digits().len() <= 2,
        Expr::Lit(_) => true,
        Expr::Tuple(t) => t.elems.iter().all(lit_only),
        Expr::Binary(b) => match b.op {
            BinOp::Add(_) => matches!((unparen(&b.left), unparen(&b.right)), (Expr::Lit(_), Expr::Lit(_))) && lit_only(&b.left) && lit_only(&b.right),
            BinOp::Eq(_) | BinOp::Ne(_) | BinOp::Lt(_) | BinOp::Le(_) | BinOp::Gt(_) | BinOp::Ge(_) => lit_only(&b.left) && lit_only(&b.right),
            _ => false,
        },
        Expr::Unary(u) => matches!(u.op, UnOp::Not(_)) && lit_only(&u.expr),
        _ => false,
    }
}
fn lit_bool(e: &Expr) -> Option<bool> {
    match unparen(e) {
        Expr::Lit(ExprLit { lit: Lit::Bool(b), .. }) => Some(b.value),
        _ => None,
    }
}
impl VisitMut for NoOps {
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        let n = b.stmts.len();
        let idents: Vec<BTreeSet<String>> = b
            .stmts
            .iter()
            .map(|s| {
                let mut r = LoopRoles::default();
                r.visit_stmt(s);
                // identifiers inside macro arguments
                struct M<'a>(&'a mut BTreeSet<String>);
                fn toks(t: TokenStream, o: &mut BTreeSet<String>) {
                    for x in t {
                        match x {
                            proc_macro2::TokenTree::Ident(i) => drop(o.insert(i.to_string())),
                            proc_macro2::TokenTree::Group(g) => toks(g.stream(), o),
                            proc_macro2::TokenTree::Literal(l) => o.extend(l.to_string().split(|c: char| !c.is_alphanumeric() && c != '_').map(|w| w.to_string())),
                            _ => (),
                        }
                    }
                }
                impl<'a, 'ast> Visit<'ast> for M<'a> {
                    fn visit_macro(&mut self, m: &'ast Macro) {
                        toks(m.tokens.clone(), self.0)
                    }
                }
                M(&mut r.idents).visit_stmt(s);
                r.idents
            })
            .collect();
        let mut k = 0;
        b.stmts.retain(|s| {
            let at = k;
            k += 1;
            let last = at + 1 == n;
            match s {
                Stmt::Local(l) => {
                    let pat = match &l.pat {
                        Pat::Type(t) => &*t.pat,
                        p => p,
                    };
                    let dead = match pat {
                        Pat::Wild(_) => true,
                        Pat::Ident(i) => i.ident.to_string().starts_with('_') && idents[at + 1..].iter().all(|x| !x.contains(&i.ident.to_string())),
                        _ => false,
                    };
                    !(dead && l.init.as_ref().map_or(true, |i| i.diverge.is_none() && pure(&i.expr)))
                }
                Stmt::Expr(e, semi) => match unparen(e) {
                    _ if last && semi.is_none() => true,
                    Expr::If(i) if i.else_branch.is_none() => !(lit_bool(&i.cond) == Some(false) || i.then_branch.stmts.is_empty() && pure(&i.cond)),
                    Expr::While(w) => lit_bool(&w.cond) != Some(false),
                    Expr::Loop(w) => w.label.is_some() || !only_break(&w.body),
                    Expr::ForLoop(f) => !(f.body.stmts.is_empty() && matches!(unparen(&f.expr), Expr::Range(r) if r.start.as_ref().map_or(false, |e| lit_only(e)) && r.end.as_ref().map_or(false, |e| lit_only(e)))),
                    e => !pure(e),
                },
                Stmt::Macro(m) if !(last && m.semi_token.is_none()) => {
                    let name = m.mac.path.segments.last().unwrap().ident.to_string();
                    !((name == "assert" || name == "debug_assert") && m.mac.tokens.to_string() == "true")
                }
                _ => true,
            }
        });
    }
}

/// `let mut it = X.iter(); while let Some(p) = it.next() { .. }` as `for p in X.iter() { .. }`
pub struct WhileLet;
impl VisitMut for WhileLet {
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        let mut k = 0;
        while k < b.stmts.len() {
            let hit = match &b.stmts[k] {
                Stmt::Local(l) => match (&l.pat, &l.init) {
                    (Pat::Ident(p), Some(i)) if p.mutability.is_some() && i.diverge.is_none() => match unparen(&i.expr) {
                        Expr::MethodCall(m) if m.args.is_empty() && (m.method == "iter" || m.method == "into_iter") => Some((p.ident.clone(), (*i.expr).clone())),
                        _ => None,
                    },
                    _ => None,
                },
                _ => None,
            };
            if let Some((it, init)) = hit {
                let uses = |s: &Stmt| {
                    let mut r = LoopRoles::default();
                    r.visit_stmt(s);
                    r.idents.contains(&it.to_string())
                };
                let at: Vec<usize> = (k + 1..b.stmts.len()).filter(|j| uses(&b.stmts[*j])).collect();
                if at.len() == 1 {
                    let mut new = None;
                    if let Stmt::Expr(Expr::While(w), semi) = &b.stmts[at[0]] {
                        if let Expr::Let(c) = unparen(&w.cond) {
                            let next = matches!(unparen(&c.expr), Expr::MethodCall(m) if m.method == "next" && m.args.is_empty() && matches!(&*m.receiver, Expr::Path(p) if p.path.is_ident(&it)));
                            let pat = match &*c.pat {
                                Pat::TupleStruct(t) if t.elems.len() == 1 && t.path.segments.last().map_or(false, |s| s.ident == "Some") => Some(t.elems[0].clone()),
                                _ => None,
                            };
                            let inside = w.body.stmts.iter().any(|s| uses(s));
                            if let (true, Some(p), false, None) = (next, pat, inside, &w.label) {
                                let body = &w.body;
                                let f: Expr = parse_quote!(for #p in #init #body);
                                new = Some(Stmt::Expr(f, *semi));
                            }
                        }
                    }
                    if let Some(n) = new {
                        b.stmts[at[0]] = n;
                        b.stmts.remove(k);
                        continue;
                    }
                }
            }
            k += 1;
        }
    }
}

fn unparen(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => unparen(&p.expr),
        Expr::Group(p) => unparen(&p.expr),
        e => e,
    }
}
/// `C` of `C.len()` when `C` is a place
fn len_of(e: &Expr) -> Option<&Expr> {
    match unparen(e) {
        Expr::MethodCall(m) if m.method == "len" && m.args.is_empty() && place(&m.receiver) => Some(&m.receiver),
        _ => None,
    }
}
fn place(e: &Expr) -> bool {
    match e {
        Expr::Path(_) => true,
        Expr::Field(f) => place(&f.base),
        _ => false,
    }
}
fn only_break(b: &Block) -> bool {
    b.stmts.len() == 1 && matches!(&b.stmts[0], Stmt::Expr(Expr::Break(x), _) if x.label.is_none() && x.expr.is_none())
}
/// the counter of a hand-written counting loop, running up to a bound or down to zero
fn counting(c: &Expr, n: usize, negated: bool) -> (TokenStream, TokenStream) {
    let none = Default::default();
    let b = match unparen(c) {
        Expr::Binary(b) => b,
        _ => return none,
    };
    let zero = |e: &Expr| matches!(unparen(e), Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) if i.base10_digits() == "0");
    let (l, r) = (unparen(&b.left), unparen(&b.right));
    let var = |e: &Expr| if let Expr::Path(p) = e { p.path.get_ident().cloned() } else { None };
    let up = |x: Ident, e: &Expr| -> (TokenStream, TokenStream) {
        let cc = len_of(e).unwrap_or(e);
        (quote!(), quote!(, #x, #cc, #e))
    };
    let down = |x: Ident| -> (TokenStream, TokenStream) {
        let nn = Ident::new(&format!("vx_n{}", n), Span::call_site());
        (quote!(let #nn = #x;), quote!(, (#nn - #x), #nn, #nn))
    };
    let (lt, gt, ne) = if negated {
        (matches!(b.op, BinOp::Ge(_)), matches!(b.op, BinOp::Le(_)), matches!(b.op, BinOp::Eq(_)))
    } else {
        (matches!(b.op, BinOp::Lt(_)), matches!(b.op, BinOp::Gt(_)), matches!(b.op, BinOp::Ne(_)))
    };
    match (var(l), var(r)) {
        (Some(x), _) if (gt || ne) && zero(r) => down(x),
        (_, Some(x)) if (lt || ne) && zero(l) => down(x),
        (Some(x), _) if lt || ne => up(x, r),
        (_, Some(x)) if gt || ne => up(x, l),
        _ => none,
    }
}

fn iter_base(it: &Expr) -> TokenStream {
    match it {
        Expr::MethodCall(m) if m.method == "iter" || m.method == "vx_iter" => {
            let r = &m.receiver;
            quote!(#r.vx_iter())
        }
        Expr::Reference(r) => {
            let e = &r.expr;
            quote!((#e).vx_iter())
        }
        Expr::Path(_) | Expr::Field(_) => quote!(#it.vx_iter()),
        e => quote!((#e).vx_iter()),
    }
}

fn is_iter_chain(e: &Expr) -> bool {
    matches!(e, Expr::MethodCall(m) if m.method == "iter" || m.method == "vx_iter")
}

impl<'a> VisitMut for Desugar<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // kinds are computed on the source form
        let rk = if let Expr::MethodCall(m) = e { self.kind(&m.receiver) } else { Kind::Other };
        visit_mut::visit_expr_mut(self, e);
        let new: Option<TokenStream> = match e {
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                let recv = &m.receiver;
                match (name.as_str(), m.args.len()) {
                    ("map", 1) if !is_iter_chain(recv) => match self.callee(&m.args[0]) {
                        Some((p, b, tup)) => {
                            let res = rk == Kind::Res || (rk == Kind::Other && tup);
                            Some(if res {
                                quote!(match #recv { Ok(#p) => Ok(#b), Err(vx_e) => Err(vx_e) })
                            } else {
                                quote!(match #recv { Some(#p) => Some(#b), None => None })
                            })
                        }
                        None => None,
                    },
                    ("map_err", 1) => self
                        .callee(&m.args[0])
                        .map(|(p, b, _)| quote!(match #recv { Ok(vx_o) => Ok(vx_o), Err(#p) => Err(#b) })),
                    ("and_then", 1) => self.callee(&m.args[0]).map(|(p, b, tup)| {
                        if rk == Kind::Res || (rk == Kind::Other && tup) {
                            quote!(match #recv { Ok(#p) => #b, Err(vx_e) => Err(vx_e) })
                        } else {
                            quote!(match #recv { Some(#p) => #b, None => None })
                        }
                    }),
                    ("map_or", 2) => {
                        let d = &m.args[0];
                        self.callee(&m.args[1]).map(|(p, b, _)| {
                            if rk == Kind::Res {
                                quote!(match #recv { Ok(#p) => #b, Err(_) => #d })
                            } else {
                                quote!(match #recv { Some(#p) => #b, None => #d })
                            }
                        })
                    }
                    ("map_or_else", 2) => match (&m.args[0], self.callee(&m.args[1])) {
                        (Expr::Closure(c), Some((p, b, _))) if c.inputs.is_empty() && !escapes(&c.body) && rk != Kind::Res => {
                            let d = &c.body;
                            Some(quote!(match #recv { Some(#p) => #b, None => #d }))
                        }
                        _ => None,
                    },
                    ("unwrap_or_else", 1) => match &m.args[0] {
                        Expr::Closure(c) if c.inputs.is_empty() && !escapes(&c.body) => {
                            let d = &c.body;
                            Some(quote!(match #recv { Some(vx_x) => vx_x, None => #d }))
                        }
                        _ => None,
                    },
                    ("unwrap_or", 1) if rk != Kind::Res => {
                        let d = &m.args[0];
                        Some(quote!(match #recv { Some(vx_x) => vx_x, None => #d }))
                    }
                    ("ok_or_else", 1) => match &m.args[0] {
                        Expr::Closure(c) if c.inputs.is_empty() && !escapes(&c.body) => {
                            let d = &c.body;
                            Some(quote!(match #recv { Some(vx_x) => Ok(vx_x), None => Err(#d) }))
                        }
                        _ => None,
                    },
                    ("ok_or", 1) => {
                        let d = &m.args[0];
                        Some(quote!(match #recv { Some(vx_x) => Ok(vx_x), None => Err(#d) }))
                    }
                    ("expect", 1) => Some(quote!(#recv.unwrap())),
                    ("fold", 2) => match &m.args[1] {
                        Expr::Closure(c) if c.inputs.len() == 2 && !escapes(&c.body) => {
                            let init = m.args[0].clone();
                            let acc = c.inputs[0].clone();
                            let pat = c.inputs[1].to_token_stream();
                            let body = c.body.to_token_stream();
                            let n = self.counter + 1;
                            let a = Ident::new(&format!("vx_a{}", n), Span::call_site());
                            let recv = (**recv).clone();
                            let lp = self.loop_over(pat, recv, quote!(let #acc = #a; #a = #body;));
                            Some(quote!({ let mut #a = #init; #lp #a }))
                        }
                        _ => None,
                    },
                    ("sum", 0) => match &**recv {
                        Expr::MethodCall(mm) if mm.method == "map" && mm.args.len() == 1 => {
                            match self.callee(&mm.args[0]) {
                                Some((p, b, _)) => {
                                    let base = (*mm.receiver).clone();
                                    let n = self.counter + 1;
                                    let a = Ident::new(&format!("vx_a{}", n), Span::call_site());
                                    let lp = self.loop_over(p, base, quote!(#a = #a + (#b);));
                                    Some(quote!({ let mut #a: usize = 0; #lp #a }))
                                }
                                None => None,
                            }
                        }
                        _ => None,
                    },
                    ("for_each", 1) => match self.callee(&m.args[0]) {
                        Some((p, b, _)) => {
                            let r = (**recv).clone();
                            Some(self.loop_over(p, r, quote!(#b;)))
                        }
                        None => None,
                    },
                    ("collect", 0) => match &**recv {
                        Expr::MethodCall(mm) if mm.method == "into_iter" => {
                            let r = &mm.receiver;
                            Some(quote!(#r.vx_into_vec()))
                        }
                        _ => None,
                    },
                    ("iter", 0) => Some(quote!(#recv.vx_iter())),
                    ("get", 0) | ("set", 1) | ("replace", 1) | ("take", 0) => {
                        if let Expr::Field(f) = &**recv {
                            let fname = f.member.to_token_stream().to_string();
                            if self.cells.contains(&fname) {
                                let base = &f.base;
                                let args = &m.args;
                                if name == "get" {
                                    Some(quote!(#recv.vx_get(Ghost((#base).vx_size()))))
                                } else if name == "set" && self.owned_self {
                                    Some(quote!(#recv.vx_set_owned(#args)))
                                } else if name == "set" {
                                    Some(quote!(#recv.vx_set(#args, Ghost((#base).vx_size()))))
                                } else {
                                    self.unsupported.push(format!("Cell::{}", name));
                                    None
                                }
                            } else {
                                None
                            }
                        } else {
                            None
                        }
                    }
                    _ => None,
                }
            }
            Expr::Match(m) if m.arms.iter().any(|a| is_lit_str(&a.pat)) => {
                let s = &m.expr;
                let mut chain: TokenStream = quote!(crate::model::vx_panic());
                for a in m.arms.iter().rev() {
                    let b = &a.body;
                    match &a.pat {
                        Pat::Wild(_) if a.guard.is_none() => chain = quote!({ #b }),
                        Pat::Ident(i) if a.guard.is_none() => {
                            let id = &i.ident;
                            chain = quote!({ let #id = vx_m; #b })
                        }
                        p if is_lit_str(p) => {
                            let lits: Vec<TokenStream> = match p {
                                Pat::Or(o) => o.cases.iter().map(|c| c.to_token_stream()).collect(),
                                p => vec![p.to_token_stream()],
                            };
                            let g = match &a.guard {
                                Some((_, g)) => quote!(&& #g),
                                None => quote!(),
                            };
                            let prev = chain;
                            chain = quote!(if ( #( vx_m == #lits )||* ) #g { #b } else { #prev });
                        }
                        _ => self.unsupported.push("string match pattern".into()),
                    }
                }
                Some(quote!({ let vx_m = #s; #chain }))
            }
            Expr::Binary(b) => {
                let eq = matches!(b.op, BinOp::Eq(_));
                let ne = matches!(b.op, BinOp::Ne(_));
                if (eq || ne) && (self.bytesy(&b.left) || self.bytesy(&b.right)) {
                    let (l, r) = (&b.left, &b.right);
                    let c = quote!(crate::model::bytes_eq(#l, #r));
                    Some(if eq { c } else { quote!(!#c) })
                } else {
                    None
                }
            }
            Expr::Lit(ExprLit { lit: Lit::ByteStr(s), .. }) => {
                let v = s.value();
                Some(quote!(&{ let vx_l = [ #( #v ),* ]; assert(crate::vx::ext_eq(vx_l.view(), seq![ #( #v ),* ])); vx_l }))
            }
            Expr::ForLoop(f) => {
                let pat = f.pat.to_token_stream();
                let it = (*f.expr).clone();
                let body = &f.body.stmts;
                let body = quote!(#(#body)*);
                if f.label.is_some() {
                    None
                } else {
                    let body = if body.is_empty() { body } else { quote!(#body) };
                    Some(self.loop_over(pat, it, body))
                }
            }
            Expr::While(w) => {
                let has = matches!(w.body.stmts.first(), Some(Stmt::Macro(m)) if m.mac.path.is_ident("__vx_loop"));
                if has {
                    None
                } else {
                    let n = self.fresh();
                    let c = &w.cond;
                    let b = &w.body.stmts;
                    let (pre, info) = counting(c, n, false);
                    Some(quote!({ #pre __vx_before!(#n); while #c { __vx_loop!(#n #info); #(#b)* __vx_loopend!(#n); } __vx_after!(#n); }))
                }
            }
            Expr::Loop(w) => {
                let has = matches!(w.body.stmts.first(), Some(Stmt::Macro(m)) if m.mac.path.is_ident("__vx_loop"));
                if has || w.label.is_some() {
                    None
                } else {
                    let n = self.fresh();
                    let b = &w.body.stmts;
                    // `loop { if DONE { break; } .. }`
                    match b.first() {
                        Some(Stmt::Expr(Expr::If(i), _)) if i.else_branch.is_none() && only_break(&i.then_branch) && !counting(&i.cond, n, true).1.is_empty() => {
                            let (pre, info) = counting(&i.cond, n, true);
                            let c = &i.cond;
                            let b = &b[1..];
                            Some(quote!({ #pre __vx_before!(#n); while !(#c) { __vx_loop!(#n #info); #(#b)* __vx_loopend!(#n); } __vx_after!(#n); }))
                        }
                        _ => Some(quote!({ __vx_before!(#n); loop { __vx_loop!(#n); #(#b)* } })),
                    }
                }
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let last = segs.last().unwrap().as_str();
                    let ty = if segs.len() >= 2 { segs[segs.len() - 2].as_str() } else { "" };
                    let maplike = ty == "HashMap" || ty == "HashMapVV";
                    if (last == "with_capacity_and_hasher" && maplike) || (last == "with_capacity" && maplike) {
                        let a = &c.args[0];
                        let id = Ident::new(ty, Span::call_site());
                        if self.has_slice_param {
                            self.used_capacity = true;
                            Some(quote!(crate::model::#id::vx_with_capacity(#a, Ghost(vx_in.len()))))
                        } else {
                            Some(quote!(crate::model::#id::vx_with_capacity(#a, Ghost((#a) as nat))))
                        }
                    } else if last == "with_capacity" && ty == "Vec" && self.has_slice_param {
                        self.used_capacity = true;
                        let a = &c.args[0];
                        Some(quote!(crate::model::vx_vec_with_capacity(#a, Ghost(vx_in.len()))))
                    } else {
                        None
                    }
                } else {
                    None
                }
            }
            _ => None,
        };
        if let Some(ts) = new {
            match parse2::<Expr>(ts.clone()) {
                Ok(x) => *e = x,
                Err(_) => match parse2::<Block>(quote!({ #ts })) {
                    Ok(b) => *e = Expr::Block(ExprBlock { attrs: vec![], label: None, block: b }),
                    Err(er) => self.unsupported.push(format!("desugar: {}", er)),
                },
            }
        }
    }
}

pub struct RenameSelf;
impl VisitMut for RenameSelf {
    fn visit_expr_path_mut(&mut self, e: &mut ExprPath) {
        if e.path.is_ident("self") {
            e.path.segments[0].ident = Ident::new("vx_self", Span::call_site());
        }
    }
}

pub struct StripAttrs;
impl VisitMut for StripAttrs {
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear();
    }
}

// ---------------------------------------------------------------- roles

#[derive(Default)]
pub struct LoopRoles {
    pub assigned: Vec<String>,
    pub pushed: Vec<String>,
    pub modified: Vec<String>,
    bound: BTreeSet<String>,
    /// the loop counter
    pub counter: String,
    pub idents: BTreeSet<String>,
}
impl<'ast> Visit<'ast> for LoopRoles {
    fn visit_ident(&mut self, i: &'ast Ident) {
        self.idents.insert(i.to_string());
    }
    fn visit_pat_ident(&mut self, p: &'ast PatIdent) {
        self.bound.insert(p.ident.to_string());
        visit::visit_pat_ident(self, p);
    }
    fn visit_expr_assign(&mut self, a: &'ast ExprAssign) {
        visit::visit_expr_assign(self, a);
        self.field_root(&a.left);
        if let Expr::Path(p) = &*a.left {
            if let Some(i) = p.path.get_ident() {
                let s = i.to_string();
                if !s.starts_with("vx_i") && s != self.counter && !self.assigned.contains(&s) {
                    self.assigned.push(s);
                }
            }
        }
    }
    fn visit_expr_binary(&mut self, b: &'ast ExprBinary) {
        visit::visit_expr_binary(self, b);
        let is = matches!(b.op, BinOp::AddAssign(_) | BinOp::SubAssign(_));
        if is {
            if let Expr::Path(p) = &*b.left {
                if let Some(i) = p.path.get_ident() {
                    let s = i.to_string();
                    if s != self.counter && !self.assigned.contains(&s) {
                        self.assigned.push(s);
                    }
                }
            }
        }
    }
    fn visit_expr_method_call(&mut self, m: &'ast ExprMethodCall) {
        visit::visit_expr_method_call(self, m);
        if m.method == "push" || m.method == "insert" {
            self.field_root(&m.receiver);
            if let Expr::Path(p) = &*m.receiver {
                if let Some(i) = p.path.get_ident() {
                    let s = i.to_string();
                    if !self.pushed.contains(&s) {
                        self.pushed.push(s);
                    }
                }
            }
        }
    }
}
impl LoopRoles {
    fn field_root(&mut self, e: &Expr) {
        let mut e = e;
        let mut deep = false;
        loop {
            match e {
                Expr::Field(f) => {
                    deep = true;
                    e = &f.base;
                }
                Expr::Path(p) if deep => {
                    if let Some(i) = p.path.get_ident() {
                        let s = i.to_string();
                        if !self.modified.contains(&s) {
                            self.modified.push(s);
                        }
                    }
                    return;
                }
                _ => return,
            }
        }
    }
    pub fn finish(&mut self) {
        let b = self.bound.clone();
        self.modified.retain(|x| !b.contains(x));
        self.assigned.retain(|x| !b.contains(x));
        self.pushed.retain(|x| !b.contains(x));
    }
}
