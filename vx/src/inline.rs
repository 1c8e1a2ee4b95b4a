//! Inlining of helper functions that have no contract (extracted helpers), and
//! beta reduction of closures passed to inlined functions.
use proc_macro2::{Ident, Span};
use quote::quote;
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Clone)]
pub struct Helper {
    pub name: String,
    pub owner: Option<String>,
    pub generics: Generics,
    pub receiver: Option<bool>, // Some(by_ref)
    pub params: Vec<(Pat, Type)>,
    pub ret: ReturnType,
    pub block: Block,
}

#[derive(Default)]
struct Bound(BTreeSet<String>);
impl<'ast> Visit<'ast> for Bound {
    fn visit_pat_ident(&mut self, p: &'ast PatIdent) {
        let s = p.ident.to_string();
        // upper-case identifiers in patterns are constants or variants
        if !s.chars().next().map_or(false, |c| c.is_uppercase()) {
            self.0.insert(s);
        }
        visit::visit_pat_ident(self, p);
    }
}

struct Rename<'a> {
    names: &'a BTreeSet<String>,
    suffix: &'a str,
}
impl<'a> VisitMut for Rename<'a> {
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
        let s = p.ident.to_string();
        if self.names.contains(&s) {
            p.ident = Ident::new(&format!("{}{}", s, self.suffix), Span::call_site());
        }
        visit_mut::visit_pat_ident_mut(self, p);
    }
    fn visit_field_pat_mut(&mut self, f: &mut FieldPat) {
        if f.colon_token.is_none() {
            if let Pat::Ident(p) = &*f.pat {
                if self.names.contains(&p.ident.to_string()) {
                    f.colon_token = Some(Default::default());
                }
            }
        }
        visit_mut::visit_field_pat_mut(self, f);
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        if f.colon_token.is_none() {
            if let Expr::Path(p) = &f.expr {
                if let Some(i) = p.path.get_ident() {
                    if self.names.contains(&i.to_string()) {
                        f.colon_token = Some(Default::default());
                    }
                }
            }
        }
        visit_mut::visit_field_value_mut(self, f);
    }
    fn visit_expr_path_mut(&mut self, e: &mut ExprPath) {
        if e.qself.is_none() && e.path.leading_colon.is_none() && e.path.segments.len() == 1 {
            let s = e.path.segments[0].ident.to_string();
            if self.names.contains(&s) {
                e.path.segments[0].ident = Ident::new(&format!("{}{}", s, self.suffix), Span::call_site());
            }
        }
        visit_mut::visit_expr_path_mut(self, e);
    }
}

#[derive(Default)]
struct Escapes {
    ret_ok: bool,
    ret: bool,
    tri: bool,
}
impl<'ast> Visit<'ast> for Escapes {
    fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
    fn visit_expr_return(&mut self, r: &'ast ExprReturn) {
        self.ret = true;
        let is_err = match r.expr.as_deref() {
            Some(Expr::Call(c)) => matches!(&*c.func, Expr::Path(p) if p.path.segments.last().unwrap().ident == "Err"),
            _ => false,
        };
        if !is_err {
            self.ret_ok = true;
        }
        visit::visit_expr_return(self, r);
    }
    fn visit_expr_try(&mut self, t: &'ast ExprTry) {
        self.tri = true;
        visit::visit_expr_try(self, t);
    }
}

/// Calls of closure-valued parameters become the closure body.
struct Beta<'a> {
    clos: &'a BTreeMap<String, ExprClosure>,
    pub counter: &'a mut usize,
}
impl<'a> VisitMut for Beta<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &*c.func {
                if let Some(i) = p.path.get_ident() {
                    if let Some(cl) = self.clos.get(&i.to_string()) {
                        if cl.inputs.len() == c.args.len() {
                            *self.counter += 1;
                            let mut cl = cl.clone();
                            let mut b = Bound::default();
                            for i in &cl.inputs {
                                b.visit_pat(i);
                            }
                            let suf = format!("_b{}", self.counter);
                            let mut rn = Rename { names: &b.0, suffix: &suf };
                            for i in cl.inputs.iter_mut() {
                                rn.visit_pat_mut(i);
                            }
                            rn.visit_expr_mut(&mut cl.body);
                            let pats = cl.inputs.iter();
                            let args = c.args.iter();
                            let body = &cl.body;
                            let ts = quote!({ #( let #pats = #args; )* #body });
                            if let Ok(x) = parse2::<Expr>(ts) {
                                *e = x;
                            }
                        }
                    }
                }
            }
        }
    }
}

fn pure_ctx(e: &Expr) -> bool {
    match e {
        Expr::Path(_) | Expr::Lit(_) => true,
        Expr::Try(_) => true,
        Expr::Paren(x) => pure_ctx(&x.expr),
        Expr::Reference(x) => pure_ctx(&x.expr),
        Expr::Field(x) => pure_ctx(&x.base),
        Expr::Cast(x) => pure_ctx(&x.expr),
        Expr::Unary(x) => pure_ctx(&x.expr),
        Expr::Tuple(t) => t.elems.iter().all(pure_ctx),
        Expr::Struct(t) => t.rest.is_none() && t.fields.iter().all(|f| pure_ctx(&f.expr)),
        Expr::Call(c) => {
            let ctor = matches!(&*c.func, Expr::Path(p) if p.path.segments.last().unwrap().ident.to_string().chars().next().map_or(false, |c| c.is_uppercase()));
            ctor && c.args.iter().all(pure_ctx)
        }
        _ => false,
    }
}
fn escapes_e(e: &Expr) -> bool {
    let mut x = Escapes::default();
    x.visit_expr(e);
    x.ret || x.tri
}
fn escapes_s(s: &Stmt) -> bool {
    let mut x = Escapes::default();
    x.visit_stmt(s);
    x.ret || x.tri
}
fn escapes_b(b: &Block) -> bool {
    let mut x = Escapes::default();
    x.visit_block(b);
    x.ret || x.tri
}
struct Hoist {
    out: Vec<(Ident, Expr)>,
    counter: usize,
}
impl VisitMut for Hoist {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Try(t) = e {
            let id = Ident::new(&format!("vx_q{}_{}", self.counter, self.out.len()), Span::call_site());
            self.out.push((id.clone(), (*t.expr).clone()));
            *e = parse_quote!(#id);
            return;
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
/// Rewrites a body with early exits (`return`, `?`) at statement level into nested
/// `if`/`match` expressions without any; None when the shape is not covered.
fn elim(stmts: &[Stmt], counter: &mut usize) -> Option<Block> {
    for (i, s) in stmts.iter().enumerate() {
        if !escapes_s(s) {
            continue;
        }
        let before = &stmts[..i];
        let rest = &stmts[i + 1..];
        let last = rest.is_empty();
        // strip one-statement wrapper blocks
        fn unwrap<'x>(e: &'x Expr) -> &'x Expr {
            match e {
                Expr::Block(b) if b.label.is_none() && b.block.stmts.len() == 1 => match &b.block.stmts[0] {
                    Stmt::Expr(x, _) => unwrap(x),
                    _ => e,
                },
                Expr::Paren(p) => unwrap(&p.expr),
                _ => e,
            }
        }
        match s {
            Stmt::Expr(e, semi) => {
                let e = unwrap(e);
                match e {
                    Expr::Return(r) => {
                        let x = r.expr.as_ref()?;
                        let x: Stmt = Stmt::Expr((**x).clone(), None);
                        let inner = elim(&[x], counter)?;
                        let st = inner.stmts;
                        return Some(parse_quote!({ #(#before)* #(#st)* }));
                    }
                    Expr::If(f) if !last || semi.is_some() => {
                        if escapes_e(&f.cond) {
                            return None;
                        }
                        let diverges = |b: &Block| matches!(b.stmts.last(), Some(Stmt::Expr(Expr::Return(_), _)));
                        let c = &f.cond;
                        match &f.else_branch {
                            None if diverges(&f.then_branch) => {
                                let a = elim(&f.then_branch.stmts, counter)?;
                                let b = elim(rest, counter)?;
                                return Some(parse_quote!({ #(#before)* if #c #a else #b }));
                            }
                            _ => return None,
                        }
                    }
                    Expr::If(f) => {
                        if escapes_e(&f.cond) {
                            return None;
                        }
                        let c = &f.cond;
                        let a = elim(&f.then_branch.stmts, counter)?;
                        let b: Expr = match f.else_branch.as_ref().map(|x| &*x.1)? {
                            Expr::Block(b) => {
                                let b = elim(&b.block.stmts, counter)?;
                                parse_quote!(#b)
                            }
                            x => {
                                let b = elim(&[Stmt::Expr(x.clone(), None)], counter)?;
                                parse_quote!(#b)
                            }
                        };
                        return Some(parse_quote!({ #(#before)* if #c #a else #b }));
                    }
                    Expr::Match(m) if last && semi.is_none() => {
                        if escapes_e(&m.expr) {
                            return None;
                        }
                        let mut m = m.clone();
                        for a in m.arms.iter_mut() {
                            if escapes_e(&a.body) {
                                let b = elim(&[Stmt::Expr((*a.body).clone(), None)], counter)?;
                                a.body = parse_quote!(#b);
                                a.comma = Some(Default::default());
                            }
                        }
                        return Some(parse_quote!({ #(#before)* #m }));
                    }
                    Expr::Block(b) if last && semi.is_none() && b.label.is_none() => {
                        let x = elim(&b.block.stmts, counter)?;
                        let st = x.stmts;
                        return Some(parse_quote!({ #(#before)* { #(#st)* } }));
                    }
                    Expr::Try(t) if !last && !escapes_e(&t.expr) => {
                        let x = &t.expr;
                        let b = elim(rest, counter)?;
                        return Some(parse_quote!({ #(#before)* match #x { Ok(_) => #b, Err(vx_e) => Err(core::convert::From::from(vx_e)) } }));
                    }
                    _ if last && semi.is_none() && pure_ctx(e) => {
                        *counter += 1;
                        let mut h = Hoist { out: vec![], counter: *counter };
                        let mut e = e.clone();
                        h.visit_expr_mut(&mut e);
                        if h.out.is_empty() || escapes_e(&e) {
                            return None;
                        }
                        let mut cur: Expr = e;
                        for (id, x) in h.out.into_iter().rev() {
                            if escapes_e(&x) {
                                return None;
                            }
                            cur = parse_quote!(match #x { Ok(#id) => #cur, Err(vx_e) => Err(core::convert::From::from(vx_e)) });
                        }
                        return Some(parse_quote!({ #(#before)* #cur }));
                    }
                    _ => return None,
                }
            }
            Stmt::Local(l) => {
                let init = l.init.as_ref()?;
                if init.diverge.is_some() || last {
                    return None;
                }
                match unwrap(&init.expr) {
                    Expr::Try(t) if !escapes_e(&t.expr) => {
                        let x = &t.expr;
                        let b = elim(rest, counter)?;
                        let (pat, ty) = match &l.pat {
                            Pat::Type(pt) => ((*pt.pat).clone(), Some(pt.ty.clone())),
                            p => (p.clone(), None),
                        };
                        if let Some(t) = ty {
                            *counter += 1;
                            let v = Ident::new(&format!("vx_t{}", counter), Span::call_site());
                            let st = b.stmts;
                            return Some(parse_quote!({ #(#before)* match #x { Ok(#v) => { let #pat: #t = #v; #(#st)* } Err(vx_e) => Err(core::convert::From::from(vx_e)) } }));
                        }
                        return Some(parse_quote!({ #(#before)* match #x { Ok(#pat) => #b, Err(vx_e) => Err(core::convert::From::from(vx_e)) } }));
                    }
                    // let p = match e { ..., pat => return X }
                    Expr::Match(m) => {
                        if escapes_e(&m.expr) {
                            return None;
                        }
                        let mut m = m.clone();
                        let mut live = 0;
                        let pat = &l.pat;
                        let b = elim(rest, counter)?;
                        for a in m.arms.iter_mut() {
                            let body = unwrap(&a.body).clone();
                            if let Expr::Return(r) = &body {
                                let x = r.expr.as_ref()?;
                                let nb = elim(&[Stmt::Expr((**x).clone(), None)], counter)?;
                                a.body = parse_quote!(#nb);
                            } else {
                                if escapes_e(&body) {
                                    return None;
                                }
                                live += 1;
                                let st = &b.stmts;
                                a.body = parse_quote!({ let #pat = #body; #(#st)* });
                            }
                            a.comma = Some(Default::default());
                        }
                        if live != 1 {
                            return None;
                        }
                        return Some(parse_quote!({ #(#before)* #m }));
                    }
                    // let p = { stmts; e }: the statements come first, under fresh names
                    Expr::Block(bl) if bl.label.is_none() && matches!(bl.block.stmts.last(), Some(Stmt::Expr(_, None))) => {
                        *counter += 1;
                        let mut names = Bound::default();
                        names.visit_block(&bl.block);
                        let mut names = names.0;
                        names.remove("self");
                        let mut block = bl.block.clone();
                        let suffix = format!("_b{}", counter);
                        Rename { names: &names, suffix: &suffix }.visit_block_mut(&mut block);
                        let e = match block.stmts.pop() {
                            Some(Stmt::Expr(e, None)) => e,
                            _ => return None,
                        };
                        let mut seq: Vec<Stmt> = block.stmts;
                        let mut l2 = l.clone();
                        l2.init.as_mut()?.expr = Box::new(e);
                        seq.push(Stmt::Local(l2));
                        seq.extend(rest.iter().cloned());
                        let b = elim(&seq, counter)?;
                        let st = b.stmts;
                        return Some(parse_quote!({ #(#before)* #(#st)* }));
                    }
                    _ => return None,
                }
            }
            _ => return None,
        }
    }
    Some(parse_quote!({ #(#stmts)* }))
}

/// type parameters of an inlined helper replaced, its lifetimes elided
struct SubstTy<'a> {
    map: &'a BTreeMap<String, Type>,
    tps: &'a [String],
    bounds: Vec<(String, Vec<Path>)>,
}
impl<'a> VisitMut for SubstTy<'a> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        visit_mut::visit_type_mut(self, t);
        if let Type::Path(p) = t {
            if p.qself.is_none() {
                if let Some(i) = p.path.get_ident() {
                    let i = i.to_string();
                    if let Some(x) = self.map.get(&i) {
                        *t = x.clone();
                    } else if self.tps.contains(&i) {
                        *t = parse_quote!(_);
                    }
                }
            }
        }
    }
    fn visit_type_reference_mut(&mut self, r: &mut TypeReference) {
        visit_mut::visit_type_reference_mut(self, r);
        if r.lifetime.as_ref().map_or(false, |l| l.ident != "static") {
            r.lifetime = None;
        }
    }
    fn visit_lifetime_mut(&mut self, l: &mut Lifetime) {
        if l.ident != "static" {
            *l = Lifetime::new("'_", Span::call_site());
        }
    }
    fn visit_expr_path_mut(&mut self, e: &mut ExprPath) {
        visit_mut::visit_expr_path_mut(self, e);
        if e.qself.is_none() && e.path.segments.len() == 2 {
            let i = e.path.segments[0].ident.to_string();
            if self.tps.contains(&i) {
                let t: Type = self.map.get(&i).cloned().unwrap_or_else(|| parse_quote!(_));
                let s = &e.path.segments[1];
                // the only bound names the trait of the method
                let tr = match (self.map.get(&i), self.bounds.iter().find(|b| b.0 == i)) {
                    (None, Some((_, b))) if b.len() == 1 => Some(b[0].clone()),
                    _ => None,
                };
                *e = match tr {
                    Some(b) => parse_quote!(<#t as #b>::#s),
                    None => parse_quote!(<#t>::#s),
                };
            }
        }
    }
}

fn fish(p: &PathArguments) -> Vec<Type> {
    match p {
        PathArguments::AngleBracketed(a) => a
            .args
            .iter()
            .filter_map(|x| if let GenericArgument::Type(t) = x { Some(t.clone()) } else { None })
            .collect(),
        _ => vec![],
    }
}

pub struct Inliner<'a> {
    pub helpers: &'a BTreeMap<String, Helper>,
    pub counter: usize,
    pub used: BTreeSet<String>,
    pub failed: BTreeSet<String>,
    pub owner: Option<String>,
    depth: usize,
    tail: bool,
}

impl<'a> Inliner<'a> {
    pub fn new(helpers: &'a BTreeMap<String, Helper>, owner: Option<String>) -> Self {
        Inliner { helpers, counter: 0, used: Default::default(), failed: Default::default(), owner, depth: 0, tail: false }
    }
    fn build(&mut self, h: &Helper, recv: Option<Expr>, args: Vec<Expr>, fish: Vec<Type>, under_try: bool, tail: bool) -> Option<Expr> {
        if self.depth > 6 || args.len() != h.params.len() || recv.is_some() != h.receiver.is_some() {
            return None;
        }
        let mut h0 = h.clone();
        let substituted = fish.len() == h.generics.type_params().count();
        {
            // type parameters: the given types, or left to inference
            let tps: Vec<String> = h.generics.type_params().map(|t| t.ident.to_string()).collect();
            let mut bounds: Vec<(String, Vec<Path>)> = vec![];
            for t in h.generics.type_params() {
                let mut v: Vec<Path> = vec![];
                let mut add = |x: &syn::punctuated::Punctuated<TypeParamBound, Token![+]>| {
                    for b in x {
                        if let TypeParamBound::Trait(b) = b {
                            v.push(b.path.clone());
                        }
                    }
                };
                add(&t.bounds);
                if let Some(w) = &h.generics.where_clause {
                    for p in &w.predicates {
                        if let WherePredicate::Type(p) = p {
                            if matches!(&p.bounded_ty, Type::Path(q) if q.path.is_ident(&t.ident)) {
                                add(&p.bounds);
                            }
                        }
                    }
                }
                bounds.push((t.ident.to_string(), v));
            }
            let mut map: BTreeMap<String, Type> = BTreeMap::new();
            if fish.len() == tps.len() {
                map.extend(tps.iter().cloned().zip(fish));
            }
            let mut b = SubstTy { map: &map, tps: &tps, bounds };
            b.visit_block_mut(&mut h0.block);
            for (p, t) in h0.params.iter_mut() {
                b.visit_pat_mut(p);
                b.visit_type_mut(t);
            }
            b.visit_return_type_mut(&mut h0.ret);
        }
        if escapes_b(&h0.block) && !tail {
            let nb = elim(&h0.block.stmts, &mut self.counter);
            match nb {
                Some(b) if !escapes_b(&b) => h0.block = b,
                _ => {
                    let mut esc = Escapes::default();
                    esc.visit_block(&h.block);
                    if !under_try || esc.ret_ok {
                        return None;
                    }
                }
            }
        }
        let h = &h0;
        self.counter += 1;
        let suffix = format!("_h{}", self.counter);
        let mut names = Bound::default();
        for (p, _) in &h.params {
            names.visit_pat(p);
        }
        names.visit_block(&h.block);
        let mut names = names.0;
        names.remove("self");
        let mut block = h.block.clone();
        let mut params = h.params.clone();
        {
            let mut rn = Rename { names: &names, suffix: &suffix };
            rn.visit_block_mut(&mut block);
            for (p, _) in params.iter_mut() {
                rn.visit_pat_mut(p);
            }
        }
        let mut stmts: Vec<Stmt> = vec![];
        let generic: BTreeSet<String> =
            h.generics.type_params().map(|t| t.ident.to_string()).filter(|_| !substituted).collect();
        let mut clos: BTreeMap<String, ExprClosure> = BTreeMap::new();
        for ((p, t), a) in params.iter().zip(args) {
            if let (Expr::Closure(c), Pat::Ident(pi)) = (&a, p) {
                clos.insert(pi.ident.to_string(), c.clone());
                continue;
            }
            let tt = quote!(#t).to_string();
            let gen = tt.contains("impl ") || tt.split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| w == "_" || generic.contains(w));
            let st: Stmt = if gen { parse_quote!(let #p = #a;) } else { parse_quote!(let #p: #t = #a;) };
            stmts.push(st);
        }
        if let Some(r) = recv {
            let id = Ident::new(&format!("vx_self{}", suffix), Span::call_site());
            let st: Stmt = match h.receiver {
                Some(true) => parse_quote!(let #id = &(#r);),
                _ => parse_quote!(let mut #id = #r;),
            };
            stmts.insert(0, st);
            struct S(Ident);
            impl VisitMut for S {
                fn visit_expr_path_mut(&mut self, e: &mut ExprPath) {
                    if e.path.is_ident("self") {
                        e.path.segments[0].ident = self.0.clone();
                    }
                }
            }
            S(id).visit_block_mut(&mut block);
        }
        if !clos.is_empty() {
            let mut b = Beta { clos: &clos, counter: &mut self.counter };
            b.visit_block_mut(&mut block);
        }
        let keep_ty = match &h.ret {
            ReturnType::Type(_, t) => {
                let tt = quote!(#t).to_string();
                let gen = tt.contains("impl ") || tt.contains("Self") || tt.split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| w == "HashMap" && h.generics.type_params().count() > 0);
                if gen { None } else { Some(t.clone()) }
            }
            _ => None,
        };
        self.depth += 1;
        let t0 = self.tail;
        self.tail = tail;
        self.visit_block_mut(&mut block);
        self.tail = t0;
        self.depth -= 1;
        self.used.insert(h.name.clone());
        let e: Expr = match keep_ty {
            Some(t) if !tail => {
                let v = Ident::new(&format!("vx_r{}", suffix), Span::call_site());
                parse_quote!({ #(#stmts)* let #v: #t = #block; #v })
            }
            _ => {
                let inner = &block.stmts;
                parse_quote!({ #(#stmts)* #(#inner)* })
            }
        };
        Some(e)
    }
    fn lookup_call(&self, p: &ExprPath) -> Option<Helper> {
        if p.qself.is_some() {
            return None;
        }
        let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
        let n = segs.last()?.clone();
        if segs.len() >= 2 {
            let ty = segs[segs.len() - 2].clone();
            let ty = if ty == "Self" { self.owner.clone().unwrap_or(ty) } else { ty };
            if let Some(h) = self.helpers.get(&format!("{}::{}", ty, n)) {
                return Some(h.clone());
            }
            if ty.chars().next().map_or(false, |c| c.is_uppercase()) {
                return None;
            }
        }
        self.helpers.get(&n).cloned()
    }
    fn lookup_method(&self, n: &str) -> Option<Helper> {
        // a method name without contract anywhere
        self.helpers.get(&format!(".{}", n)).cloned()
    }
    fn try_inline(&mut self, e: &Expr, under_try: bool, tail: bool) -> Option<Expr> {
        match e {
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let h = self.lookup_call(p)?;
                    let mut args: Vec<Expr> = c.args.iter().cloned().collect();
                    self.visit_args(&mut args);
                    let recv = if h.receiver.is_some() && !args.is_empty() { Some(args.remove(0)) } else { None };
                    let r = self.build(&h, recv, args, fish(&p.path.segments.last().unwrap().arguments), under_try, tail);
                    if r.is_none() {
                        self.failed.insert(h.name.clone());
                    }
                    return r;
                }
                None
            }
            Expr::MethodCall(m) => {
                let h = self.lookup_method(&m.method.to_string())?;
                let mut args: Vec<Expr> = m.args.iter().cloned().collect();
                self.visit_args(&mut args);
                let mut rc = vec![(*m.receiver).clone()];
                self.visit_args(&mut rc);
                let ts = m
                    .turbofish
                    .as_ref()
                    .map(|a| fish(&PathArguments::AngleBracketed(a.clone())))
                    .unwrap_or_default();
                let r = self.build(&h, Some(rc.pop().unwrap()), args, ts, under_try, tail);
                if r.is_none() {
                    self.failed.insert(h.name.clone());
                }
                r
            }
            _ => None,
        }
    }
    fn visit_args(&mut self, args: &mut Vec<Expr>) {
        let t = self.tail;
        self.tail = false;
        for a in args.iter_mut() {
            self.visit_expr_mut(a);
        }
        self.tail = t;
    }
    pub fn run(&mut self, b: &mut Block) {
        self.tail = true;
        self.visit_block_mut(b);
    }
}

impl<'a> VisitMut for Inliner<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let t = self.tail;
        let n = b.stmts.len();
        for (i, s) in b.stmts.iter_mut().enumerate() {
            self.tail = t && i + 1 == n && matches!(s, Stmt::Expr(_, None));
            self.visit_stmt_mut(s);
        }
        self.tail = t;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let t = self.tail;
        match e {
            Expr::Try(x) => {
                self.tail = false;
                if let Some(n) = self.try_inline(&x.expr, true, false) {
                    x.expr = Box::new(n);
                } else {
                    self.visit_expr_mut(&mut x.expr);
                }
                self.tail = t;
                return;
            }
            Expr::Return(r) => {
                if let Some(x) = &mut r.expr {
                    self.tail = false;
                    self.visit_expr_mut(x);
                }
                self.tail = t;
                return;
            }
            Expr::Block(_) | Expr::If(_) | Expr::Match(_) | Expr::Paren(_) => {}
            _ => {
                if let Some(n) = self.try_inline(e, false, t) {
                    *e = n;
                    // arguments of the call
                    return;
                }
                self.tail = false;
            }
        }
        match e {
            Expr::If(i) => {
                self.tail = false;
                self.visit_expr_mut(&mut i.cond);
                self.tail = t;
                self.visit_block_mut(&mut i.then_branch);
                if let Some((_, x)) = &mut i.else_branch {
                    self.visit_expr_mut(x);
                }
            }
            Expr::Match(m) => {
                self.tail = false;
                self.visit_expr_mut(&mut m.expr);
                for a in m.arms.iter_mut() {
                    if let Some((_, g)) = &mut a.guard {
                        self.tail = false;
                        self.visit_expr_mut(g);
                    }
                    self.tail = t;
                    self.visit_expr_mut(&mut a.body);
                }
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
        self.tail = t;
    }
    fn visit_expr_closure_mut(&mut self, c: &mut ExprClosure) {
        let t = self.tail;
        self.tail = false;
        visit_mut::visit_expr_closure_mut(self, c);
        self.tail = t;
    }
    fn visit_expr_while_mut(&mut self, c: &mut ExprWhile) {
        let t = self.tail;
        self.tail = false;
        visit_mut::visit_expr_while_mut(self, c);
        self.tail = t;
    }
}
