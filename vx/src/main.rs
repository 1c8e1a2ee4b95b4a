//! vx: extracts the crate under verification into one Verus file, merging the
//! contracts kept in /verif/contracts. Usage:
//!   vx --src SRC_DIR --out FILE --report FILE [--external KEY]... CONTRACT_FILES...
mod contracts;
mod inline;
mod macros;
mod printer;
mod xform;

use contracts::Contracts;
use inline::{Helper, Inliner};
use macros::{Expander, Macros};
use proc_macro2::{Ident, Span, TokenStream};
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path as FsPath, PathBuf};
use syn::spanned::Spanned;
use syn::visit::Visit;
use syn::visit_mut::VisitMut;
use syn::*;
use xform::*;

struct Module {
    path: Vec<String>,
    file: PathBuf,
    items: Vec<Item>,
    aliases: BTreeMap<String, Vec<String>>,
    glob_super: bool,
    super_names: Vec<String>,
    full: BTreeMap<String, Vec<String>>,
    children: Vec<Module>,
}

fn is_cfg_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        a.path().is_ident("test")
            || (a.path().is_ident("cfg") && a.meta.to_token_stream().to_string().contains("test"))
    })
}
fn attrs_of(i: &Item) -> &[Attribute] {
    match i {
        Item::Const(x) => &x.attrs,
        Item::Enum(x) => &x.attrs,
        Item::Fn(x) => &x.attrs,
        Item::Impl(x) => &x.attrs,
        Item::Macro(x) => &x.attrs,
        Item::Mod(x) => &x.attrs,
        Item::Struct(x) => &x.attrs,
        Item::Trait(x) => &x.attrs,
        Item::Type(x) => &x.attrs,
        Item::Use(x) => &x.attrs,
        Item::Static(x) => &x.attrs,
        _ => &[],
    }
}

fn load(file: &FsPath, dir: &FsPath, path: Vec<String>, items: Option<Vec<Item>>) -> Module {
    let items = match items {
        Some(i) => i,
        None => {
            let text = std::fs::read_to_string(file).unwrap_or_else(|e| panic!("{}: {}", file.display(), e));
            match parse_file(&text) {
                Ok(f) => f.items,
                Err(e) => {
                    eprintln!("parse error {}: {}", file.display(), e);
                    std::process::exit(3);
                }
            }
        }
    };
    let mut m = Module { path, file: file.to_path_buf(), items: vec![], aliases: Default::default(), glob_super: false, super_names: vec![], full: Default::default(), children: vec![] };
    for it in items {
        if is_cfg_test(attrs_of(&it)) {
            continue;
        }
        if let Item::Mod(md) = &it {
            let n = md.ident.to_string();
            let mut p = m.path.clone();
            p.push(n.clone());
            let child = match &md.content {
                Some((_, its)) => load(file, &dir.join(&n), p, Some(its.clone())),
                None => {
                    let a = dir.join(format!("{}.rs", n));
                    let b = dir.join(&n).join("mod.rs");
                    let f = if a.exists() { a } else { b };
                    load(&f, &dir.join(&n), p, None)
                }
            };
            m.children.push(child);
            m.items.push(it);
            continue;
        }
        m.items.push(it);
    }
    m
}

const EXTERNAL: &[&str] = &[
    "std", "core", "alloc", "bytes", "hashbrown", "ordered_float", "uuid", "string", "chrono", "tokio_io", "tokio_codec", "derive_more", "log",
];

/// Flattens a use tree into (path, alias) leaves.
fn leaves(t: &UseTree, pre: &mut Vec<String>, out: &mut Vec<(Vec<String>, String)>) {
    match t {
        UseTree::Path(p) => {
            pre.push(p.ident.to_string());
            leaves(&p.tree, pre, out);
            pre.pop();
        }
        UseTree::Name(n) => {
            let s = n.ident.to_string();
            if s == "self" {
                out.push((pre.clone(), pre.last().unwrap().clone()));
            } else {
                let mut p = pre.clone();
                p.push(s.clone());
                out.push((p, s));
            }
        }
        UseTree::Rename(r) => {
            let s = r.ident.to_string();
            let mut p = pre.clone();
            if s != "self" {
                p.push(s);
            }
            out.push((p, r.rename.to_string()));
        }
        UseTree::Glob(_) => {
            let mut p = pre.clone();
            p.push("*".into());
            out.push((p, "*".into()));
        }
        UseTree::Group(g) => {
            for t in &g.items {
                leaves(t, pre, out);
            }
        }
    }
}

fn own_names(m: &Module) -> Vec<(String, bool)> {
    let mut v = vec![];
    for it in &m.items {
        match it {
            Item::Fn(f) => v.push((f.sig.ident.to_string(), false)),
            Item::Struct(f) => v.push((f.ident.to_string(), true)),
            Item::Enum(f) => v.push((f.ident.to_string(), true)),
            Item::Type(f) => v.push((f.ident.to_string(), true)),
            Item::Trait(f) => v.push((f.ident.to_string(), true)),
            Item::Const(f) => v.push((f.ident.to_string(), false)),
            _ => {}
        }
    }
    v
}

fn collect_aliases(m: &mut Module, parent: &BTreeMap<String, Vec<String>>, pfull: &BTreeMap<String, Vec<String>>, pnames: &[String]) {
    let mut al: BTreeMap<String, Vec<String>> = BTreeMap::new();
    let mut glob = false;
    for it in &m.items {
        if let Item::Use(u) = it {
            let mut ls = vec![];
            leaves(&u.tree, &mut vec![], &mut ls);
            for (p, a) in ls {
                if p[0] == "super" && p.len() == 2 && a == "*" {
                    glob = true;
                }
                if EXTERNAL.contains(&p[0].as_str()) && a != "*" {
                    al.insert(a, p);
                }
            }
        }
    }
    if glob {
        for (k, v) in parent {
            al.entry(k.clone()).or_insert(v.clone());
        }
    }
    m.aliases = al.clone();
    m.glob_super = glob;
    if glob {
        m.super_names = pnames.to_vec();
    }
    // every name of the module with an absolute path
    let mut full: BTreeMap<String, Vec<String>> = if glob { pfull.clone() } else { BTreeMap::new() };
    full.extend(al.clone());
    let mut here = vec!["crate".to_string()];
    here.extend(m.path.iter().cloned());
    for it in &m.items {
        if let Item::Use(u) = it {
            let mut ls = vec![];
            leaves(&u.tree, &mut vec![], &mut ls);
            for (p, a) in ls {
                if a == "*" || EXTERNAL.contains(&p[0].as_str()) {
                    continue;
                }
                let mut abs: Vec<String> = here.clone();
                let mut i = 0;
                while i < p.len() {
                    match p[i].as_str() {
                        "crate" => abs = vec!["crate".to_string()],
                        "self" => {}
                        "super" => {
                            abs.pop();
                        }
                        x => {
                            if i == 0 && x == a && p.len() == 1 {
                                abs = vec![];
                                break;
                            }
                            abs.push(x.to_string())
                        }
                    }
                    i += 1;
                }
                if abs.len() > 1 {
                    full.insert(a, abs);
                }
            }
        }
    }
    let mut names = vec![];
    for (n, ty) in own_names(m) {
        let mut v = here.clone();
        v.push(n.clone());
        full.insert(n.clone(), v);
        if ty {
            names.push(n);
        }
    }
    m.full = full.clone();
    for c in m.children.iter_mut() {
        collect_aliases(c, &al, &full, &names);
    }
}

fn join(v: &[String]) -> String {
    v.join("::")
}

#[derive(Default)]
struct Report {
    fns: Vec<(String, usize, usize, String, usize, bool, bool, String)>,
    regions: Vec<(String, usize, usize)>,
    notes: Vec<(String, String)>,
    trusted: Vec<String>,
}

struct Gen {
    c: Contracts,
    macros: Macros,
    fnret: FnRet,
    cells: BTreeSet<String>,
    byte_consts: BTreeSet<String>,
    helpers: BTreeMap<String, Helper>,
    decode_types: Vec<(Vec<String>, BTreeMap<String, Vec<String>>, Generics, Type)>,
    external: BTreeSet<String>,
    out: String,
    line: usize,
    rep: Report,
    raws: Vec<String>,
    seen: BTreeSet<String>,
    cur_private: bool,
}

fn strip_ws(s: &str) -> String {
    s.split_whitespace().collect::<Vec<_>>().join(" ")
}

fn derives(attrs: &[Attribute]) -> BTreeSet<String> {
    let mut v = BTreeSet::new();
    for a in attrs {
        if a.path().is_ident("derive") {
            let _ = a.parse_nested_meta(|m| {
                v.insert(m.path.segments.last().unwrap().ident.to_string());
                Ok(())
            });
        }
    }
    v
}

fn mkey(path: &[String], s: &str) -> String {
    if path.is_empty() {
        s.to_string()
    } else {
        format!("{}::{}", join(path), s)
    }
}

fn ty_last(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        Type::Reference(r) => ty_last(&r.elem),
        _ => String::new(),
    }
}

fn impl_key(im: &ItemImpl) -> String {
    let ty = printer::key(im.self_ty.to_token_stream());
    match &im.trait_ {
        Some((_, p, _)) => {
            let last = p.segments.last().unwrap();
            format!("{} for {}", printer::key(last.to_token_stream()), ty)
        }
        None => ty,
    }
}

/// Roles needed when instantiating loop contracts.
struct LoopInfo {
    i: String,
    c: String,
    n: String,
    roles: LoopRoles,
}

struct FindLoops {
    found: Vec<(usize, LoopInfo)>,
}
impl<'ast> Visit<'ast> for FindLoops {
    fn visit_block(&mut self, b: &'ast Block) {
        if let Some(Stmt::Macro(m)) = b.stmts.first() {
            if m.mac.path.is_ident("__vx_loop") {
                let parts: Vec<String> = m.mac.tokens.to_string().split(',').map(|s| s.trim().to_string()).collect();
                let id: usize = parts[0].trim_end_matches("usize").parse().unwrap();
                let mut roles = LoopRoles::default();
                let ct = parts.get(1).cloned().unwrap_or_default();
                roles.counter = ct.trim_start_matches('(').trim_end_matches(')').rsplit(' ').next().unwrap_or("").to_string();
                for s in b.stmts.iter().skip(1) {
                    roles.visit_stmt(s);
                }
                roles.finish();
                let g = |k: usize| parts.get(k).cloned().unwrap_or_default();
                self.found.push((id, LoopInfo { i: g(1), c: g(2), n: g(3), roles }));
            }
        }
        visit::visit_block(self, b);
    }
}
use syn::visit;

struct SpecClosures<'a> {
    cs: &'a BTreeMap<usize, (Vec<String>, String)>,
    n: usize,
    raws: &'a mut Vec<String>,
    bare: usize,
    outer: Vec<String>,
}
impl<'a> VisitMut for SpecClosures<'a> {
    fn visit_expr_closure_mut(&mut self, c: &mut syn::ExprClosure) {
        let ord = self.n;
        self.n += 1;
        let names: Vec<String> = c
            .inputs
            .iter()
            .map(|p| match p {
                Pat::Ident(i) => i.ident.to_string(),
                Pat::Type(q) => q.pat.to_token_stream().to_string(),
                _ => "_".to_string(),
            })
            .collect();
        match self.cs.get(&ord) {
            Some((tys, text)) if tys.len() == c.inputs.len() => {
                let mut text = text.clone();
                for (k, (p, t)) in c.inputs.iter_mut().zip(tys).enumerate() {
                    text = text.replace(&format!("$c{}", k), &names[k]);
                    if let Pat::Ident(_) = p {
                        let ty: Type = syn::parse_str(t).unwrap();
                        let q = p.clone();
                        *p = Pat::Type(syn::PatType { attrs: vec![], pat: Box::new(q), colon_token: Default::default(), ty: Box::new(ty) });
                    }
                }
                for (k, o) in self.outer.iter().enumerate() {
                    text = text.replace(&format!("$o{}", k), o);
                }
                self.raws.push(text);
                let k = proc_macro2::Literal::usize_unsuffixed(self.raws.len() - 1);
                c.output = ReturnType::Type(Default::default(), Box::new(parse_quote!(__vx_raw!(#k))));
                if !matches!(&*c.body, Expr::Block(_)) {
                    let e = (*c.body).clone();
                    *c.body = parse_quote!({ #e });
                }
            }
            _ => self.bare += 1,
        }
        let keep = std::mem::replace(&mut self.outer, names);
        syn::visit_mut::visit_expr_closure_mut(self, c);
        self.outer = keep;
    }
}
struct ReplaceMarkers<'a> {
    text: &'a BTreeMap<(String, usize), String>,
    raws: &'a mut Vec<String>,
}
impl<'a> VisitMut for ReplaceMarkers<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out: Vec<Stmt> = vec![];
        for s in b.stmts.drain(..) {
            if let Stmt::Macro(m) = &s {
                if let Some(id) = m.mac.path.get_ident() {
                    let name = id.to_string();
                    if name.starts_with("__vx_") && name != "__vx_raw" && name != "__vx_inv" {
                        let n: usize = m.mac.tokens.to_string().split(',').next().unwrap().trim().trim_end_matches("usize").parse().unwrap();
                        if name == "__vx_loop" {
                            if let Some(t) = self.text.get(&("loop".into(), n)) {
                                self.raws.push(t.clone());
                                let k = proc_macro2::Literal::usize_unsuffixed(self.raws.len() - 1);
                                out.push(parse_quote!(__vx_inv!(#k);));
                            }
                            if let Some(t) = self.text.get(&("loopstart".into(), n)) {
                                self.raws.push(t.clone());
                                let k = proc_macro2::Literal::usize_unsuffixed(self.raws.len() - 1);
                                out.push(parse_quote!(__vx_raw!(#k);));
                            }
                        } else {
                            let kind = name.trim_start_matches("__vx_").to_string();
                            if let Some(t) = self.text.get(&(kind, n)) {
                                self.raws.push(t.clone());
                                let k = proc_macro2::Literal::usize_unsuffixed(self.raws.len() - 1);
                                out.push(parse_quote!(__vx_raw!(#k);));
                            }
                        }
                        continue;
                    }
                }
            }
            out.push(s);
        }
        b.stmts = out;
        syn::visit_mut::visit_block_mut(self, b);
    }
}

struct HasCellSet<'a>(&'a BTreeSet<String>, bool);
impl<'a, 'ast> Visit<'ast> for HasCellSet<'a> {
    fn visit_expr_method_call(&mut self, m: &'ast ExprMethodCall) {
        if m.method == "set" {
            if let Expr::Field(f) = &*m.receiver {
                if self.0.contains(&f.member.to_token_stream().to_string()) {
                    self.1 = true;
                }
            }
        }
        visit::visit_expr_method_call(self, m);
    }
}

/// Renames calls of map helpers to their monomorphic copies.
struct RenameCalls<'a>(&'a BTreeSet<String>);
impl<'a> VisitMut for RenameCalls<'a> {
    fn visit_expr_path_mut(&mut self, e: &mut ExprPath) {
        if let Some(i) = e.path.get_ident() {
            if self.0.contains(&i.to_string()) {
                let n = Ident::new(&format!("{}_vv", i), Span::call_site());
                e.path.segments[0].ident = n;
            }
        }
    }
}

#[derive(Clone)]
struct FnCtx {
    path: Vec<String>,
    file: String,
    aliases: BTreeMap<String, Vec<String>>,
    container: Option<String>, // impl or trait key
    defkey: Option<String>,    // default contract container
    owner: Option<String>,     // last segment of the self type
    in_trait_impl: bool,
    mono: Option<BTreeMap<String, Type>>,
    mono_fns: BTreeSet<String>,
}

/// `HashMap::new` and friends in a monomorphic copy.
struct MonoPaths;
impl VisitMut for MonoPaths {
    fn visit_expr_path_mut(&mut self, e: &mut ExprPath) {
        let n = e.path.segments.len();
        if n >= 2 && e.path.segments[n - 2].ident == "HashMap" && matches!(e.path.segments[n - 2].arguments, PathArguments::None) {
            e.path.segments[n - 2].ident = Ident::new("HashMapVV", Span::call_site());
        }
        visit_mut::visit_expr_path_mut(self, e);
    }
}

impl Gen {
    fn emit(&mut self, s: &str) {
        for l in s.lines() {
            self.out.push_str(l);
            self.out.push('\n');
            self.line += 1;
        }
    }
    fn emit_region(&mut self, key: &str, s: &str) {
        let a = self.line;
        self.emit(s);
        self.rep.regions.push((key.to_string(), a, self.line));
    }
    fn note(&mut self, k: &str, v: impl Into<String>) {
        self.rep.notes.push((k.to_string(), v.into()));
    }

    fn map_type(&self, t: &mut Type, cx: &FnCtx) {
        if let Some(env) = &cx.mono {
            SubstTy { env }.visit_type_mut(t);
        }
        PathMap { aliases: &cx.aliases, dropped_bounds: &[] }.visit_type_mut(t);
        MapTypes.visit_type_mut(t);
        fix_slice_iter(t);
    }

    fn clean_generics(&self, g: &mut Generics, cx: &FnCtx) {
        let drop = |b: &TypeParamBound| -> bool {
            match b {
                TypeParamBound::Trait(t) => {
                    let n = t.path.segments.last().unwrap().ident.to_string();
                    ["Eq", "Hash", "BuildHasher", "Debug", "Sized"].contains(&n.as_str())
                }
                _ => false,
            }
        };
        if let Some(env) = &cx.mono {
            let ps: Vec<GenericParam> = g
                .params
                .iter()
                .filter(|p| match p {
                    GenericParam::Type(t) => !env.contains_key(&t.ident.to_string()),
                    _ => true,
                })
                .cloned()
                .collect();
            g.params = ps.into_iter().collect();
        }
        // hasher parameters
        let ps: Vec<GenericParam> = g
            .params
            .iter()
            .filter(|p| match p {
                GenericParam::Type(t) => !t.bounds.iter().any(|b| matches!(b, TypeParamBound::Trait(t) if t.path.segments.last().unwrap().ident == "BuildHasher")),
                _ => true,
            })
            .cloned()
            .collect();
        g.params = ps.into_iter().collect();
        for p in g.params.iter_mut() {
            if let GenericParam::Type(t) = p {
                let bs: Vec<TypeParamBound> = t.bounds.iter().filter(|b| !drop(b)).cloned().collect();
                t.bounds = bs.into_iter().collect();
                if t.bounds.is_empty() {
                    t.colon_token = None;
                }
            }
        }
        if let Some(w) = &mut g.where_clause {
            let ps: Vec<WherePredicate> = w
                .predicates
                .iter()
                .filter_map(|p| match p {
                    WherePredicate::Type(t) => {
                        let mut t = t.clone();
                        let bs: Vec<TypeParamBound> = t.bounds.iter().filter(|b| !drop(b)).cloned().collect();
                        t.bounds = bs.into_iter().collect();
                        if t.bounds.is_empty() {
                            None
                        } else {
                            Some(WherePredicate::Type(t))
                        }
                    }
                    p => Some(p.clone()),
                })
                .collect();
            w.predicates = ps.into_iter().collect();
        }
        if g.where_clause.as_ref().map_or(false, |w| w.predicates.is_empty()) {
            g.where_clause = None;
        }
        if g.params.is_empty() {
            g.lt_token = None;
            g.gt_token = None;
        }
        PathMap { aliases: &cx.aliases, dropped_bounds: &[] }.visit_generics_mut(g);
        MapTypes.visit_generics_mut(g);
    }

    fn contract(&self, d: &str, cx: &FnCtx, name: &str) -> (String, Option<String>) {
        let base = match &cx.container {
            Some(c) => mkey(&cx.path, &format!("{}::{}", c, name)),
            None => mkey(&cx.path, name),
        };
        if let Some(t) = self.c.get(d, &base) {
            return (base, Some(t));
        }
        if let Some(dk) = &cx.defkey {
            if let Some(t) = self.c.get(d, &format!("{}::{}", dk, name)) {
                return (base, Some(t));
            }
        }
        (base, None)
    }

    fn emit_fn(&mut self, sig: &Signature, block: Option<&Block>, cx: &FnCtx, vis_pub: bool, indent: usize, src_line: usize) {
        let mut sig = sig.clone();
        let name = sig.ident.to_string();
        let out_name = if cx.mono.is_some() && cx.container.is_none() { format!("{}_vv", name) } else { name.clone() };
        let (key, contract) = self.contract("fn", cx, &out_name);
        if self.c.has("drop", &key) {
            self.c.get("drop", &key);
            self.note("dropped", key);
            return;
        }
        self.seen.insert(key.clone());
        let mut external = self.external.contains(&key);
        if self.c.get("external", &key).is_some() {
            external = true;
        }
        // a private function without contract is verified where it is inlined
        let helper_only = self.cur_private
            && !cx.in_trait_impl
            && contract.is_none()
            && !external
            && block.is_some()
            && self.helpers.contains_key(&format!("!{}", mkey(&cx.path, &match &cx.container { Some(c) => format!("{}::{}", c, name), None => name.clone() })));
        if helper_only {
            external = true;
        }
        let mut block = block.cloned();
        let mut notes: Vec<String> = vec![];
        let mut pnames: Vec<String> = vec![];
        // ---- parameters
        let mut prologue: Vec<Stmt> = vec![];
        let mut slice_param: Option<String> = None;
        let mut buf_param = String::new();
        let mut owned_self = false;
        let mut self_mut_owned = false;
        let byval_self = matches!(sig.inputs.first(), Some(FnArg::Receiver(r)) if r.reference.is_none());
        for a in sig.inputs.iter_mut() {
            match a {
                FnArg::Receiver(r) => {
                    r.attrs.clear();
                    if r.reference.is_none() {
                        owned_self = true;
                        if r.mutability.is_some() {
                            self_mut_owned = true;
                            r.mutability = None;
                        }
                    }
                }
                FnArg::Typed(t) => {
                    t.attrs.clear();
                    let tt = strip_ws(&t.ty.to_token_stream().to_string());
                    pnames.push(if let Pat::Ident(p) = &*t.pat { p.ident.to_string() } else { "_".into() });
                    let nm = if let Pat::Ident(p) = &mut *t.pat {
                        let nm = p.ident.to_string();
                        if p.mutability.is_some() {
                            p.mutability = None;
                            let id = p.ident.clone();
                            prologue.push(parse_quote!(let mut #id = #id;));
                        }
                        nm
                    } else {
                        String::new()
                    };
                    if tt == "& [u8]" && slice_param.is_none() && !nm.is_empty() {
                        slice_param = Some(nm.clone());
                    }
                    if tt.contains("& mut") && tt.contains("BytesMut") {
                        buf_param = nm;
                    }
                }
            }
        }
        if let Some(b) = &block {
            if owned_self && !self_mut_owned {
                let mut h = HasCellSet(&self.cells, false);
                h.visit_block(b);
                if h.1 {
                    self_mut_owned = true;
                }
            }
        }
        let subst = |t: &str| -> String {
            let mut s = t.replace("$buf", &buf_param).replace("$in", slice_param.as_deref().unwrap_or(""));
            for (k, n) in pnames.iter().enumerate().rev() {
                s = s.replace(&format!("$p{}", k), n);
            }
            s
        };
        // ---- body
        let mut texts: BTreeMap<(String, usize), String> = BTreeMap::new();
        if external {
            block = block.map(|_| parse_quote!({ crate::model::vx_unreached() }));
        } else if let Some(b) = &mut block {
            let mut ex = Expander { macros: &self.macros, unknown: vec![] };
            ex.visit_block_mut(b);
            for u in ex.unknown {
                if !u.starts_with("__vx") {
                    notes.push(format!("macro {}", u));
                }
            }
            StripAttrs.visit_block_mut(b);
            NoOps.visit_block_mut(b);
            if let Some(env) = &cx.mono {
                SubstTy { env }.visit_block_mut(b);
            }
            // helpers without contract
            let mut hs: BTreeMap<String, Helper> = self
                .helpers
                .iter()
                .filter(|(_, h)| h.name != key)
                .map(|(k, h)| (k.clone(), h.clone()))
                .collect();
            if let Some(l) = self.c.get("inline", &key) {
                for w in l.split_whitespace() {
                    if let Some(h) = self.helpers.get(&format!("!{}", w)) {
                        let h = h.clone();
                        if h.receiver.is_some() {
                            hs.insert(format!(".{}", w.rsplit("::").next().unwrap()), h.clone());
                        }
                        hs.insert(w.rsplit("::").next().unwrap().to_string(), h);
                    }
                }
            }
            hs.retain(|k, _| !k.starts_with('!'));
            if !hs.is_empty() {
                let mut inl = Inliner::new(&hs, cx.owner.clone());
                inl.run(b);
                for u in &inl.used {
                    notes.push(format!("inlined {}", u));
                }
                for u in &inl.failed {
                    notes.push(format!("not-inlined {}", u));
                }
                // helper bodies come from source: expand their macros too
                let mut ex = Expander { macros: &self.macros, unknown: vec![] };
                ex.visit_block_mut(b);
                StripAttrs.visit_block_mut(b);
            }
            if cx.mono.is_some() {
                RenameCalls(&cx.mono_fns).visit_block_mut(b);
            }
            PathMap { aliases: &cx.aliases, dropped_bounds: &[] }.visit_block_mut(b);
            MapTypes.visit_block_mut(b);
            WhileLet.visit_block_mut(b);
            let mut d = Desugar {
                fnret: &self.fnret,
                cells: &self.cells,
                byte_consts: &self.byte_consts,
                has_slice_param: slice_param.is_some(),
                owned_self: byval_self,
                counter: 0,
                unsupported: vec![],
                used_capacity: false,
            };
            d.visit_block_mut(b);
            let unsupported = d.unsupported.clone();
            for u in unsupported {
                notes.push(format!("unsupported {}", u));
            }
            if cx.mono.is_some() {
                MonoPaths.visit_block_mut(b);
            }
            if self_mut_owned {
                RenameSelf.visit_block_mut(b);
                prologue.insert(0, parse_quote!(let mut vx_self = self;));
            }
            // loops
            let mut fl = FindLoops { found: vec![] };
            fl.visit_block(b);
            for (ord, (id, info)) in fl.found.iter().enumerate() {
                let sub = |t: &str| -> String {
                    let mut s = t.to_string();
                    for (k, v) in info.roles.assigned.iter().enumerate() {
                        s = s.replace(&format!("$A{}", k), v);
                    }
                    for (k, v) in info.roles.pushed.iter().enumerate() {
                        s = s.replace(&format!("$P{}", k), v);
                    }
                    for (k, v) in info.roles.modified.iter().enumerate() {
                        s = s.replace(&format!("$M{}", k), v);
                    }
                    s = subst(&s).replace("$i", &info.i).replace("$c", &info.c).replace("$n", &info.n);
                    s
                };
                // loops by what they do: write to the buffer, collect, or accumulate
                let class = if !buf_param.is_empty() && info.roles.idents.contains(&buf_param) {
                    "#buf"
                } else if !info.roles.pushed.is_empty() {
                    "#push"
                } else {
                    "#acc"
                };
                let mut any = false;
                for kind in ["loop", "loopstart", "loopend", "before", "after"] {
                    let mut t = None;
                    let kk = format!("{} {}", key, ord);
                    if let Some(x) = self.c.get(kind, &kk) {
                        t = Some(x);
                    } else if let Some(dk) = &cx.defkey {
                        t = self.c.get(kind, &format!("{}::{} {}", dk, name, ord));
                    }
                    for sel in [class, "*"] {
                        if t.is_none() {
                            t = self.c.get(kind, &format!("{} {}", key, sel));
                        }
                        if t.is_none() {
                            if let Some(dk) = &cx.defkey {
                                t = self.c.get(kind, &format!("{}::{} {}", dk, name, sel));
                            }
                        }
                    }
                    if let Some(x) = t {
                        let s = sub(&x);
                        if s.contains("$A") || s.contains("$P") || s.contains("$M") {
                            notes.push(format!("loop {} lacks a role of its contract", ord));
                        }
                        any = any || kind == "loop";
                        texts.insert((kind.to_string(), *id), s);
                    }
                }
                if !any {
                    notes.push(format!("loop {} without invariant", ord));
                }
            }
            ReplaceMarkers { text: &texts, raws: &mut self.raws }.visit_block_mut(b);
            // contracts of closures, by position
            {
                let mut cs: BTreeMap<usize, (Vec<String>, String)> = BTreeMap::new();
                for ord in 0..8 {
                    if let Some(x) = self.c.get("closure", &format!("{} {}", key, ord)) {
                        let (h, body) = x.split_once('\n').unwrap_or((x.as_str(), ""));
                        let (tys, out) = h.split_once("->").unwrap_or((h, "(vx_r: ())"));
                        cs.insert(ord, (tys.split(';').map(|s| s.trim().to_string()).filter(|s| !s.is_empty()).collect(), format!("{}\n{}", out.trim(), subst(body))));
                    }
                }
                let mut v = SpecClosures { cs: &cs, n: 0, raws: &mut self.raws, bare: 0, outer: vec![] };
                v.visit_block_mut(b);
                if v.bare > 0 {
                    notes.push(format!("{} closure(s) without contract", v.bare));
                }
            }
            // prologue / epilogue
            let mut pre: Vec<Stmt> = vec![];
            if let Some(s) = &slice_param {
                self.raws.push(format!("let ghost vx_in = {}@;", s));
                let k = proc_macro2::Literal::usize_unsuffixed(self.raws.len() - 1);
                pre.push(parse_quote!(__vx_raw!(#k);));
            }
            if let (_, Some(t)) = self.contract("prologue", cx, &out_name) {
                self.raws.push(subst(&t));
                let k = proc_macro2::Literal::usize_unsuffixed(self.raws.len() - 1);
                pre.push(parse_quote!(__vx_raw!(#k);));
            }
            pre.extend(prologue);
            if let (_, Some(t)) = self.contract("epilogue", cx, &out_name) {
                // let r = { body }; proof; r   (bodies with early exits keep them)
                self.raws.push(subst(&t));
                let k = proc_macro2::Literal::usize_unsuffixed(self.raws.len() - 1);
                let inner = b.stmts.clone();
                let ends_unit = matches!(sig.output, ReturnType::Default);
                let nb: Block = if ends_unit {
                    parse_quote!({ #(#pre)* { #(#inner)* } __vx_raw!(#k); })
                } else {
                    parse_quote!({ #(#pre)* let vx_ret = { #(#inner)* }; __vx_raw!(#k); vx_ret })
                };
                *b = nb;
            } else {
                let inner = std::mem::take(&mut b.stmts);
                b.stmts = pre.into_iter().chain(inner).collect();
            }
        }
        // ---- signature
        self.clean_generics(&mut sig.generics, cx);
        for a in sig.inputs.iter_mut() {
            if let FnArg::Typed(t) = a {
                let mut ty = (*t.ty).clone();
                self.map_type(&mut ty, cx);
                t.ty = Box::new(ty);
            }
        }
        let mut unit = true;
        let ret = match &sig.output {
            ReturnType::Default => quote!(),
            ReturnType::Type(_, t) => {
                unit = false;
                let mut t = (**t).clone();
                self.map_type(&mut t, cx);
                quote!(-> (r: #t))
            }
        };
        let _ = unit;
        let id = Ident::new(if out_name == "iter" { "vx_iter" } else { &out_name }, Span::call_site());
        let (ig, _, wc) = sig.generics.split_for_impl();
        let ig = ig.to_token_stream();
        let wc = wc.to_token_stream();
        let inputs = &sig.inputs;
        let vis = if vis_pub && !cx.in_trait_impl { quote!(pub) } else { quote!() };
        let head = quote!(#vis fn #id #ig (#inputs) #ret #wc);
        let start = self.line;
        let mut txt = String::new();
        if external && block.is_some() {
            txt.push_str(&format!("{}#[verifier::external_body]\n", "    ".repeat(indent)));
        }
        if let (_, Some(t)) = self.contract("attr", cx, &out_name) {
            txt.push_str(&t);
        }
        txt.push_str(&printer::print(head, &self.raws, indent));
        let mut has = false;
        if let Some(t) = &contract {
            has = true;
            txt.push_str(&subst(&t));
        }
        match &block {
            Some(b) => txt.push_str(&printer::print(b.to_token_stream(), &self.raws, indent)),
            None => {
                let k = txt.trim_end().len();
                txt.truncate(k);
                if txt.ends_with(',') {
                    txt.pop();
                }
                txt.push_str(";\n");
            }
        }
        self.emit(&txt);
        for n in &notes {
            self.note("fn-note", format!("{} :: {}", key, n));
        }
        if external && !helper_only {
            self.rep.trusted.push(format!("external_body {}", key));
        }
        let kind = if helper_only { "helper" } else if block.is_some() { "exec" } else { "decl" };
        self.rep.fns.push((key, start, self.line, cx.file.clone(), src_line, has || cx.in_trait_impl, external, kind.into()));
    }

    fn emit_struct_like(&mut self, it: &Item, cx: &FnCtx, indent: usize) {
        let mut it = it.clone();
        let (attrs, ident, generics) = match &it {
            Item::Struct(s) => (s.attrs.clone(), s.ident.clone(), s.generics.clone()),
            Item::Enum(e) => (e.attrs.clone(), e.ident.clone(), e.generics.clone()),
            _ => unreachable!(),
        };
        let der = derives(&attrs);
        let src_fields: Vec<(String, Type)> = match &it {
            Item::Struct(s) => s.fields.iter().enumerate().map(|(i, f)| (f.ident.as_ref().map(|x| x.to_string()).unwrap_or(i.to_string()), f.ty.clone())).collect(),
            _ => vec![],
        };
        let tuple_struct = matches!(&it, Item::Struct(s) if matches!(s.fields, Fields::Unnamed(_)));
        struct Pubify<'a>(&'a Gen, &'a FnCtx);
        impl<'a> VisitMut for Pubify<'a> {
            fn visit_field_mut(&mut self, f: &mut Field) {
                f.attrs.clear();
                self.0.map_type(&mut f.ty, self.1);
            }
        }
        match &mut it {
            Item::Struct(s) => {
                s.attrs.clear();
                s.vis = parse_quote!(pub);
                Pubify(self, cx).visit_fields_mut(&mut s.fields);
                for f in s.fields.iter_mut() {
                    f.vis = parse_quote!(pub);
                }
                self.clean_generics(&mut s.generics, cx);
            }
            Item::Enum(e) => {
                e.attrs.clear();
                e.vis = parse_quote!(pub);
                for v in e.variants.iter_mut() {
                    v.attrs.clear();
                    Pubify(self, cx).visit_fields_mut(&mut v.fields);
                    for f in v.fields.iter_mut() {
                        f.vis = Visibility::Inherited;
                    }
                }
                self.clean_generics(&mut e.generics, cx);
            }
            _ => {}
        }
        let copy = der.contains("Copy");
        let key = mkey(&cx.path, &ident.to_string());
        if copy {
            self.emit("#[derive(Clone, Copy)]");
        }
        if let Some(t) = self.c.get("typeattr", &key) {
            self.emit(&t);
        }
        let a = self.line;
        self.emit(&printer::print(it.to_token_stream(), &self.raws, indent));
        self.rep.regions.push((format!("type {}", key), a, self.line));
        let (ig, tg, _) = generics.split_for_impl();
        if der.contains("Clone") && !copy {
            let b: Vec<TokenStream> = generics.type_params().map(|t| { let i = &t.ident; quote!(#i: Clone) }).collect();
            let ig2 = if b.is_empty() { quote!() } else { quote!(<#(#b),*>) };
            self.raws.push("#[verifier::external_body]".into());
            let k = proc_macro2::Literal::usize_unsuffixed(self.raws.len() - 1);
            self.raws.push("ensures r == *self".into());
            let k2 = proc_macro2::Literal::usize_unsuffixed(self.raws.len() - 1);
            let ts = quote!(impl #ig2 Clone for #ident #tg { __vx_raw!(#k); fn clone(&self) -> (r: Self) __vx_raw!(#k2) { crate::model::vx_unreached() } });
            let s = printer::print(ts, &self.raws, indent);
            self.emit(&s);
            self.rep.trusted.push(format!("derive(Clone) on {}", key));
        }
        if der.contains("Default") {
            if let Item::Struct(_) = &it {
                let mut fs: Vec<TokenStream> = vec![];
                for (n, t) in &src_fields {
                    let last = ty_last(t);
                    let mut mt = t.clone();
                    self.map_type(&mut mt, cx);
                    let v = match last.as_str() {
                        "Option" => quote!(None),
                        "Vec" => quote!(Vec::new()),
                        "Cell" => quote!(crate::model::Cell::vx_default()),
                        "bool" => quote!(false),
                        "u8" | "u16" | "u32" | "u64" | "usize" | "i8" | "i16" | "i32" | "i64" => quote!(0),
                        _ => quote!(<#mt>::default()),
                    };
                    if tuple_struct {
                        fs.push(v);
                    } else {
                        let id = Ident::new(n, Span::call_site());
                        fs.push(quote!(#id: #v));
                    }
                }
                let body: Block = if tuple_struct { parse_quote!({ #ident(#(#fs),*) }) } else { parse_quote!({ #ident { #(#fs),* } }) };
                let sig: Signature = parse_quote!(fn default() -> #ident);
                let mut cx2 = cx.clone();
                cx2.container = Some(format!("Default for {}", ident));
                cx2.defkey = None;
                cx2.in_trait_impl = true;
                cx2.owner = Some(ident.to_string());
                self.emit(&format!("impl Default for {} {{", ident));
                self.emit_fn(&sig, Some(&body), &cx2, false, indent + 1, 0);
                self.emit("}");
            }
        }
        if der.contains("From") {
            // unique single-field payload types
            let mut payloads: Vec<(Option<String>, Type)> = vec![];
            match &it {
                Item::Enum(e) => {
                    for v in &e.variants {
                        if v.fields.len() == 1 {
                            let f = v.fields.iter().next().unwrap();
                            payloads.push((Some(v.ident.to_string()), f.ty.clone()));
                        }
                    }
                }
                Item::Struct(s) if s.fields.len() == 1 => {
                    payloads.push((None, s.fields.iter().next().unwrap().ty.clone()));
                }
                _ => {}
            }
            let keys: Vec<String> = payloads.iter().map(|(_, t)| printer::key(t.to_token_stream())).collect();
            for (i, (v, t)) in payloads.iter().enumerate() {
                if keys.iter().filter(|k| **k == keys[i]).count() > 1 {
                    continue;
                }
                let ctor = match v {
                    Some(v) => {
                        let v = Ident::new(v, Span::call_site());
                        quote!(#ident::#v(v))
                    }
                    None => quote!(#ident(v)),
                };
                self.raws.push("open spec fn obeys_from_spec() -> bool { true }".into());
                let k = proc_macro2::Literal::usize_unsuffixed(self.raws.len() - 1);
                self.raws.push(format!("open spec fn from_spec(v: {}) -> Self {{ {} }}", t.to_token_stream(), ctor));
                let k2 = proc_macro2::Literal::usize_unsuffixed(self.raws.len() - 1);
                let ts = quote!(impl #ig vstd::std_specs::convert::FromSpecImpl<#t> for #ident #tg { __vx_raw!(#k); __vx_raw!(#k2); }
                    impl #ig From<#t> for #ident #tg { fn from(v: #t) -> Self { #ctor } });
                let s = printer::print(ts, &self.raws, indent);
                self.emit(&s);
            }
        }
        for d in ["PartialEq", "Eq", "Hash", "PartialOrd", "Ord"] {
            if der.contains(d) {
                let dk = format!("{} {}", d, key);
                self.note("derive", dk.clone());
                if let Some(t) = self.c.get("derive", &dk) {
                    self.emit_region(&format!("derive {}", dk), &t);
                } else if d == "PartialEq" {
                    // derived equality: some function of the two values
                    self.rep.trusted.push(format!("derive(PartialEq) on {}", key));
                    let g = match &it {
                        Item::Struct(s) => s.generics.clone(),
                        Item::Enum(s) => s.generics.clone(),
                        _ => Generics::default(),
                    };
                    let (ig, tg, _) = g.split_for_impl();
                    let id = key.rsplit("::").next().unwrap().to_string();
                    let (ig, tg) = (ig.to_token_stream().to_string(), tg.to_token_stream().to_string());
                    self.emit(&format!(
                        "impl{ig} PartialEq for {id}{tg} {{ #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) {{ panic!() }} }}\nimpl{ig} vstd::std_specs::cmp::PartialEqSpecImpl for {id}{tg} {{ open spec fn obeys_eq_spec() -> bool {{ true }} uninterp spec fn eq_spec(&self, o: &Self) -> bool; }}"
                    ));
                } else if d == "Eq" {
                    let g = match &it {
                        Item::Struct(s) => s.generics.clone(),
                        Item::Enum(s) => s.generics.clone(),
                        _ => Generics::default(),
                    };
                    let (ig, tg, _) = g.split_for_impl();
                    let id = key.rsplit("::").next().unwrap().to_string();
                    self.emit(&format!("impl{} Eq for {}{} {{}}", ig.to_token_stream(), id, tg.to_token_stream()));
                }
            }
        }
    }

    fn emit_impl(&mut self, im: &ItemImpl, m: &Module, mono: bool, mono_fns: &BTreeSet<String>, inst: Option<(&Vec<String>, &BTreeMap<String, Vec<String>>, &Generics, &Type)>, indent: usize) {
        let file = m.file.display().to_string();
        let mut cx = FnCtx {
            path: m.path.clone(),
            file,
            aliases: m.aliases.clone(),
            container: None,
            defkey: None,
            owner: Some(ty_last(&im.self_ty)),
            in_trait_impl: im.trait_.is_some(),
            mono: None,
            mono_fns: mono_fns.clone(),
        };
        let mut im = im.clone();
        let tname = im.trait_.as_ref().map(|(_, p, _)| p.segments.last().unwrap().ident.to_string());
        if let Some(t) = &tname {
            if ["Display", "Debug", "Error"].contains(&t.as_str()) {
                return;
            }
        }
        let mut ikey = impl_key(&im);
        if mono {
            // HashMap<K, V, S> with K = V = Variant
            let mut env = BTreeMap::new();
            if let Type::Path(p) = &*im.self_ty {
                if let PathArguments::AngleBracketed(a) = &p.path.segments.last().unwrap().arguments {
                    for g in a.args.iter().take(2) {
                        if let GenericArgument::Type(t) = g {
                            env.insert(ty_last(t), parse_quote!(crate::types::Variant));
                        }
                    }
                }
            }
            cx.mono = Some(env);
            ikey = format!("{} for HashMapVV", tname.clone().unwrap());
        }
        if let Some((ipath, ialiases, g, t)) = inst {
            let _ = ipath;
            // instance of a blanket impl
            let param = ty_last(&im.self_ty);
            let mut env = BTreeMap::new();
            // the type is written with the names of its own module: map first
            let mut mt = t.clone();
            let cxi = FnCtx { aliases: ialiases.clone(), ..cx.clone() };
            self.map_type(&mut mt, &cxi);
            env.insert(param, mt.clone());
            ikey = format!("{} for {}", tname.clone().unwrap(), printer::key(t.to_token_stream()));
            cx.mono = Some(env);
            im.generics = g.clone();
            im.self_ty = Box::new(t.clone());
            cx.defkey = Some(mkey(&m.path, &format!("{} for *", tname.clone().unwrap())));
            cx.aliases.extend(ialiases.iter().map(|(a, b)| (a.clone(), b.clone())));
        } else if let Some(t) = &tname {
            cx.defkey = Some(format!("{} for *", t));
        }
        let full = mkey(&cx.path, &ikey);
        if self.c.has("drop", &full) {
            self.c.get("drop", &full);
            self.note("dropped", full);
            return;
        }
        cx.container = Some(ikey.clone());
        let mut g = im.generics.clone();
        let cxg = if inst.is_some() { FnCtx { mono: None, ..cx.clone() } } else { cx.clone() };
        self.clean_generics(&mut g, &cxg);
        let mut st = (*im.self_ty).clone();
        self.map_type(&mut st, &cxg);
        let tr = match &im.trait_ {
            Some((_, p, _)) => {
                let mut ty: Type = parse_quote!(#p);
                self.map_type(&mut ty, &cxg);
                quote!(#ty for)
            }
            None => quote!(),
        };
        // hasher parameters that vanished may leave undeclared arguments: already dropped by MapTypes
        let (ig, _, wc) = g.split_for_impl();
        let ig = ig.to_token_stream();
        let wc = wc.to_token_stream();
        let head = quote!(impl #ig #tr #st #wc);
        let ghost_items = self.c.get("impl", &full).or_else(|| {
            cx.defkey.clone().and_then(|d| self.c.get("impl", &d))
        });
        let s = printer::print(head, &self.raws, indent);
        if let Some(t) = self.c.get("preimpl", &full) {
            self.emit_region(&full, &t);
        }
        self.emit(&s);
        self.emit("{");
        if let Some(t) = ghost_items {
            let selft = st.to_token_stream().to_string();
            self.emit_region(&full, &t.replace("$Self", &selft));
        }
        for it in &im.items {
            match it {
                ImplItem::Fn(f) => {
                    if is_cfg_test(&f.attrs) {
                        continue;
                    }
                    let l = f.sig.span().start().line;
                    self.cur_private = !matches!(f.vis, Visibility::Public(_));
                    self.emit_fn(&f.sig, Some(&f.block), &cx, true, indent + 1, l);

                }
                ImplItem::Const(c) => {
                    let mut c = c.clone();
                    c.attrs.clear();
                    if tname.is_none() {
                        c.vis = parse_quote!(pub);
                    }
                    let mut ty = c.ty.clone();
                    self.map_type(&mut ty, &cxg);
                    c.ty = ty;
                    PathMap { aliases: &cx.aliases, dropped_bounds: &[] }.visit_expr_mut(&mut c.expr);
                    let s = printer::print(c.to_token_stream(), &self.raws, indent + 1);
                    self.emit(&s);
                }
                ImplItem::Type(t) => {
                    let mut t = t.clone();
                    t.attrs.clear();
                    let mut ty = t.ty.clone();
                    self.map_type(&mut ty, &cxg);
                    t.ty = ty;
                    let s = printer::print(t.to_token_stream(), &self.raws, indent + 1);
                    self.emit(&s);
                }
                _ => {}
            }
        }
        self.emit("}");
        if let Some(t) = self.c.get("postimpl", &full) {
            self.emit_region(&full, &t);
        }
    }

    fn emit_module(&mut self, m: &Module, indent: usize) {
        let mpath = join(&m.path);
        self.emit("#[allow(unused_imports)] use vstd::prelude::*;");
        self.emit("#[allow(unused_imports)] use crate::vx::*;");
        self.emit("#[allow(unused_imports)] use crate::model::VxIter;");
        if let Some(t) = self.c.get("mod", &mpath) {
            self.emit_region(&format!("mod {}", mpath), &t);
        }
        // functions over HashMap get monomorphic copies
        let mut mono_fns: BTreeSet<String> = BTreeSet::new();
        for it in &m.items {
            if let Item::Fn(f) = it {
                if f.sig.generics.type_params().count() > 0
                    && f.sig.inputs.iter().any(|a| matches!(a, FnArg::Typed(t) if ty_last(&t.ty) == "HashMap"))
                {
                    mono_fns.insert(f.sig.ident.to_string());
                }
            }
        }
        let cx = FnCtx {
            path: m.path.clone(),
            file: m.file.display().to_string(),
            aliases: m.aliases.clone(),
            container: None,
            defkey: None,
            owner: None,
            in_trait_impl: false,
            mono: None,
            mono_fns: mono_fns.clone(),
        };
        let own: Vec<String> = own_names(m).into_iter().map(|x| x.0).collect();
        for n in &m.super_names {
            if !own.contains(n) {
                self.emit(&format!("#[allow(unused_imports)] use super::{};", n));
            }
        }
        let mut children = m.children.iter();
        for it in &m.items {
            match it {
                Item::Mod(md) => {
                    let c = children.next().unwrap();
                    self.emit(&format!("pub mod {} {{", md.ident));
                    self.emit_module(c, indent);
                    self.emit("}");
                }
                Item::Use(u) => {
                    let mut ls = vec![];
                    leaves(&u.tree, &mut vec![], &mut ls);
                    let public = !matches!(u.vis, Visibility::Inherited);
                    for (p, a) in ls {
                        if EXTERNAL.contains(&p[0].as_str()) {
                            continue;
                        }
                        let v = if public { "pub " } else { "" };
                        let last = p.last().unwrap().clone();
                        let s = if a == "*" || a == last { join(&p) } else { format!("{} as {}", join(&p), a) };
                        self.emit(&format!("#[allow(unused_imports)] {}use {};", v, s));
                    }
                }
                Item::Type(t) => {
                    let mut t = t.clone();
                    t.attrs.clear();
                    t.vis = parse_quote!(pub);
                    let mut ty = (*t.ty).clone();
                    self.map_type(&mut ty, &cx);
                    t.ty = Box::new(ty);
                    let s = printer::print(t.to_token_stream(), &self.raws, indent);
                    self.emit(&s);
                }
                Item::Const(c) => {
                    let mut c = c.clone();
                    c.attrs.clear();
                    c.vis = parse_quote!(pub);
                    let n = c.ident.to_string();
                    if self.byte_consts.contains(&n) {
                        let bytes = const_bytes(&c.expr);
                        match bytes {
                            Some(b) => {
                                let l: Vec<String> = b.iter().map(|x| format!("{}u8", x)).collect();
                                self.emit(&format!("pub exec const {}: &'static [u8] ensures {}@ == seq![{}] {{ &[{}] }}", n, n, l.join(", "), l.join(", ")));
                            }
                            None => self.note("unsupported-const", n),
                        }
                    } else {
                        PathMap { aliases: &cx.aliases, dropped_bounds: &[] }.visit_item_const_mut(&mut c);
                        let s = printer::print(c.to_token_stream(), &self.raws, indent);
                        self.emit(&s);
                    }
                }
                Item::Struct(_) | Item::Enum(_) => self.emit_struct_like(it, &cx, indent),
                Item::Trait(t) => {
                    let mut g = t.generics.clone();
                    self.clean_generics(&mut g, &cx);
                    let mut sup: Vec<TokenStream> = t.supertraits.iter().filter(|b| !matches!(b, TypeParamBound::Trait(t) if t.path.is_ident("Sized"))).map(|b| b.to_token_stream()).collect();
                    let wants_sized = t.to_token_stream().to_string().contains("Sized");
                    if wants_sized {
                        sup.push(quote!(Sized));
                    }
                    let (ig, _, _) = g.split_for_impl();
                    let ig = ig.to_token_stream();
                    let id = &t.ident;
                    let head = if sup.is_empty() { quote!(pub trait #id #ig) } else { quote!(pub trait #id #ig : #(#sup)+*) };
                    let s = printer::print(head, &self.raws, indent);
                    self.emit(&s);
                    self.emit("{");
                    let tk = mkey(&m.path, &id.to_string());
                    if let Some(x) = self.c.get("trait", &tk) {
                        self.emit_region(&format!("trait {}", tk), &x);
                    }
                    let cx2 = FnCtx { container: Some(id.to_string()), in_trait_impl: true, ..cx.clone() };
                    for it in &t.items {
                        match it {
                            TraitItem::Fn(f) => {
                                let l = f.sig.span().start().line;
                                self.emit_fn(&f.sig, f.default.as_ref(), &cx2, false, indent + 1, l);
                            }
                            TraitItem::Const(c) => {
                                let mut c = c.clone();
                                c.attrs.clear();
                                let s = printer::print(c.to_token_stream(), &self.raws, indent + 1);
                                self.emit(&s);
                            }
                            TraitItem::Type(c) => {
                                let s = printer::print(c.to_token_stream(), &self.raws, indent + 1);
                                self.emit(&s);
                            }
                            _ => {}
                        }
                    }
                    self.emit("}");
                }
                Item::Fn(f) => {
                    let l = f.sig.span().start().line;
                    let n = f.sig.ident.to_string();
                    self.cur_private = !matches!(f.vis, Visibility::Public(_));
                    self.emit_fn(&f.sig, Some(&f.block), &cx, true, indent, l);

                    if mono_fns.contains(&n) {
                        let mut env: BTreeMap<String, Type> = BTreeMap::new();
                        for a in &f.sig.inputs {
                            if let FnArg::Typed(t) = a {
                                if ty_last(&t.ty) == "HashMap" {
                                    let mut ty = &*t.ty;
                                    while let Type::Reference(r) = ty {
                                        ty = &r.elem;
                                    }
                                    if let Type::Path(p) = ty {
                                        if let PathArguments::AngleBracketed(a) = &p.path.segments.last().unwrap().arguments {
                                            for g in a.args.iter().take(2) {
                                                if let GenericArgument::Type(t) = g {
                                                    env.insert(ty_last(t), parse_quote!(crate::types::Variant));
                                                }
                                            }
                                        }
                                    }
                                }
                            }
                        }
                        let cx2 = FnCtx { mono: Some(env), ..cx.clone() };
                        self.emit_fn(&f.sig, Some(&f.block), &cx2, true, indent, l);

                    }
                }
                Item::Impl(im) => {
                    // blanket impl over a formatted decoder: one instance per implementing type
                    if is_blanket_decode(im) {
                        let insts = self.decode_types.clone();
                        for (p, al, g, t) in &insts {
                            self.emit_impl(im, m, false, &mono_fns, Some((p, al, g, t)), indent);
                        }
                        // the monomorphic map
                        let al = BTreeMap::new();
                        let t: Type = parse_quote!(crate::model::HashMapVV);
                        let g = Generics::default();
                        let mut im2 = im.clone();
                        im2.attrs.clear();
                        self.emit_impl(&im2, m, false, &mono_fns, Some((&vec![], &al, &g, &t)), indent);
                        continue;
                    }
                    self.emit_impl(im, m, false, &mono_fns, None, indent);
                    let tn = im.trait_.as_ref().map(|(_, p, _)| p.segments.last().unwrap().ident.to_string());
                    if ty_last(&im.self_ty) == "HashMap" && im.generics.type_params().count() >= 2 {
                        if let Some(tn) = tn {
                            if tn == "Encode" || tn == "DecodeFormatted" {
                                self.emit_impl(im, m, true, &mono_fns, None, indent);
                            }
                        }
                    }
                }
                _ => {}
            }
        }
        if let Some(t) = self.c.get("modend", &mpath) {
            self.emit_region(&format!("mod {}", mpath), &t);
        }
    }
}

fn is_blanket_decode(im: &ItemImpl) -> bool {
    let tn = match &im.trait_ {
        Some((_, p, _)) => p.segments.last().unwrap().ident.to_string(),
        None => return false,
    };
    let ty = printer::key(im.self_ty.to_token_stream());
    tn == "Decode"
        && im.generics.type_params().any(|t| {
            t.ident == ty
                && t.bounds.iter().any(|b| matches!(b, TypeParamBound::Trait(x) if x.path.segments.last().unwrap().ident == "DecodeFormatted"))
        })
}

fn fix_slice_iter(t: &mut Type) {
    struct V;
    impl VisitMut for V {
        fn visit_type_mut(&mut self, t: &mut Type) {
            visit_mut::visit_type_mut(self, t);
            if let Type::Path(p) = t {
                let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                if segs.len() >= 2 && segs[segs.len() - 1] == "Iter" && segs[segs.len() - 2] == "slice" {
                    if let PathArguments::AngleBracketed(a) = &p.path.segments.last().unwrap().arguments {
                        for g in &a.args {
                            if let GenericArgument::Type(x) = g {
                                let x = x.clone();
                                *t = parse_quote!(&[#x]);
                                return;
                            }
                        }
                    }
                }
            }
        }
    }
    use syn::visit_mut;
    V.visit_type_mut(t);
}

fn const_bytes(e: &Expr) -> Option<Vec<u8>> {
    match e {
        Expr::Lit(ExprLit { lit: Lit::ByteStr(s), .. }) => Some(s.value()),
        Expr::Reference(r) => const_bytes(&r.expr),
        Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) => const_bytes(expr),
        Expr::Array(a) => {
            let mut v = vec![];
            for x in &a.elems {
                if let Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) = x {
                    v.push(i.base10_parse::<u8>().ok()?);
                } else {
                    return None;
                }
            }
            Some(v)
        }
        _ => None,
    }
}

fn collect(m: &Module, g: &mut Gen) {
    for it in &m.items {
        match it {
            Item::Macro(mc) if mc.mac.path.is_ident("macro_rules") => {
                if let Some(i) = &mc.ident {
                    match macros::parse_macro_rules(mc.mac.tokens.clone()) {
                        Some(d) => {
                            g.macros.insert(i.to_string(), d);
                        }
                        None => g.rep.notes.push(("macro-unsupported".into(), i.to_string())),
                    }
                }
            }
            Item::Fn(f) => {
                if let ReturnType::Type(_, t) = &f.sig.output {
                    g.fnret.insert(f.sig.ident.to_string(), kind_of_type(t));
                }
            }
            Item::Impl(im) => {
                for it in &im.items {
                    if let ImplItem::Fn(f) = it {
                        if let ReturnType::Type(_, t) = &f.sig.output {
                            let n = f.sig.ident.to_string();
                            let k = kind_of_type(t);
                            match g.fnret.get(&n) {
                                Some(o) if *o != k => {
                                    g.fnret.insert(n, Kind::Other);
                                }
                                _ => {
                                    g.fnret.insert(n, k);
                                }
                            }
                        }
                    }
                }
                if let Some((_, p, _)) = &im.trait_ {
                    if p.segments.last().unwrap().ident == "DecodeFormatted" {
                        g.decode_types.push((m.path.clone(), m.full.clone(), im.generics.clone(), (*im.self_ty).clone()));
                    }
                }
            }
            Item::Struct(s) => {
                for f in &s.fields {
                    if ty_last(&f.ty) == "Cell" {
                        if let Some(i) = &f.ident {
                            g.cells.insert(i.to_string());
                        }
                    }
                }
            }
            Item::Const(c) => {
                if strip_ws(&c.ty.to_token_stream().to_string()).replace("'static ", "") == "& [u8]" {
                    g.byte_consts.insert(c.ident.to_string());
                }
            }
            Item::Static(_) => g.rep.notes.push(("unsupported-item".into(), "static".into())),
            _ => {}
        }
    }
    for c in &m.children {
        collect(c, g);
    }
}

/// Functions without a contract become inlining candidates.
fn collect_helpers(m: &Module, g: &mut Gen, all_methods: &mut BTreeMap<String, usize>) {
    let macros = g.macros.clone();
    let al = m.full.clone();
    let mk = |name: String, owner: Option<String>, sig: &Signature, block: &Block| -> Helper {
        let mut block = block.clone();
        let mut ex = Expander { macros: &macros, unknown: vec![] };
        ex.visit_block_mut(&mut block);
        StripAttrs.visit_block_mut(&mut block);
        // names of the helper's module stay what they are there
        let mut locals = al.clone();
        struct B<'a>(&'a mut BTreeMap<String, Vec<String>>);
        impl<'a, 'ast> Visit<'ast> for B<'a> {
            fn visit_pat_ident(&mut self, p: &'ast PatIdent) {
                let s = p.ident.to_string();
                if s.chars().next().map_or(false, |c| c.is_lowercase()) {
                    self.0.remove(&s);
                }
                visit::visit_pat_ident(self, p);
            }
        }
        {
            let mut b = B(&mut locals);
            b.visit_block(&block);
            b.visit_signature(sig);
        }
        NoOps.visit_block_mut(&mut block);
        PathMap { aliases: &locals, dropped_bounds: &[] }.visit_block_mut(&mut block);
        let mut receiver = None;
        let mut params = vec![];
        for a in &sig.inputs {
            match a {
                FnArg::Receiver(r) => receiver = Some(r.reference.is_some()),
                FnArg::Typed(t) => {
                    let mut ty = (*t.ty).clone();
                    PathMap { aliases: &al, dropped_bounds: &[] }.visit_type_mut(&mut ty);
                    params.push(((*t.pat).clone(), ty))
                }
            }
        }
        let mut ret = sig.output.clone();
        PathMap { aliases: &al, dropped_bounds: &[] }.visit_return_type_mut(&mut ret);
        Helper { name, owner, generics: sig.generics.clone(), receiver, params, ret, block }
    };
    for it in &m.items {
        match it {
            Item::Fn(f) => {
                let key = mkey(&m.path, &f.sig.ident.to_string());
                let n = f.sig.ident.to_string();
                let h = mk(key.clone(), None, &f.sig, &f.block);
                g.helpers.insert(format!("!{}", key), h.clone());
                if !g.c.has("fn", &key) && !g.c.has("external", &key) && !g.c.has("drop", &key) {
                    g.helpers.insert(n, h);
                }
            }
            Item::Impl(im) => {
                let ik = impl_key(im);
                for it in &im.items {
                    if let ImplItem::Fn(f) = it {
                        let n = f.sig.ident.to_string();
                        let key = mkey(&m.path, &format!("{}::{}", ik, n));
                        let owner = ty_last(&im.self_ty);
                        let h = mk(key.clone(), Some(owner.clone()), &f.sig, &f.block);
                        g.helpers.insert(format!("!{}", key), h.clone());
                        *all_methods.entry(n.clone()).or_insert(0) += 1;
                        if im.trait_.is_none() && !g.c.has("fn", &key) && !g.c.has("external", &key) && !g.c.has("drop", &key) {
                            g.helpers.insert(format!("{}::{}", owner, n), h.clone());
                            if h.receiver.is_some() {
                                g.helpers.insert(format!(".{}", n), h);
                            }
                        }
                    }
                }
            }
            _ => {}
        }
    }
    for c in &m.children {
        collect_helpers(c, g, all_methods);
    }
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let mut src = PathBuf::new();
    let mut out = PathBuf::new();
    let mut report = PathBuf::new();
    let mut ext: BTreeSet<String> = Default::default();
    let mut files: Vec<PathBuf> = vec![];
    let mut i = 0;
    while i < args.len() {
        match args[i].as_str() {
            "--src" => {
                src = PathBuf::from(&args[i + 1]);
                i += 1;
            }
            "--out" => {
                out = PathBuf::from(&args[i + 1]);
                i += 1;
            }
            "--report" => {
                report = PathBuf::from(&args[i + 1]);
                i += 1;
            }
            "--external" => {
                ext.insert(args[i + 1].clone());
                i += 1;
            }
            f => files.push(PathBuf::from(f)),
        }
        i += 1;
    }
    let mut c = Contracts::default();
    for f in &files {
        c.load(&std::fs::read_to_string(f).unwrap_or_else(|e| panic!("{}: {}", f.display(), e)));
    }
    let mut root = load(&src.join("lib.rs"), &src, vec![], None);
    collect_aliases(&mut root, &BTreeMap::new(), &BTreeMap::new(), &[]);
    let mut g = Gen {
        c,
        macros: Default::default(),
        fnret: Default::default(),
        cells: Default::default(),
        byte_consts: Default::default(),
        helpers: Default::default(),
        decode_types: vec![],
        external: ext,
        out: String::new(),
        line: 1,
        rep: Default::default(),
        raws: vec![],
        seen: Default::default(),
        cur_private: false,
    };
    collect(&root, &mut g);
    let mut all = BTreeMap::new();
    collect_helpers(&root, &mut g, &mut all);
    // a method helper is usable only when its name is unambiguous
    let bad: Vec<String> = g
        .helpers
        .keys()
        .filter(|k| k.starts_with('.') && all.get(&k[1..]).cloned().unwrap_or(0) > 1)
        .cloned()
        .collect();
    for b in bad {
        g.helpers.remove(&b);
    }
    g.emit("#![allow(unused_imports, unused_variables, dead_code, unused_mut, unused_parens, unused_braces, unused_assignments, unreachable_patterns, unreachable_code, non_snake_case, non_upper_case_globals)]");
    if let Some(t) = g.c.get("crateattr", "") {
        g.emit(&t);
    }
    g.emit("use vstd::prelude::*;");
    g.emit("verus! {");
    for k in ["model", "vx"] {
        g.emit(&format!("pub mod {} {{", k));
        if let Some(t) = g.c.get("root", k) {
            g.emit_region(k, &t);
        }
        g.emit("}");
    }
    let extra: Vec<String> = g.c.map.get("root").map(|m| m.keys().filter(|k| *k != "model" && *k != "vx").cloned().collect()).unwrap_or_default();
    for k in extra {
        let t = g.c.get("root", &k).unwrap();
        g.emit(&format!("pub mod {} {{", k));
        g.emit_region(&k, &t);
        g.emit("}");
    }
    g.emit_module(&root, 0);
    g.emit("}");
    g.emit("fn main() {}");
    std::fs::write(&out, &g.out).unwrap();
    // report
    let unused = g.c.unused();
    let mut s = String::from("{\n\"fns\": [\n");
    let v: Vec<String> = g
        .rep
        .fns
        .iter()
        .map(|(k, a, b, f, l, has, e, kind)| {
            format!(
                "{{\"key\": {}, \"start\": {}, \"end\": {}, \"file\": {}, \"line\": {}, \"contract\": {}, \"external\": {}, \"kind\": {}}}",
                jstr(k), a, b, jstr(f), l, has, e, jstr(kind)
            )
        })
        .collect();
    s.push_str(&v.join(",\n"));
    s.push_str("\n],\n\"regions\": [\n");
    let v: Vec<String> = g.rep.regions.iter().map(|(k, a, b)| format!("{{\"key\": {}, \"start\": {}, \"end\": {}}}", jstr(k), a, b)).collect();
    s.push_str(&v.join(",\n"));
    s.push_str("\n],\n\"notes\": [\n");
    let v: Vec<String> = g.rep.notes.iter().map(|(k, a)| format!("[{}, {}]", jstr(k), jstr(a))).collect();
    s.push_str(&v.join(",\n"));
    s.push_str("\n],\n\"trusted\": [\n");
    let v: Vec<String> = g.rep.trusted.iter().map(|k| jstr(k)).collect();
    s.push_str(&v.join(",\n"));
    s.push_str("\n],\n\"unused\": [\n");
    let v: Vec<String> = unused.iter().map(|(k, a)| format!("[{}, {}]", jstr(k), jstr(a))).collect();
    s.push_str(&v.join(",\n"));
    s.push_str("\n]\n}\n");
    std::fs::write(&report, s).unwrap();
}
