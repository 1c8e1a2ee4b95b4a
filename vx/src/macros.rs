//! Expansion of the crate's own `macro_rules!` and of a few std macros.
use proc_macro2::{Delimiter, Group, TokenStream, TokenTree};
use std::collections::BTreeMap;
use syn::visit_mut::{self, VisitMut};

#[derive(Clone)]
pub struct MacroDef {
    params: Vec<(String, String)>,
    body: TokenStream,
}

pub type Macros = BTreeMap<String, MacroDef>;

pub fn parse_macro_rules(ts: TokenStream) -> Option<MacroDef> {
    // ( $a:ident, $b:expr ) => { body }  ;?
    let v: Vec<TokenTree> = ts.into_iter().collect();
    if v.len() < 4 {
        return None;
    }
    let pat = match &v[0] {
        TokenTree::Group(g) => g.stream(),
        _ => return None,
    };
    let body = match &v[3] {
        TokenTree::Group(g) => g.stream(),
        _ => return None,
    };
    let rest: Vec<_> = v[4..].iter().filter(|t| !matches!(t, TokenTree::Punct(p) if p.as_char()==';')).collect();
    if !rest.is_empty() {
        return None; // several arms
    }
    let p: Vec<TokenTree> = pat.into_iter().collect();
    let mut params = vec![];
    let mut i = 0;
    while i < p.len() {
        match &p[i] {
            TokenTree::Punct(d) if d.as_char() == '$' => {
                let name = match p.get(i + 1) {
                    Some(TokenTree::Ident(n)) => n.to_string(),
                    _ => return None,
                };
                let kind = match p.get(i + 3) {
                    Some(TokenTree::Ident(n)) => n.to_string(),
                    _ => return None,
                };
                params.push((name, kind));
                i += 4;
                if i < p.len() {
                    match &p[i] {
                        TokenTree::Punct(c) if c.as_char() == ',' => i += 1,
                        _ => return None,
                    }
                }
            }
            _ => return None,
        }
    }
    Some(MacroDef { params, body })
}

fn split_commas(ts: TokenStream) -> Vec<TokenStream> {
    let mut out = vec![];
    let mut cur: Vec<TokenTree> = vec![];
    for t in ts {
        if let TokenTree::Punct(p) = &t {
            if p.as_char() == ',' {
                out.push(cur.drain(..).collect());
                continue;
            }
        }
        cur.push(t);
    }
    if !cur.is_empty() {
        out.push(cur.into_iter().collect());
    }
    out
}

fn subst(body: TokenStream, env: &BTreeMap<String, TokenStream>) -> TokenStream {
    let v: Vec<TokenTree> = body.into_iter().collect();
    let mut out: Vec<TokenTree> = vec![];
    let mut i = 0;
    while i < v.len() {
        match &v[i] {
            TokenTree::Punct(p) if p.as_char() == '$' => {
                if let Some(TokenTree::Ident(n)) = v.get(i + 1) {
                    if let Some(ts) = env.get(&n.to_string()) {
                        let n_tok = ts.clone().into_iter().count();
                        if n_tok == 1 {
                            out.extend(ts.clone());
                        } else {
                            let simple = ts.clone().into_iter().all(|t| match &t {
                                TokenTree::Ident(_) => true,
                                TokenTree::Punct(p) => p.as_char() == ':' || p.as_char() == '.',
                                _ => false,
                            });
                            if simple {
                                out.extend(ts.clone());
                            } else {
                                out.push(TokenTree::Group(Group::new(Delimiter::Parenthesis, ts.clone())));
                            }
                        }
                        i += 2;
                        continue;
                    }
                    if n == "crate" {
                        out.push(v[i + 1].clone());
                        i += 2;
                        continue;
                    }
                }
                out.push(v[i].clone());
            }
            TokenTree::Group(g) => {
                out.push(TokenTree::Group(Group::new(g.delimiter(), subst(g.stream(), env))));
            }
            t => out.push(t.clone()),
        }
        i += 1;
    }
    out.into_iter().collect()
}

pub struct Expander<'a> {
    pub macros: &'a Macros,
    pub unknown: Vec<String>,
}

impl<'a> Expander<'a> {
    fn expand(&self, mac: &syn::Macro) -> Option<TokenStream> {
        let name = mac.path.segments.last()?.ident.to_string();
        let args = split_commas(mac.tokens.clone());
        if let Some(d) = self.macros.get(&name) {
            if args.len() != d.params.len() {
                return None;
            }
            let mut env = BTreeMap::new();
            for ((n, _k), a) in d.params.iter().zip(args) {
                env.insert(n.clone(), a);
            }
            return Some(subst(d.body.clone(), &env));
        }
        match name.as_str() {
            "vec" => {
                let toks = mac.tokens.clone();
                if toks.clone().into_iter().any(|t| matches!(&t, TokenTree::Punct(p) if p.as_char()==';')) {
                    return None;
                }
                if args.is_empty() {
                    return Some(quote::quote!(Vec::new()));
                }
                Some(quote::quote!({ let mut vx_v = Vec::new(); #( vx_v.push(#args); )* vx_v }))
            }
            "matches" => {
                // first comma separates the scrutinee
                let mut it = mac.tokens.clone().into_iter();
                let mut e: Vec<TokenTree> = vec![];
                for t in it.by_ref() {
                    if matches!(&t, TokenTree::Punct(p) if p.as_char()==',') {
                        break;
                    }
                    e.push(t);
                }
                let e: TokenStream = e.into_iter().collect();
                let p: TokenStream = it.collect();
                Some(quote::quote!(match #e { #p => true, _ => false }))
            }
            "assert" | "debug_assert" => {
                let c = args.get(0)?.clone();
                Some(quote::quote!(crate::model::vx_assert(#c)))
            }
            "assert_eq" | "debug_assert_eq" => {
                let (a, b) = (args.get(0)?.clone(), args.get(1)?.clone());
                Some(quote::quote!(crate::model::vx_assert((#a) == (#b))))
            }
            "unreachable" | "panic" | "unimplemented" | "todo" => Some(quote::quote!(crate::model::vx_panic())),
            _ => None,
        }
    }
}

impl<'a> VisitMut for Expander<'a> {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        let mut out: Vec<syn::Stmt> = vec![];
        for s in b.stmts.drain(..) {
            if let syn::Stmt::Macro(m) = &s {
                if let Some(ts) = self.expand(&m.mac) {
                    let parser = syn::Block::parse_within;
                    if let Ok(stmts) = syn::parse::Parser::parse2(parser, ts.clone()) {
                        let n = stmts.len();
                        for (i, mut st) in stmts.into_iter().enumerate() {
                            if i + 1 == n && m.semi_token.is_some() {
                                if let syn::Stmt::Expr(_, semi @ None) = &mut st {
                                    *semi = Some(Default::default());
                                }
                            }
                            out.push(st);
                        }
                        continue;
                    }
                }
            }
            out.push(s);
        }
        b.stmts = out;
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        if let syn::Expr::Macro(m) = e {
            if let Some(ts) = self.expand(&m.mac) {
                if let Ok(x) = syn::parse2::<syn::Expr>(ts.clone()) {
                    *e = x;
                } else {
                    let blk = quote::quote!({ #ts });
                    if let Ok(x) = syn::parse2::<syn::Expr>(blk) {
                        *e = x;
                    }
                }
            } else {
                self.unknown.push(m.mac.path.segments.last().unwrap().ident.to_string());
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
