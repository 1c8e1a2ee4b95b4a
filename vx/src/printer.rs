//! Token printer: deterministic layout, one statement per line, with the vx markers
//! (`__vx_inv!`, `__vx_raw!`) replaced by verification text.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

pub struct Printer<'a> {
    pub raws: &'a [String],
    pub out: String,
    pub indent: usize,
    sol: bool,
    glue: bool,
}

impl<'a> Printer<'a> {
    pub fn new(raws: &'a [String], indent: usize) -> Self {
        Printer { raws, out: String::new(), indent, sol: true, glue: false }
    }
    fn nl(&mut self) {
        if !self.sol {
            self.out.push('\n');
            self.sol = true;
        }
    }
    fn put(&mut self, s: &str, glue_after: bool) {
        if self.sol {
            for _ in 0..self.indent {
                self.out.push_str("    ");
            }
            self.sol = false;
        } else if !self.glue {
            self.out.push(' ');
        }
        self.out.push_str(s);
        self.glue = glue_after;
    }
    fn raw(&mut self, s: &str) {
        self.nl();
        for l in s.lines() {
            self.out.push_str(l);
            self.out.push('\n');
        }
        self.sol = true;
    }
    fn idx(ts: &TokenStream) -> usize {
        ts.to_string().trim().parse::<usize>().unwrap()
    }
    pub fn stream(&mut self, ts: TokenStream) {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        let mut i = 0;
        while i < v.len() {
            match &v[i] {
                TokenTree::Ident(id) => {
                    let s = id.to_string();
                    if (s == "__vx_raw" || s == "__vx_inv") && i + 2 < v.len() {
                        if let TokenTree::Group(g) = &v[i + 2] {
                            let k = Self::idx(&g.stream());
                            let t = self.raws[k].clone();
                            self.raw(&t);
                            i += 3;
                            if i < v.len() {
                                if let TokenTree::Punct(p) = &v[i] {
                                    if p.as_char() == ';' {
                                        i += 1;
                                    }
                                }
                            }
                            continue;
                        }
                    }
                    self.put(&s, false);
                }
                TokenTree::Literal(l) => self.put(&l.to_string(), false),
                TokenTree::Punct(p) => {
                    let c = p.as_char();
                    let s = c.to_string();
                    let glue = p.spacing() == Spacing::Joint || c == '\'';
                    if c == ';' {
                        self.glue = true;
                        self.put(&s, false);
                        self.nl();
                    } else if c == ',' || c == '.' {
                        self.glue = true;
                        self.put(&s, c == '.');
                    } else {
                        self.put(&s, glue);
                    }
                }
                TokenTree::Group(g) => match g.delimiter() {
                    Delimiter::Brace => {
                        // invariants precede the block they are written in
                        let mut inner: Vec<TokenTree> = g.stream().into_iter().collect();
                        loop {
                            let mut hit = None;
                            if inner.len() >= 3 {
                                if let (TokenTree::Ident(id), TokenTree::Group(a)) = (&inner[0], &inner[2]) {
                                    if id == "__vx_inv" {
                                        hit = Some(Self::idx(&a.stream()));
                                    }
                                }
                            }
                            match hit {
                                Some(k) => {
                                    let t = self.raws[k].clone();
                                    self.raw(&t);
                                    let n = if inner.len() > 3 { 4 } else { 3 };
                                    inner.drain(0..n);
                                }
                                None => break,
                            }
                        }
                        self.put("{", false);
                        self.nl();
                        self.indent += 1;
                        self.stream(inner.into_iter().collect());
                        self.nl();
                        self.indent -= 1;
                        self.put("}", false);
                        // keep `} else`, `} , ` on the same line
                        let stay = match v.get(i + 1) {
                            Some(TokenTree::Ident(id)) => id == "else",
                            Some(TokenTree::Punct(_)) => true,
                            None => true,
                            Some(TokenTree::Group(_)) => false,
                            _ => false,
                        };
                        if !stay {
                            self.nl();
                        }
                    }
                    Delimiter::Parenthesis | Delimiter::Bracket => {
                        let (a, b) = if g.delimiter() == Delimiter::Parenthesis { ("(", ")") } else { ("[", "]") };
                        self.put(a, true);
                        self.indent += 1;
                        self.stream(g.stream());
                        self.indent -= 1;
                        self.glue = true;
                        self.put(b, false);
                    }
                    Delimiter::None => self.stream(g.stream()),
                },
            }
            i += 1;
        }
    }
}

pub fn print(ts: TokenStream, raws: &[String], indent: usize) -> String {
    let mut p = Printer::new(raws, indent);
    p.stream(ts);
    p.nl();
    p.out
}

/// Token text without whitespace, used for keys.
pub fn key(ts: TokenStream) -> String {
    let mut s = String::new();
    fn go(ts: TokenStream, s: &mut String) {
        let mut prev_word = false;
        for t in ts {
            match t {
                TokenTree::Group(g) => {
                    let (a, b) = match g.delimiter() {
                        Delimiter::Parenthesis => ("(", ")"),
                        Delimiter::Bracket => ("[", "]"),
                        Delimiter::Brace => ("{", "}"),
                        Delimiter::None => ("", ""),
                    };
                    s.push_str(a);
                    go(g.stream(), s);
                    s.push_str(b);
                    prev_word = false;
                }
                TokenTree::Ident(i) => {
                    if prev_word {
                        s.push(' ');
                    }
                    s.push_str(&i.to_string());
                    prev_word = true;
                }
                TokenTree::Literal(l) => {
                    if prev_word {
                        s.push(' ');
                    }
                    s.push_str(&l.to_string());
                    prev_word = true;
                }
                TokenTree::Punct(p) => {
                    s.push(p.as_char());
                    prev_word = false;
                }
            }
        }
    }
    go(ts, &mut s);
    s
}
