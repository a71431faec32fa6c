//! Token printer.  Marker macros left in the syntax tree by the extractor are
//! expanded to Verus text here (Verus clauses cannot be represented in syn).
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

pub struct Printer<'a> {
    pub out: String,
    pub texts: &'a [String],
    indent: usize,
    bol: bool,
    last_joint: bool,
}

impl<'a> Printer<'a> {
    pub fn new(texts: &'a [String]) -> Self {
        Printer { out: String::new(), texts, indent: 0, bol: true, last_joint: false }
    }
    fn nl(&mut self) {
        if !self.bol {
            self.out.push('\n');
            self.bol = true;
        }
        self.last_joint = false;
    }
    fn word(&mut self, s: &str, joint: bool) {
        if self.bol {
            for _ in 0..self.indent {
                self.out.push_str("  ");
            }
            self.bol = false;
        } else if !self.last_joint {
            self.out.push(' ');
        }
        self.out.push_str(s);
        self.last_joint = joint;
    }
    fn raw(&mut self, s: &str) {
        self.nl();
        self.out.push_str(s);
        if !s.ends_with('\n') {
            self.out.push('\n');
        }
        self.bol = true;
        self.last_joint = false;
    }
    fn marker<'t>(toks: &'t [TokenTree], i: usize, name: &str) -> Option<&'t proc_macro2::Group> {
        if let TokenTree::Ident(id) = &toks[i] {
            if id == name {
                if let (Some(TokenTree::Punct(p)), Some(TokenTree::Group(g))) = (toks.get(i + 1), toks.get(i + 2)) {
                    if p.as_char() == '!' {
                        return Some(g);
                    }
                }
            }
        }
        None
    }
    fn idx(g: &proc_macro2::Group) -> usize {
        let s = g.stream().into_iter().next().unwrap().to_string();
        s.trim_end_matches("usize").parse().unwrap()
    }
    pub fn ts(&mut self, ts: TokenStream) {
        let toks: Vec<TokenTree> = ts.into_iter().collect();
        let mut i = 0;
        while i < toks.len() {
            // raw text marker statement:  __vx_txt!(n);
            if let Some(g) = Self::marker(&toks, i, "__vx_txt") {
                let t = self.texts[Self::idx(g)].clone();
                self.raw(&t);
                i += 3;
                if let Some(TokenTree::Punct(p)) = toks.get(i) {
                    if p.as_char() == ';' {
                        i += 1;
                    }
                }
                continue;
            }
            // ghost iterator name:  __vx_it!(name, EXPR)
            if let Some(g) = Self::marker(&toks, i, "__vx_it") {
                let mut it = g.stream().into_iter();
                let name = it.next().unwrap().to_string();
                it.next();
                self.word(&name, false);
                self.word(":", false);
                self.ts(it.collect());
                i += 3;
                continue;
            }
            // named return:  __vx_ret!(name, TYPE)
            if let Some(g) = Self::marker(&toks, i, "__vx_ret") {
                let mut it = g.stream().into_iter();
                let name = it.next().unwrap().to_string();
                it.next();
                self.word("(", true);
                self.word(&name, false);
                self.word(":", false);
                self.ts(it.collect());
                self.word(")", false);
                i += 3;
                continue;
            }
            match &toks[i] {
                TokenTree::Group(g) => {
                    match g.delimiter() {
                        Delimiter::Brace => {
                            let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                            // clause marker at the start of a block: printed before the brace
                            let mut skip = 0;
                            if !inner.is_empty() {
                                if let Some(m) = Self::marker(&inner, 0, "__vx_clause") {
                                    let t = self.texts[Self::idx(m)].clone();
                                    self.raw(&t);
                                    skip = 3;
                                    if let Some(TokenTree::Punct(p)) = inner.get(3) {
                                        if p.as_char() == ';' {
                                            skip = 4;
                                        }
                                    }
                                }
                            }
                            self.word("{", false);
                            self.indent += 1;
                            self.nl();
                            self.ts(inner.into_iter().skip(skip).collect());
                            self.indent -= 1;
                            self.nl();
                            self.word("}", false);
                            // keep `} else`, `} ;`, `}, ` etc on the same line
                            let stay = match toks.get(i + 1) {
                                Some(TokenTree::Punct(_)) => true,
                                Some(TokenTree::Ident(id)) => id == "else",
                                Some(TokenTree::Group(g)) => g.delimiter() != Delimiter::Brace,
                                _ => false,
                            };
                            if !stay {
                                self.nl();
                            }
                        }
                        Delimiter::Parenthesis => {
                            self.word("(", true);
                            self.ts(g.stream());
                            self.last_joint = true;
                            self.word(")", false);
                        }
                        Delimiter::Bracket => {
                            self.word("[", true);
                            self.ts(g.stream());
                            self.last_joint = true;
                            self.word("]", false);
                        }
                        Delimiter::None => self.ts(g.stream()),
                    }
                }
                TokenTree::Punct(p) => {
                    let c = p.as_char();
                    let joint = p.spacing() == Spacing::Joint || c == '\'';
                    self.word(&c.to_string(), joint);
                    if c == ';' {
                        self.nl();
                    }
                }
                TokenTree::Ident(id) => self.word(&id.to_string(), false),
                TokenTree::Literal(l) => self.word(&l.to_string(), false),
            }
            i += 1;
        }
    }
}

pub fn print(ts: TokenStream, texts: &[String]) -> String {
    let mut p = Printer::new(texts);
    p.ts(ts);
    p.nl();
    p.out
}
