//! Private functions and fields renamed since the contracts were written are renamed back before
//! anything else looks at the file (a bijective renaming within the one file that can mention them).
//! The names the contracts know are in units/shape.txt; `vx --shape REPO` writes it.
use crate::{all_fns, dict};
use proc_macro2::{Group, TokenStream, TokenTree};
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::{self, VisitMut};
use syn::*;

type Shape = Vec<(String, String, String)>; // (owner, kind and type, name), in order

fn shape_of(f: &File) -> Shape {
    let mut v: Shape = vec![];
    for it in f.items.iter() {
        if let Item::Struct(s) = it {
            for x in s.fields.iter() {
                if let (Some(i), Visibility::Inherited) = (&x.ident, &x.vis) {
                    v.push((format!("struct {}", s.ident), format!("field {}", x.ty.to_token_stream()), i.to_string()));
                }
            }
        }
    }
    for x in all_fns(f) {
        if x.owner.contains(':') || x.owner.starts_with("trait ") || !matches!(x.vis, Visibility::Inherited) {
            continue;
        }
        let ins: Vec<String> = x
            .sig
            .inputs
            .iter()
            .map(|a| match a {
                FnArg::Typed(t) => t.ty.to_token_stream().to_string(),
                FnArg::Receiver(r) => r.to_token_stream().to_string(),
            })
            .collect();
        v.push((x.owner.clone(), format!("fn ({}) {}", ins.join(", "), x.sig.output.to_token_stream()), x.sig.ident.to_string()));
    }
    v
}
fn rel(repo: &str, p: &std::path::Path) -> String {
    p.strip_prefix(repo).unwrap_or(p).to_string_lossy().to_string()
}
pub fn shape(repo: &str) -> String {
    let mut out = String::new();
    for p in dict::rust_files(repo) {
        let rel = rel(repo, &p);
        if let Ok(f) = parse_file(&std::fs::read_to_string(&p).unwrap_or_default()) {
            for (o, k, n) in shape_of(&f) {
                out.push_str(&format!("{}\t{}\t{}\t{}\n", rel, o, k, n));
            }
        }
    }
    out
}

thread_local! {
    static BASE: std::cell::RefCell<BTreeMap<String, Shape>> = Default::default();
    pub static DONE: std::cell::RefCell<BTreeSet<String>> = Default::default();
}
pub fn read_base(path: &std::path::Path) {
    let t = std::fs::read_to_string(path).unwrap_or_default();
    BASE.with(|b| {
        for l in t.lines() {
            let c: Vec<&str> = l.split('\t').collect();
            if c.len() == 4 {
                b.borrow_mut().entry(c[0].into()).or_default().push((c[1].into(), c[2].into(), c[3].into()));
            }
        }
    });
}

struct Back<'a>(&'a BTreeMap<String, String>);
impl<'a> Back<'a> {
    fn ts(&self, ts: TokenStream) -> TokenStream {
        ts.into_iter()
            .map(|t| match t {
                TokenTree::Ident(i) => TokenTree::Ident(self.id(&i)),
                TokenTree::Group(g) => TokenTree::Group(Group::new(g.delimiter(), self.ts(g.stream()))),
                t => t,
            })
            .collect()
    }
    fn id(&self, i: &Ident) -> Ident {
        match self.0.get(&i.to_string()) {
            Some(n) => Ident::new(n, i.span()),
            None => i.clone(),
        }
    }
}
impl<'a> VisitMut for Back<'a> {
    fn visit_ident_mut(&mut self, i: &mut Ident) {
        *i = self.id(i);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        m.tokens = self.ts(m.tokens.clone());
        visit_mut::visit_macro_mut(self, m);
    }
}
fn idents(ts: TokenStream, out: &mut BTreeSet<String>) {
    for t in ts {
        match t {
            TokenTree::Ident(i) => {
                out.insert(i.to_string());
            }
            TokenTree::Group(g) => idents(g.stream(), out),
            _ => {}
        }
    }
}

pub fn restore(path: &str, f: &mut File) {
    let base = match BASE.with(|b| b.borrow().get(path).cloned()) {
        Some(b) => b,
        None => return,
    };
    let now = shape_of(f);
    let mut here = BTreeSet::new();
    idents(f.to_token_stream(), &mut here);
    let known: BTreeSet<&String> = base.iter().map(|x| &x.2).collect();
    let mut map: BTreeMap<String, String> = BTreeMap::new();
    let keys: BTreeSet<(String, String)> = base.iter().map(|x| (x.0.clone(), x.1.clone())).collect();
    for (o, k) in keys {
        let of = |s: &Shape| -> Vec<String> { s.iter().filter(|x| x.0 == o && x.1 == k).map(|x| x.2.clone()).collect() };
        let (b, n) = (of(&base), of(&now));
        let gone: Vec<&String> = b.iter().filter(|x| !n.contains(x) && !here.contains(*x)).collect();
        let new: Vec<&String> = n.iter().filter(|x| !b.contains(x) && !known.contains(*x)).collect();
        if gone.len() == new.len() {
            for (g, w) in gone.iter().zip(new.iter()) {
                map.insert((*w).clone(), (*g).clone());
            }
        }
    }
    if map.is_empty() {
        return;
    }
    DONE.with(|d| {
        for (a, b) in map.iter() {
            d.borrow_mut().insert(format!("{}: {} renamed back to {}", path, a, b));
        }
    });
    Back(&map).visit_file_mut(f);
}

/// every place that parses a source file goes through here
pub fn parse(repo: &str, path: &std::path::Path) -> Option<File> {
    let rel = rel(repo, path);
    let mut f = parse_file(&std::fs::read_to_string(path).unwrap_or_default()).ok()?;
    restore(&rel, &mut f);
    Some(f)
}
