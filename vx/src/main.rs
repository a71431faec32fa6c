//! vx UNIT OUT.rs META.json [--repo DIR] [--canary] [--role fn.name=actual]...
//! Extracts the functions a unit names from the repository's working tree and merges them
//! with the unit's contracts.  Exit 0: written; 3: an anchor was lost (message on stderr).
mod dict;
mod pre;
mod shape;
mod inline;
mod iter;
mod printer;
mod xform;

use proc_macro2::{Ident, Span};
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;
use xform::{Opts, Xf};

fn lost(msg: &str) -> ! {
    eprintln!("LOST-ANCHOR {}", msg);
    std::process::exit(3)
}

#[derive(Default, Clone)]
struct FnAnn {
    path: String,
    newname: Option<String>,
    ret: Option<String>,
    contract: String,
    attrs: String,
    generics: Option<String>,
    selfty: Option<String>,
    loops: BTreeMap<usize, String>,
    places: Vec<(String, usize, String)>, // (kind, loop ordinal, text)
    vis: bool,
    sig_only: bool,
    line: usize,
}

struct SrcFile {
    path: String,
    file: File,
}

fn load(repo: &str, path: &str) -> SrcFile {
    let full = format!("{}/{}", repo, path);
    let mut text = match std::fs::read_to_string(&full) {
        Ok(t) => t,
        Err(e) => lost(&format!("file {}: {}", path, e)),
    };
    if path.ends_with(".tera") {
        text = detemplate(&text);
    }
    match parse_file(&text) {
        Ok(mut file) => {
            shape::restore(path, &mut file);
            SrcFile { path: path.to_string(), file }
        }
        Err(e) => lost(&format!("cannot parse {}: {}", path, e)),
    }
}

/// lexer template -> Rust: `{{name}}` becomes `Gen`, `{% for %}..{% endfor %}` sections are instantiated
/// for one token named WHITE_SPACE
fn detemplate(t: &str) -> String {
    let mut out = String::new();
    let mut rest = t;
    while let Some(p) = rest.find("{%") {
        out.push_str(&rest[..p]);
        match rest[p..].find("%}") {
            Some(q) => rest = &rest[p + q + 2..],
            None => break,
        }
    }
    out.push_str(rest);
    let mut s = String::new();
    let mut rest = out.as_str();
    while let Some(p) = rest.find("{{") {
        s.push_str(&rest[..p]);
        match rest[p..].find("}}") {
            Some(q) => {
                let key = rest[p + 2..p + q].trim();
                s.push_str(match key {
                    "name" => "Gen",
                    "token.token_name" => "WHITE_SPACE",
                    "token.token_type" => "2",
                    "token.regex" => "^(x)",
                    _ => lost(&format!("template hole {}", key)),
                });
                rest = &rest[p + q + 2..];
            }
            None => break,
        }
    }
    s.push_str(rest);
    s
}

fn ty_name(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        _ => t.to_token_stream().to_string(),
    }
}

#[derive(Clone)]
pub struct Found {
    pub sig: Signature,
    pub block: Option<Block>,
    pub vis: Visibility,
    pub owner: String,
}

/// every function of a file, with owner "Type", "Type:Trait", "trait Trait" or ""
pub fn all_fns(f: &File) -> Vec<Found> {
    let mut v = vec![];
    for it in f.items.iter() {
        match it {
            Item::Fn(x) => v.push(Found { sig: x.sig.clone(), block: Some((*x.block).clone()), vis: x.vis.clone(), owner: String::new() }),
            Item::Impl(im) => {
                let ty = ty_name(&im.self_ty);
                let owner = match &im.trait_ {
                    Some((_, p, _)) => format!("{}:{}", ty, p.segments.last().unwrap().ident),
                    None => ty,
                };
                for x in im.items.iter() {
                    if let ImplItem::Fn(m) = x {
                        v.push(Found { sig: m.sig.clone(), block: Some(m.block.clone()), vis: m.vis.clone(), owner: owner.clone() });
                    }
                }
            }
            Item::Trait(t) => {
                for x in t.items.iter() {
                    if let TraitItem::Fn(m) = x {
                        v.push(Found { sig: m.sig.clone(), block: m.default.clone(), vis: Visibility::Inherited, owner: format!("trait {}", t.ident) });
                    }
                }
            }
            Item::Mod(m) => {
                if let Some((_, items)) = &m.content {
                    let inner = File { shebang: None, attrs: vec![], items: items.clone() };
                    v.extend(all_fns(&inner));
                }
            }
            _ => {}
        }
    }
    v
}

/// the trait default a type does not override: "Type:Trait::f ?? trait Trait::f" looks in the type's file first
fn has_fn(src: &SrcFile, path: &str) -> bool {
    let i = path.rfind("::").unwrap();
    let (owner, name) = (&path[..i], &path[i + 2..]);
    all_fns(&src.file).iter().any(|f| f.sig.ident == name && f.owner == owner)
}

fn find_fn(src: &SrcFile, path: &str) -> Found {
    let (owner, name) = match path.rfind("::") {
        Some(i) => (&path[..i], &path[i + 2..]),
        None => ("", path),
    };
    let all = all_fns(&src.file);
    let hits: Vec<&Found> = all.iter().filter(|f| f.sig.ident == name && f.owner == owner).collect();
    if hits.len() == 1 {
        return hits[0].clone();
    }
    // an inherent method may have been moved to a trait impl or a free function of the same name
    let hits: Vec<&Found> = all
        .iter()
        .filter(|f| f.sig.ident == name && f.block.is_some() && f.owner.split(':').next().unwrap() == owner.split(':').next().unwrap())
        .collect();
    if hits.len() == 1 && !owner.contains(':') {
        return hits[0].clone();
    }
    lost(&format!("function {} in {}", path, src.path))
}

// ---------------------------------------------------------------- loops

#[derive(Default)]
struct LoopInfo {
    subst: Vec<(String, String)>,
}

struct LoopNumberer<'a> {
    n: usize,
    ann: &'a FnAnn,
    infos: Vec<LoopInfo>,
    texts: &'a mut Vec<String>,
    used: BTreeSet<usize>,
    pending: Vec<(usize, String)>, // text index with place text to be substituted later
    canary: bool,
}

fn idx_shape(e: &Expr) -> Option<(String, String)> {
    // IDENT < X.len()
    if let Expr::Binary(b) = e {
        if let (BinOp::Lt(_), Expr::Path(p), Expr::MethodCall(m)) = (&b.op, &*b.left, &*b.right) {
            if m.method == "len" && m.args.is_empty() {
                return Some((p.path.get_ident()?.to_string(), m.receiver.to_token_stream().to_string()));
            }
        }
        if let (BinOp::Ne(_), Expr::Path(p), Expr::MethodCall(m)) = (&b.op, &*b.left, &*b.right) {
            if m.method == "len" && m.args.is_empty() {
                return Some((p.path.get_ident()?.to_string(), m.receiver.to_token_stream().to_string()));
            }
        }
    }
    None
}

impl<'a> LoopNumberer<'a> {
    fn add_text(&mut self, s: &str) -> usize {
        self.texts.push(s.to_string());
        self.pending.push((self.texts.len() - 1, s.to_string()));
        self.texts.len() - 1
    }
    fn marker(&mut self, s: &str) -> Stmt {
        let n = Lit::Int(LitInt::new(&self.add_text(s).to_string(), Span::call_site()));
        parse_quote!(__vx_txt!(#n);)
    }
    fn body(&mut self, k: usize, b: &mut Block) {
        let places = self.ann.places.clone();
        let tops: Vec<String> = places.iter().filter(|p| p.0 == "top" && p.1 == k).map(|p| p.2.clone()).collect();
        let bots: Vec<String> = places.iter().filter(|p| p.0 == "bottom" && p.1 == k).map(|p| p.2.clone()).collect();
        if self.canary {
            let st = self.marker(&format!("proof {{ if vx_canary({}) {{ assert(false); }} }}", 100 + k));
            b.stmts.insert(0, st);
        }
        for t in tops.iter().rev() {
            let st = self.marker(t);
            b.stmts.insert(0, st);
        }
        if !bots.is_empty() {
            // a trailing expression statement without semicolon must stay last only if it has a value;
            // loop bodies have type (), so appending after it is fine once it is terminated
            if let Some(Stmt::Expr(_, semi)) = b.stmts.last_mut() {
                if semi.is_none() {
                    *semi = Some(Default::default());
                }
            }
        }
        for t in bots {
            let st = self.marker(&t);
            b.stmts.push(st);
        }
        if let Some(t) = self.ann.loops.get(&k).cloned() {
            self.used.insert(k);
            let n = Lit::Int(LitInt::new(&self.add_text(&t).to_string(), Span::call_site()));
            b.stmts.insert(0, parse_quote!(__vx_clause!(#n);));
        }
    }
}

impl<'a> VisitMut for LoopNumberer<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Closure(_) => {}
            Expr::ForLoop(f) => {
                let k = self.n;
                self.n += 1;
                let mut info = LoopInfo::default();
                let mut ranged = false;
                if let Expr::Range(r) = &*f.expr {
                    if let (Some(st), Some(en), Pat::Ident(pi)) = (&r.start, &r.end, &*f.pat) {
                        let zero = st.to_token_stream().to_string().trim_end_matches("usize") == "0";
                        if let Expr::MethodCall(m) = &**en {
                            if m.method == "len" && zero {
                                let rc = m.receiver.to_token_stream().to_string();
                                info.subst.push((format!("$i{}", k), format!("({} as int)", pi.ident)));
                                info.subst.push((format!("$n{}", k), format!("(({}).len() as int)", rc)));
                                info.subst.push((format!("$e{}", k), format!("@idx {}", rc)));
                                ranged = true;
                            }
                        }
                    }
                }
                if !ranged {
                    info.subst.push((format!("$i{}", k), format!("it_{}.index()", k)));
                    info.subst.push((format!("$n{}", k), format!("(it_{}.seq().len() as int)", k)));
                    let by_ref = match &*f.expr {
                        Expr::MethodCall(m) => m.method != "into_iter",
                        Expr::Reference(_) => true,
                        _ => false,
                    };
                    info.subst.push((format!("$e{}", k), format!("{} it_{}", if by_ref { "@seq" } else { "@own" }, k)));
                    info.subst.push((format!("$x{}", k), f.pat.to_token_stream().to_string()));
                }
                info.subst.push((format!("$it{}", k), format!("it_{}", k)));
                self.infos.push(info);
                self.visit_block_mut(&mut f.body);
                self.body(k, &mut f.body);
                let id = format_ident!("it_{}", k);
                let ex = &f.expr;
                *f.expr = parse_quote!(__vx_it!(#id, #ex));
            }
            Expr::While(w) => {
                let k = self.n;
                self.n += 1;
                let mut info = LoopInfo::default();
                if let Some((i, v)) = idx_shape(&w.cond) {
                    info.subst.push((format!("$i{}", k), format!("({} as int)", i)));
                    info.subst.push((format!("$n{}", k), format!("(({}).len() as int)", v)));
                    info.subst.push((format!("$e{}", k), format!("@idx {}", v)));
                }
                self.infos.push(info);
                self.visit_block_mut(&mut w.body);
                self.body(k, &mut w.body);
            }
            Expr::Loop(w) => {
                let k = self.n;
                self.n += 1;
                self.infos.push(LoopInfo::default());
                self.visit_block_mut(&mut w.body);
                self.body(k, &mut w.body);
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        // before / after a loop statement
        let old = std::mem::take(&mut b.stmts);
        let len = old.len();
        for (si, mut s) in old.into_iter().enumerate() {
            let before = self.n;
            let is_loop = matches!(&s, Stmt::Expr(Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_), _));
            self.visit_stmt_mut(&mut s);
            if is_loop {
                let places = self.ann.places.clone();
                for p in places.iter().filter(|p| p.0 == "before" && p.1 == before) {
                    let m = self.marker(&p.2);
                    b.stmts.push(m);
                }
                let after: Vec<_> = places.iter().filter(|p| p.0 == "after" && p.1 == before).cloned().collect();
                if si + 1 < len || !after.is_empty() {
                    if let Stmt::Expr(_, semi) = &mut s {
                        *semi = Some(Default::default());
                    }
                }
                b.stmts.push(s);
                for p in after {
                    let m = self.marker(&p.2);
                    b.stmts.push(m);
                }
            } else {
                b.stmts.push(s);
            }
        }
    }
}

fn balanced(s: &str, open: usize) -> Option<usize> {
    let b = s.as_bytes();
    let mut d = 0;
    for i in open..b.len() {
        if b[i] == b'(' {
            d += 1;
        }
        if b[i] == b')' {
            d -= 1;
            if d == 0 {
                return Some(i);
            }
        }
    }
    None
}

fn subst(text: &str, subs: &[(String, String)]) -> String {
    let mut t = text.to_string();
    for (k, v) in subs {
        if let Some(recv) = v.strip_prefix("@idx ").map(|r| (r, 0)).or(v.strip_prefix("@seq ").map(|r| (r, 1))).or(v.strip_prefix("@own ").map(|r| (r, 2))) {
            let pat = format!("{}(", k);
            while let Some(p) = t.find(&pat) {
                let open = p + pat.len() - 1;
                let close = match balanced(&t, open) {
                    Some(c) => c,
                    None => lost(&format!("unbalanced {} in annotation", k)),
                };
                let inner = t[open + 1..close].to_string();
                let rep = match recv.1 {
                    0 => format!("({})@[{}]", recv.0, inner),
                    1 => format!("(*{}.seq()[{}])", recv.0, inner),
                    _ => format!("({}.seq()[{}])", recv.0, inner),
                };
                t.replace_range(p..close + 1, &rep);
            }
        } else {
            t = t.replace(k, v);
        }
    }
    t
}

pub struct Locals {
    pub names: BTreeSet<String>,
}
impl<'ast> Visit<'ast> for Locals {
    fn visit_pat_ident(&mut self, p: &'ast PatIdent) {
        self.names.insert(p.ident.to_string());
        visit::visit_pat_ident(self, p);
    }
}

// ---------------------------------------------------------------- units

struct Meta {
    fns: Vec<String>,
    notes: BTreeSet<String>,
    warnings: Vec<String>,
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct SelfRename(String);
impl VisitMut for SelfRename {
    fn visit_ident_mut(&mut self, i: &mut Ident) {
        if i == "self" {
            *i = Ident::new(&self.0, Span::call_site());
        }
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        let ts: proc_macro2::TokenStream = m.tokens.clone();
        fn go(ts: proc_macro2::TokenStream, n: &str) -> proc_macro2::TokenStream {
            ts.into_iter()
                .map(|t| match t {
                    proc_macro2::TokenTree::Ident(i) if i == "self" => proc_macro2::TokenTree::Ident(Ident::new(n, Span::call_site())),
                    proc_macro2::TokenTree::Group(g) => proc_macro2::TokenTree::Group(proc_macro2::Group::new(g.delimiter(), go(g.stream(), n))),
                    t => t,
                })
                .collect()
        }
        m.tokens = go(ts, &self.0);
    }
}

/// Box<dyn path::XContext> in return position: (path before the name, name)
fn boxed_dyn(o: &ReturnType) -> Option<(Vec<String>, String)> {
    let t = match o {
        ReturnType::Type(_, t) => &**t,
        _ => return None,
    };
    if let Type::Path(p) = t {
        let s = p.path.segments.last()?;
        if s.ident != "Box" {
            return None;
        }
        if let PathArguments::AngleBracketed(a) = &s.arguments {
            if let Some(GenericArgument::Type(Type::TraitObject(d))) = a.args.first() {
                if let Some(TypeParamBound::Trait(t)) = d.bounds.first() {
                    let v: Vec<String> = t.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    return Some((v[..v.len() - 1].to_vec(), v[v.len() - 1].clone()));
                }
            }
        }
    }
    None
}

fn use_leaves(t: &UseTree, pre: &mut Vec<String>, out: &mut Vec<(Vec<String>, String)>) {
    match t {
        UseTree::Path(p) => {
            pre.push(p.ident.to_string());
            use_leaves(&p.tree, pre, out);
            pre.pop();
        }
        UseTree::Name(n) => out.push((pre.clone(), n.ident.to_string())),
        UseTree::Rename(n) => out.push((pre.clone(), n.rename.to_string())),
        UseTree::Glob(_) => out.push((pre.clone(), "*".into())),
        UseTree::Group(g) => {
            for x in g.items.iter() {
                use_leaves(x, pre, out);
            }
        }
    }
}

/// "v1" or "old": the module a context trait name comes from
fn module_of(src: &SrcFile, seg: &[String], name: &str) -> String {
    let mut out = vec![];
    for it in src.file.items.iter() {
        if let Item::Use(u) = it {
            use_leaves(&u.tree, &mut vec![], &mut out);
        }
    }
    let path = if !seg.is_empty() {
        let mut p = seg.to_vec();
        if let Some((pre, _)) = out.iter().find(|(_, n)| *n == seg[0]) {
            p = pre.iter().cloned().chain(p).collect();
        }
        p
    } else if let Some((p, _)) = out.iter().find(|(_, n)| n == name) {
        p.clone()
    } else {
        let globs: Vec<_> = out.iter().filter(|(p, n)| n == "*" && p.iter().any(|s| s.contains("context") || s.contains("syntaxis") || s == "v1")).collect();
        if globs.len() != 1 {
            lost(&format!("import of {} in {}", name, src.path));
        }
        globs[0].0.clone()
    };
    let here_v1 = src.path.contains("/v1/");
    let full: Vec<String> = path
        .iter()
        .enumerate()
        .map(|(i, s)| if s == "super" && i == 0 && (path.len() < 2 || path[1] != "super") { if here_v1 { "v1".into() } else { "syntaxis".into() } } else { s.clone() })
        .collect();
    if full.iter().any(|s| s == "v1") {
        "V1".into()
    } else if full.iter().any(|s| s == "syntaxis") {
        "Old".into()
    } else {
        lost(&format!("import of {} in {}", name, src.path))
    }
}

struct BoxNew(Ident);
impl VisitMut for BoxNew {
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        let v: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
        if v == ["Box", "new"] {
            let id = &self.0;
            *p = parse_quote!(#id::mk);
        }
    }
}

struct LocalRename<'a>(&'a BTreeMap<String, String>);
impl<'a> VisitMut for LocalRename<'a> {
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
        visit_mut::visit_pat_ident_mut(self, p);
        if let Some(n) = self.0.get(&p.ident.to_string()) {
            p.ident = Ident::new(n, p.ident.span());
        }
    }
    fn visit_field_pat_mut(&mut self, f: &mut FieldPat) {
        if f.colon_token.is_none() {
            if let Pat::Ident(p) = &*f.pat {
                if self.0.contains_key(&p.ident.to_string()) {
                    f.colon_token = Some(Default::default());
                }
            }
        }
        visit_mut::visit_field_pat_mut(self, f);
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        if f.colon_token.is_none() {
            if let Expr::Path(p) = &f.expr {
                if p.path.get_ident().map_or(false, |i| self.0.contains_key(&i.to_string())) {
                    f.colon_token = Some(Default::default());
                }
            }
        }
        visit_mut::visit_field_value_mut(self, f);
    }
    fn visit_expr_call_mut(&mut self, c: &mut ExprCall) {
        // the function's own name is not a local
        if !matches!(&*c.func, Expr::Path(_)) {
            self.visit_expr_mut(&mut c.func);
        }
        for a in c.args.iter_mut() {
            self.visit_expr_mut(a);
        }
    }
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        if let Some(n) = p.path.get_ident().and_then(|i| self.0.get(&i.to_string())) {
            let id = Ident::new(n, Span::call_site());
            p.path = parse_quote!(#id);
        }
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        fn go(ts: proc_macro2::TokenStream, h: &BTreeMap<String, String>) -> proc_macro2::TokenStream {
            ts.into_iter()
                .map(|t| match t {
                    proc_macro2::TokenTree::Ident(i) if h.contains_key(&i.to_string()) => proc_macro2::TokenTree::Ident(Ident::new(&h[&i.to_string()], i.span())),
                    proc_macro2::TokenTree::Group(g) => proc_macro2::TokenTree::Group(proc_macro2::Group::new(g.delimiter(), go(g.stream(), h))),
                    t => t,
                })
                .collect()
        }
        m.tokens = go(m.tokens.clone(), self.0);
    }
}

// a body that is one block is that block
fn open_body(block: &mut Block) {
    loop {
        let inner = match block.stmts.as_slice() {
            [Stmt::Expr(Expr::Block(b), None)] if b.label.is_none() => b.block.clone(),
            [Stmt::Expr(Expr::Paren(p), None)] => match &*p.expr {
                Expr::Block(b) if b.label.is_none() => b.block.clone(),
                _ => return,
            },
            _ => return,
        };
        *block = inner;
    }
}

fn emit_fn(src: &SrcFile, ann: &FnAnn, opts: &Opts, known: &BTreeSet<String>, roles: &BTreeMap<String, String>, canary: bool, meta: &mut Meta) -> String {
    let mut f = find_fn(src, &ann.path);
    let mut block = match f.block.take() {
        Some(b) => b,
        None => lost(&format!("function {} has no body", ann.path)),
    };
    let mut inl = inline::inline_unknown(&mut block, &f, src_fns(src), known);
    for n in pre::pre(&mut block, &f.sig).into_iter().chain(iter::normalise(&mut block)) {
        meta.notes.insert(n.clone());
        // these leave every loop and place of the contract where it was
        if !n.ends_with("written as a match") && !n.starts_with("a |= b") && !n.starts_with("for &x in") && !n.starts_with("for x in &xs") && !n.starts_with("in place") {
            meta.warnings.push(format!("{}: {}", ann.path, n));
        }
    }
    inl.extend(inline::inline_unknown(&mut block, &f, src_fns(src), known));
    inline::open_blocks(&mut block, &f.sig);
    open_body(&mut block);
    for n in inl {
        meta.notes.insert(format!("helper {} inlined into {}", n, ann.path));
        meta.warnings.push(format!("helper {} inlined into {}", n, ann.path));
    }
    let mut sig = f.sig.clone();
    if opts.flags.contains("ctxbox") {
        if let Some((seg, name)) = boxed_dyn(&sig.output) {
            let m = module_of(src, &seg, &name);
            let id = format_ident!("{}_{}Box", m, name);
            BoxNew(id.clone()).visit_block_mut(&mut block);
            sig.output = parse_quote!(-> #id);
            meta.notes.insert("Box<dyn XContext> replaced by a box type named after the module the trait is imported from".into());
        }
    }
    let mut x = Xf::new(opts);
    x.visit_block_mut(&mut block);
    open_body(&mut block);
    x.visit_signature_mut(&mut sig);
    meta.notes.extend(x.notes.clone());
    for n in x.weak.iter() {
        meta.warnings.push(format!("{}: library function {} has a partial contract only", ann.path, n));
    }

    let mut lc = Locals { names: BTreeSet::new() };
    lc.visit_block(&block);
    // a local must not hide a specification function of the same name
    let mut hidden: BTreeMap<String, String> = BTreeMap::new();
    for n in lc.names.iter().filter(|n| opts.specs.contains(*n)) {
        hidden.insert(n.clone(), format!("{}_", n));
    }
    if !hidden.is_empty() {
        LocalRename(&hidden).visit_block_mut(&mut block);
        lc.names = lc.names.iter().map(|n| hidden.get(n).cloned().unwrap_or(n.clone())).collect();
        meta.notes.insert(format!("locals renamed where a specification function has the same name: {}", hidden.keys().cloned().collect::<Vec<_>>().join(" ")));
    }
    for a in sig.inputs.iter() {
        if let FnArg::Typed(t) = a {
            lc.visit_pat(&t.pat);
        }
    }

    let mut texts: Vec<String> = vec![];
    let mut ln = LoopNumberer { n: 0, ann, infos: vec![], texts: &mut texts, used: BTreeSet::new(), pending: vec![], canary };
    ln.visit_block_mut(&mut block);
    let nloops = ln.n;
    let mut subs: Vec<(String, String)> = vec![];
    for i in ln.infos.iter().rev() {
        subs.extend(i.subst.clone());
    }
    let pend = std::mem::take(&mut ln.pending);
    drop(ln);
    // parameter names in order: $0, $1 ...  (so renamed parameters keep their contract)
    let mut pi = 0;
    for a in sig.inputs.iter() {
        if let FnArg::Typed(t) = a {
            if let Pat::Ident(p) = &*t.pat {
                subs.push((format!("${}$", pi), p.ident.to_string()));
            }
            pi += 1;
        }
    }
    // $lits: what the string literals of the body are, character by character
    {
        struct Lits(BTreeSet<String>);
        impl<'ast> Visit<'ast> for Lits {
            fn visit_lit_str(&mut self, l: &'ast LitStr) {
                self.0.insert(l.value());
            }
        }
        let mut l = Lits(BTreeSet::new());
        l.visit_block(&block);
        let mut t = String::new();
        for s in l.0 {
            let lit = LitStr::new(&s, Span::call_site()).to_token_stream().to_string();
            let cs: Vec<String> = s.chars().map(|c| LitChar::new(c, Span::call_site()).to_token_stream().to_string()).collect();
            let _ = write!(t, "reveal_strlit({}); assert({}@ =~= seq![{}]);\n", lit, lit, cs.join(", "));
        }
        subs.push(("$lits".into(), t));
    }
    // $anchors: every pattern given to Regex::new as a literal matches at the start only
    {
        struct Pats(BTreeSet<String>);
        impl<'ast> Visit<'ast> for Pats {
            fn visit_expr_call(&mut self, c: &'ast ExprCall) {
                if let (Expr::Path(p), Some(Expr::Lit(ExprLit { lit: Lit::Str(l), .. }))) = (&*c.func, c.args.first()) {
                    let n = p.path.segments.len();
                    if n >= 2 && p.path.segments[n - 2].ident == "Regex" && p.path.segments[n - 1].ident == "new" {
                        self.0.insert(l.value());
                    }
                }
                syn::visit::visit_expr_call(self, c);
            }
            fn visit_macro(&mut self, m: &'ast Macro) {
                for a in xform::macro_args(m.tokens.clone()) {
                    if let Ok(e) = parse2::<Expr>(a) {
                        let mut inner = Pats(BTreeSet::new());
                        inner.visit_expr(&e);
                        self.0.append(&mut inner.0);
                    }
                }
            }
        }
        let mut l = Pats(BTreeSet::new());
        l.visit_block(&block);
        let mut t = String::new();
        for s in l.0 {
            let lit = LitStr::new(&s, Span::call_site()).to_token_stream().to_string();
            let _ = write!(t, "assert(starts_only({}@)) by {{ reveal_strlit({}); reveal_with_fuel(one_branch, {}); }}\n", lit, lit, s.chars().count() + 2);
        }
        subs.push(("$anchors".into(), t));
    }
    let fname = ann.newname.clone().unwrap_or(sig.ident.to_string());
    // roles: ${name} -> actual local
    let mut role_names = BTreeSet::new();
    {
        let mut scan = |t: &str| {
            let mut rest = t;
            while let Some(p) = rest.find("${") {
                if let Some(q) = rest[p..].find('}') {
                    role_names.insert(rest[p + 2..p + q].to_string());
                    rest = &rest[p + q..];
                } else {
                    break;
                }
            }
        };
        for (_, t) in pend.iter() {
            scan(t);
        }
        for p in ann.places.iter() {
            scan(&p.2);
        }
    }
    for r in role_names.iter() {
        let own = hidden.get(r).cloned().unwrap_or(r.clone());
        let mut actual = r.clone();
        if !lc.names.contains(&own) {
            // what the function returns, when that local is nothing else
            let tail = match block.stmts.last() {
                Some(Stmt::Expr(Expr::Path(p), None)) => p.path.get_ident().map(|i| i.to_string()),
                _ => None,
            };
            if let Some(n) = roles.get(&format!("{}.{}", fname, r)) {
                actual = n.clone();
            } else if let (Some(t), "result") = (tail, r.as_str()) {
                if lc.names.contains(&t) && !role_names.contains(&t) {
                    actual = t;
                    meta.warnings.push(format!("{}: {} is what the function returns", fname, r));
                }
            }
        }
        let actual = hidden.get(&actual).cloned().unwrap_or(actual);
        if !lc.names.contains(&actual) {
            meta.warnings.push(format!("role {}.{} missing; locals: {}", fname, r, lc.names.iter().cloned().collect::<Vec<_>>().join(" ")));
        }
        subs.push((format!("${{{}}}", r), actual));
    }
    for (i, t) in pend {
        texts[i] = subst(&t, &subs);
        if texts[i].contains("$i") || texts[i].contains("$e") || texts[i].contains("$n") {
            meta.warnings.push(format!("{}: loop shape changed, placeholder left", fname));
        }
    }
    for k in ann.loops.keys() {
        if *k >= nloops {
            meta.warnings.push(format!("{}: loop {} of the contract does not exist", fname, k));
        }
    }
    for k in (0..nloops).filter(|k| !ann.loops.contains_key(k)) {
        meta.warnings.push(format!("{}: loop {} has no invariant in the contract", fname, k));
    }
    // begin / end
    let mut push_text = |t: &str| -> Stmt {
        texts.push(subst(t, &subs));
        let n = Lit::Int(LitInt::new(&(texts.len() - 1).to_string(), Span::call_site()));
        parse_quote!(__vx_txt!(#n);)
    };
    for p in ann.places.iter().filter(|p| p.0 == "begin").rev() {
        let m = push_text(&p.2);
        block.stmts.insert(0, m);
    }
    if canary {
        let m = push_text("proof { if vx_canary(0) { assert(false); } }");
        block.stmts.insert(0, m);
    }
    for p in ann.places.iter().filter(|p| p.0 == "end") {
        let m = push_text(&p.2);
        if matches!(sig.output, ReturnType::Default) {
            // the value of the tail is (): it can be terminated
            if let Some(Stmt::Expr(_, semi)) = block.stmts.last_mut() {
                if semi.is_none() {
                    *semi = Some(Default::default());
                }
            }
        }
        let at = match block.stmts.last() {
            Some(Stmt::Expr(_, None)) => block.stmts.len() - 1,
            Some(Stmt::Expr(Expr::Return(_), Some(_))) => block.stmts.len() - 1,
            _ => block.stmts.len(),
        };
        block.stmts.insert(at, m);
    }
    texts.push(subst(&ann.contract, &subs));
    let cn = Lit::Int(LitInt::new(&(texts.len() - 1).to_string(), Span::call_site()));
    block.stmts.insert(0, parse_quote!(__vx_clause!(#cn);));

    if let Some(n) = &ann.newname {
        sig.ident = Ident::new(n, Span::call_site());
    }
    if let (Some(r), ReturnType::Type(_, t)) = (&ann.ret, &sig.output) {
        let id = Ident::new(r, Span::call_site());
        let t2 = t.clone();
        sig.output = parse_quote!(-> __vx_ret!(#id, #t2));
    }
    let mut body = block.to_token_stream();
    let mut sig_ts = sig.to_token_stream();
    if let Some(st) = &ann.selfty {
        // free-function form: self -> self_
        let mut b2: Block = parse2(body).unwrap();
        SelfRename("self_".into()).visit_block_mut(&mut b2);
        body = b2.to_token_stream();
        let mut s2 = sig.clone();
        if let Some(FnArg::Receiver(_)) = s2.inputs.first() {
            let st: Type = parse_str(st).unwrap();
            let arg: FnArg = parse_quote!(self_: #st);
            s2.inputs[0] = arg;
        }
        if let Some(g) = &ann.generics {
            let g: Generics = parse_str(g).unwrap();
            s2.generics = g;
        }
        sig_ts = s2.to_token_stream();
    }
    let vis = if ann.vis { quote!(pub) } else { quote!() };
    let ts = quote!(#vis #sig_ts #body);
    let mut out = String::new();
    if !ann.attrs.is_empty() {
        out.push_str(&ann.attrs);
    }
    out.push_str(&printer::print(ts, &texts));
    meta.fns.push(format!(
        "{{\"fn\":{},\"as\":{},\"file\":{},\"loops\":{},\"locals\":[{}]}}",
        jstr(&ann.path),
        jstr(&fname),
        jstr(&src.path),
        nloops,
        lc.names.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",")
    ));
    out
}

thread_local! {
    // inherent functions of the types that only one file implements, by file
    static OTHERS: std::cell::RefCell<Vec<Found>> = Default::default();
}
fn load_others(repo: &str) {
    let mut by: BTreeMap<String, BTreeSet<usize>> = BTreeMap::new();
    let mut all: Vec<(usize, Found)> = vec![];
    for (k, p) in dict::rust_files(repo).into_iter().enumerate() {
        if let Some(f) = shape::parse(repo, &p) {
            for x in all_fns(&f) {
                if !x.owner.is_empty() && !x.owner.contains(':') && !x.owner.starts_with("trait ") {
                    by.entry(x.owner.clone()).or_default().insert(k);
                    all.push((k, x));
                }
            }
        }
    }
    OTHERS.with(|o| *o.borrow_mut() = all.into_iter().filter(|(_, x)| by[&x.owner].len() == 1).map(|x| x.1).collect());
}
fn src_fns(src: &SrcFile) -> Vec<Found> {
    let mut v = all_fns(&src.file);
    let own: BTreeSet<String> = v.iter().map(|f| f.owner.split(':').next().unwrap().to_string()).collect();
    OTHERS.with(|o| v.extend(o.borrow().iter().filter(|f| !own.contains(&f.owner)).cloned()));
    v
}

fn has_derive(attrs: &[Attribute], what: &str) -> bool {
    attrs.iter().any(|a| a.path().is_ident("derive") && a.to_token_stream().into_iter().any(|t| t.to_string().split(|c: char| !c.is_alphanumeric()).any(|w| w == what)))
}

fn emit_item(src: &SrcFile, kind: &str, name: &str, derives: Option<&str>, opts: &Opts, meta: &mut Meta) -> String {
    let mut x = Xf::new(opts);
    for it in src.file.items.iter() {
        let hit = match (kind, it) {
            ("struct", Item::Struct(s)) => s.ident == name,
            ("enum", Item::Enum(s)) => s.ident == name,
            ("const", Item::Const(s)) => s.ident == name,
            ("impl", Item::Impl(s)) => {
                let ty = ty_name(&s.self_ty);
                match &s.trait_ {
                    Some((_, p, _)) => format!("{}:{}", ty, p.segments.last().unwrap().ident) == name,
                    None => ty == name,
                }
            }
            _ => false,
        };
        if hit {
            let mut it = it.clone();
            if let Some(d) = derives {
                let attrs = match &mut it {
                    Item::Struct(s) => &mut s.attrs,
                    Item::Enum(s) => &mut s.attrs,
                    _ => lost("derive= on this item"),
                };
                for w in d.split(',').filter(|w| !w.is_empty()) {
                    if !has_derive(attrs, w) {
                        lost(&format!("{} no longer derives {}", name, w));
                    }
                }
                attrs.retain(|a| !a.path().is_ident("derive"));
                if !d.is_empty() {
                    meta.notes.insert(format!("derived {} of {} replaced by an assumed contract (structural)", d, name));
                }
            }
            x.visit_item_mut(&mut it);
            // every field is made public so contracts can mention it
            if let Item::Struct(s) = &mut it {
                s.vis = parse_quote!(pub);
                for f in s.fields.iter_mut() {
                    f.vis = parse_quote!(pub);
                }
            }
            if let Item::Enum(s) = &mut it {
                s.vis = parse_quote!(pub);
            }
            meta.notes.extend(x.notes);
            return printer::print(it.to_token_stream(), &[]);
        }
    }
    lost(&format!("{} {} in {}", kind, name, src.path))
}

/// the associated constants of a type; `distinct` adds a lemma that they differ pairwise,
/// `named` a predicate: a table of names holds each constant's own name at its number
fn emit_consts(src: &SrcFile, ty: &str, extra: &[&str], opts: &Opts, meta: &mut Meta) -> String {
    let mut out = String::new();
    let mut names: Vec<String> = vec![];
    for it in src.file.items.iter() {
        if let Item::Impl(im) = it {
            if im.trait_.is_none() && ty_name(&im.self_ty) == ty {
                for x in im.items.iter() {
                    if let ImplItem::Const(c) = x {
                        let mut c = c.clone();
                        let mut xf = Xf::new(opts);
                        xf.visit_impl_item_const_mut(&mut c);
                        c.vis = parse_quote!(pub);
                        names.push(c.ident.to_string());
                        out.push_str(&printer::print(c.to_token_stream(), &[]));
                    }
                }
            }
        }
    }
    if out.is_empty() {
        lost(&format!("constants of {} in {}", ty, src.path));
    }
    let _ = meta;
    if extra.contains(&"distinct") {
        out.push_str("pub proof fn symbol_numbers_are_distinct()\n  ensures\n");
        for i in 0..names.len() {
            for j in i + 1..names.len() {
                out.push_str(&format!("    Self::{} != Self::{},\n", names[i], names[j]));
            }
        }
        out.push_str("{}\n");
    }
    if extra.contains(&"named") {
        out.push_str("pub open spec fn symbols_named(t: Seq<&'static str>) -> bool {\n");
        for n in &names {
            out.push_str(&format!("  &&& Self::{n} < t.len() && t[Self::{n} as int]@ == \"{n}\"@\n"));
        }
        out.push_str("}\n");
    }
    out
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() == 3 && args[1] == "--dict" {
        print!("{}", dict::dict(&args[2]));
        return;
    }
    if args.len() == 3 && args[1] == "--shape" {
        print!("{}", shape::shape(&args[2]));
        return;
    }
    if args.len() < 4 {
        eprintln!("usage: vx UNIT OUT META [--repo DIR] [--canary] [--role f.x=y]");
        std::process::exit(2);
    }
    let mut repo = "/repo".to_string();
    let mut canary = false;
    let mut roles = BTreeMap::new();
    let mut i = 4;
    while i < args.len() {
        match args[i].as_str() {
            "--repo" => {
                repo = args[i + 1].clone();
                i += 1;
            }
            "--canary" => canary = true,
            "--role" => {
                let (a, b) = args[i + 1].split_once('=').unwrap();
                roles.insert(a.to_string(), b.to_string());
                i += 1;
            }
            _ => {}
        }
        i += 1;
    }
    shape::read_base(&std::path::Path::new(&args[1]).with_file_name("shape.txt"));
    for p in dict::rust_files(&repo) {
        if let Some(f) = shape::parse(&repo, &p) {
            pre::returns(&f);
            iter::KINDS.with(|k| for it in &f.items { if let syn::Item::Struct(s) = it { syn::visit::Visit::visit_item_struct(&mut iter::Kinds(&mut k.borrow_mut()), s) } });
        }
    }
    load_others(&repo);
    let udir = std::path::Path::new(&args[1]).parent().unwrap().to_path_buf();
    let mut vars: BTreeMap<String, String> = BTreeMap::new();
    let unit = read_unit(&args[1], &udir, &mut vars);
    let mut meta = Meta { fns: vec![], notes: BTreeSet::new(), warnings: vec![] };
    let mut out = String::new();
    let mut opts = Opts::default();
    let mut src: Option<SrcFile> = None;
    // functions under contract: never inlined
    let mut known: BTreeSet<String> = BTreeSet::new();
    for l in unit.iter() {
        if let Some(r) = l.strip_prefix("@fn ") {
            for p in r.split(" as ").next().unwrap().split(" ?? ") {
                known.insert(p.trim().rsplit("::").next().unwrap().to_string());
            }
        }
        if l.starts_with("@rename ") || l.starts_with("@method ") || l.starts_with("@specstr ") {
            for w in l.split_whitespace().skip(1) {
                known.insert(w.rsplit("::").next().unwrap().to_string());
            }
        }
        if !l.starts_with('@') {
            let mut it = l.split_whitespace().peekable();
            while let Some(w) = it.next() {
                if w == "fn" {
                    if let Some(n) = it.peek() {
                        let n: String = n.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
                        opts.specs.insert(n.clone());
                        known.insert(n);
                    }
                }
            }
        }
        if let Some(r) = l.strip_prefix("@known ") {
            for w in r.split_whitespace() {
                known.insert(w.to_string());
            }
        }
    }
    let mut k = 0;
    while k < unit.len() {
        let l = unit[k].clone();
        k += 1;
        if !l.starts_with('@') {
            out.push_str(&l);
            out.push('\n');
            continue;
        }
        let w: Vec<&str> = l.split_whitespace().collect();
        match w[0] {
            "@source" => src = Some(load(&repo, w[1])),
            "@opt" => {
                for f in &w[1..] {
                    if let Some(f) = f.strip_prefix('-') {
                        opts.flags.remove(f);
                    } else {
                        opts.flags.insert(f.to_string());
                    }
                }
            }
            "@rename" => {
                opts.renames.insert(w[1].into(), w[2].into());
            }
            "@method" => {
                if w.len() < 3 {
                    opts.methods.remove(w[1]);
                } else {
                    opts.methods.insert(w[1].into(), w[2..].join(" "));
                }
            }
            "@known" => {}
            "@item" => out.push_str(&emit_item(src.as_ref().unwrap(), w[1], w[2], w.get(3).and_then(|x| x.strip_prefix("derive=")), &opts, &mut meta)),
            "@specstr" => {
                // @specstr PATH as NAME: the value of a string function as a spec function over characters
                let path = w[1];
                let f = find_fn(src.as_ref().unwrap(), path);
                let mut b = f.block.clone().unwrap_or_else(|| lost(&format!("function {} has no body", path)));
                let mut sp = xform::SpecStr(true);
                sp.visit_block_mut(&mut b);
                if !sp.0 || f.sig.inputs.len() != 1 {
                    lost(&format!("function {} is not a chain of replacements", path));
                }
                let p = match &f.sig.inputs[0] {
                    FnArg::Typed(t) => t.pat.to_token_stream(),
                    _ => lost(path),
                };
                let n = format_ident!("{}", w[3]);
                let st = &b.stmts;
                out.push_str(&printer::print(quote!(pub open spec fn #n(#p: Seq<char>) -> Seq<char> { #(#st)* }), &[]));
                meta.notes.insert(format!("{} also read as a specification function (replace = leftmost non-overlapping replacement)", path));
            }
            "@consts" => out.push_str(&emit_consts(src.as_ref().unwrap(), w[1], &w[2..], &opts, &mut meta)),
            "@fn" => {
                let mut a = FnAnn { path: l[4..].split(" as ").next().unwrap().trim().to_string(), line: k, ..Default::default() };
                if let Some((_, n)) = l.split_once(" as ") {
                    a.newname = Some(n.trim().to_string());
                }
                let mut cur: Option<(String, usize)> = None;
                let mut buf = String::new();
                loop {
                    let l = if k < unit.len() { unit[k].clone() } else { lost("missing @endfn") };
                    k += 1;
                    if l.trim_start().starts_with('@') {
                        if let Some((kind, n)) = cur.take() {
                            let t = std::mem::take(&mut buf);
                            match kind.as_str() {
                                "contract" => a.contract.push_str(&t),
                                "loop" => {
                                    a.loops.insert(n, t);
                                }
                                "attr" => a.attrs.push_str(&t),
                                _ => a.places.push((kind, n, t)),
                            }
                        }
                        let l = l.trim();
                        let w: Vec<&str> = l.split_whitespace().collect();
                        match w[0] {
                            "@endfn" => break,
                            "@ret" => a.ret = Some(w[1].to_string()),
                            "@pub" => a.vis = true,
                            "@selfty" => a.selfty = Some(l["@selfty".len()..].trim().to_string()),
                            "@generics" => a.generics = Some(l["@generics".len()..].trim().to_string()),
                            _ => {
                                let n = w.get(1).and_then(|x| x.parse().ok()).unwrap_or(0);
                                cur = Some((w[0][1..].to_string(), n));
                            }
                        }
                    } else {
                        buf.push_str(&l);
                        buf.push('\n');
                    }
                }
                let _ = (a.sig_only, a.line);
                let mut other = None;
                if let Some((own, rest)) = a.path.clone().split_once(" ?? ") {
                    // OWN ?? FILE DEFAULT
                    if has_fn(src.as_ref().unwrap(), own) {
                        a.path = own.to_string();
                    } else {
                        let (file, d) = rest.split_once(' ').unwrap();
                        other = Some(load(&repo, file));
                        a.path = d.to_string();
                    }
                }
                out.push_str(&emit_fn(other.as_ref().or(src.as_ref()).unwrap(), &a, &opts, &known, &roles, canary, &mut meta));
            }
            _ => lost(&format!("unit directive {}", l)),
        }
    }
    let words: BTreeSet<&str> = out.split(|c: char| !c.is_alphanumeric() && c != '_').collect();
    let more = std::fs::read_to_string(udir.join("more.vxi")).unwrap_or_default();
    let mut extra = String::new();
    for sec in more.split("//@when ").skip(1) {
        let (when, text) = sec.split_once('\n').unwrap();
        if when.split_whitespace().any(|w| w.split('+').all(|x| words.contains(x))) {
            extra.push_str(text);
        }
    }
    out.push_str(&extra);
    std::fs::write(&args[2], out).unwrap();
    shape::DONE.with(|d| {
        for n in d.borrow().iter() {
            meta.notes.insert(n.clone());
            meta.warnings.push(n.clone());
        }
    });
    let m = format!(
        "{{\"functions\":[{}],\n\"notes\":[{}],\n\"warnings\":[{}]}}\n",
        meta.fns.join(",\n"),
        meta.notes.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","),
        meta.warnings.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",")
    );
    std::fs::write(&args[3], m).unwrap();
}

fn read_unit(path: &str, dir: &std::path::Path, vars: &mut BTreeMap<String, String>) -> Vec<String> {
    let text = match std::fs::read_to_string(path) {
        Ok(t) => t,
        Err(e) => lost(&format!("unit {}: {}", path, e)),
    };
    let mut v = vec![];
    let mut skip = 0;
    for l in text.lines() {
        let mut l = l.to_string();
        for (k, x) in vars.iter() {
            l = l.replace(&format!("%{}%", k), x);
        }
        // @if A == B ... @fi
        if let Some(r) = l.strip_prefix("@if ") {
            let w: Vec<&str> = r.split_whitespace().collect();
            let holds = (w[0] == w[2]) == (w[1] == "==");
            if skip > 0 || !holds {
                skip += 1;
            }
            continue;
        }
        if l.starts_with("@fi") {
            skip = if skip > 0 { skip - 1 } else { 0 };
            continue;
        }
        if skip > 0 {
            continue;
        }
        if let Some(r) = l.strip_prefix("@include ") {
            v.extend(read_unit(dir.join(r.trim()).to_str().unwrap(), dir, vars));
        } else if let Some(r) = l.strip_prefix("@set ") {
            let (a, b) = r.trim().split_once(' ').unwrap();
            vars.insert(a.to_string(), b.trim().to_string());
        } else {
            v.push(l);
        }
    }
    v
}
