//! Source-to-source rules applied to every extracted item.  Each rule is
//! semantics-preserving up to what DESIGN.md ("What the extraction drops") lists.
use proc_macro2::{Ident, Span, TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Default, Clone)]
pub struct Opts {
    pub flags: BTreeSet<String>,
    pub renames: BTreeMap<String, String>,
    pub methods: BTreeMap<String, String>,
    /// names of the functions written in the unit
    pub specs: BTreeSet<String>,
}

pub struct Xf<'a> {
    pub o: &'a Opts,
    pub notes: BTreeSet<String>,
    pub tmp: usize,
    pub weak: BTreeSet<String>,
}

fn lower(s: &str) -> bool {
    s.chars().next().map_or(false, |c| c.is_lowercase() || c == '_')
}

impl<'a> Xf<'a> {
    pub fn new(o: &'a Opts) -> Self {
        Xf { o, notes: BTreeSet::new(), tmp: 0, weak: BTreeSet::new() }
    }
    fn note(&mut self, s: &str) {
        self.notes.insert(s.to_string());
    }
    fn flag(&self, s: &str) -> bool {
        self.o.flags.contains(s)
    }

    fn is_dyn_any(t: &Type) -> bool {
        if let Type::TraitObject(t) = t {
            t.bounds.iter().any(|b| {
                if let TypeParamBound::Trait(t) = b {
                    t.path.segments.last().map_or(false, |s| s.ident == "Any")
                } else {
                    false
                }
            })
        } else {
            false
        }
    }
    fn dyn_name(t: &Type) -> Option<String> {
        if let Type::TraitObject(t) = t {
            for b in t.bounds.iter() {
                if let TypeParamBound::Trait(t) = b {
                    return t.path.segments.last().map(|s| s.ident.to_string());
                }
            }
        }
        None
    }

    fn flatten(&mut self, p: &mut Path) {
        if p.segments.len() < 2 {
            return;
        }
        let first = p.segments[0].ident.to_string();
        let second = p.segments[1].ident.to_string();
        let fs = first == "std" && ["fs", "io"].contains(&second.as_str());
        if !fs && ["std", "core", "alloc", "vstd", "Self"].contains(&first.as_str()) || !lower(&first) {
            return;
        }
        let local = ["crate", "super", "self"].contains(&first.as_str());
        let segs: Vec<PathSegment> = p.segments.iter().cloned().collect();
        let mut k = 0;
        while k + 1 < segs.len() && lower(&segs[k].ident.to_string()) {
            k += 1;
        }
        let mut out: Vec<PathSegment> = segs[k..].to_vec();
        if out.len() == 1 && lower(&out[0].ident.to_string()) && !local {
            // external function: keep the crate name in it
            let n = segs.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("_");
            out[0].ident = Ident::new(&n, Span::call_site());
        }
        self.note("module paths flattened");
        p.leading_colon = None;
        p.segments = out.into_iter().collect();
    }
}

/// spec-level reading of a string expression built from replace() and conversions
pub struct SpecStr(pub bool);
impl VisitMut for SpecStr {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let rep: Option<Expr> = match e {
            Expr::MethodCall(m) => {
                let r = &m.receiver;
                match (m.method.to_string().as_str(), m.args.len()) {
                    ("replace", 2) => {
                        let a = &m.args[0];
                        let b = &m.args[1];
                        Some(parse_quote!(repl(#r, #a, #b)))
                    }
                    ("to_string" | "to_owned" | "as_str" | "clone" | "into", 0) => Some((**r).clone()),
                    _ => {
                        self.0 = false;
                        None
                    }
                }
            }
            Expr::Call(c) if matches!(&*c.func, Expr::Path(p) if p.path.segments.len() == 2 && p.path.segments[0].ident == "String" && p.path.segments[1].ident == "from") => Some(c.args[0].clone()),
            Expr::Lit(l) => match &l.lit {
                Lit::Str(s) => {
                    let cs: Vec<Expr> = s.value().chars().map(|c| { let l = LitChar::new(c, Span::call_site()); parse_quote!(#l) }).collect();
                    Some(parse_quote!(seq![#(#cs),*]))
                }
                Lit::Char(c) => Some(parse_quote!(seq![#c])),
                _ => None,
            },
            Expr::Reference(r) => Some((*r.expr).clone()),
            Expr::Return(r) => r.expr.as_ref().map(|x| (**x).clone()),
            Expr::Path(_) | Expr::Block(_) | Expr::Paren(_) => None,
            _ => {
                if !matches!(e, Expr::Call(_) | Expr::Array(_) | Expr::Macro(_)) {
                    self.0 = false;
                }
                None
            }
        };
        if let Some(r) = rep {
            *e = r;
        }
    }
}

pub fn macro_args(ts: TokenStream) -> Vec<TokenStream> {
    let mut out = vec![];
    let mut cur: Vec<TokenTree> = vec![];
    for t in ts {
        if let TokenTree::Punct(p) = &t {
            if p.as_char() == ',' {
                out.push(cur.drain(..).collect());
                continue;
            }
        }
        cur.push(t);
    }
    if !cur.is_empty() {
        out.push(cur.into_iter().collect());
    }
    out
}

/// split a format string with only plain `{}` / `{:?}` / `{name}` holes
pub fn fmt_pieces(s: &str) -> Option<Vec<std::result::Result<String, String>>> {
    let mut out = vec![];
    let mut lit = String::new();
    let cs: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        if cs[i] == '{' {
            if i + 1 < cs.len() && cs[i + 1] == '{' {
                lit.push('{');
                i += 2;
                continue;
            }
            let j = (i..cs.len()).find(|j| cs[*j] == '}')?;
            let hole: String = cs[i + 1..j].iter().collect();
            out.push(Ok(std::mem::take(&mut lit)));
            out.push(Err(hole));
            i = j + 1;
            continue;
        }
        if cs[i] == '}' {
            if i + 1 < cs.len() && cs[i + 1] == '}' {
                lit.push('}');
                i += 2;
                continue;
            }
            return None;
        }
        lit.push(cs[i]);
        i += 1;
    }
    out.push(Ok(lit));
    Some(out)
}

impl<'a> Xf<'a> {
    fn fmt_expr(&mut self, mac: &Macro) -> Option<Expr> {
        let args = macro_args(mac.tokens.clone());
        let lit: LitStr = parse2(args.first()?.clone()).ok()?;
        let pieces = fmt_pieces(&lit.value())?;
        let mut acc: TokenStream = quote!(vx_fmt_new());
        let mut k = 1;
        for p in pieces {
            match p {
                Ok(s) => {
                    if !s.is_empty() {
                        acc = quote!(vx_fmt_lit(#acc, #s));
                    }
                }
                Err(h) => {
                    let a: TokenStream = if h.is_empty() {
                        let a = args.get(k)?.clone();
                        k += 1;
                        a
                    } else if h.starts_with(':') {
                        return None;
                    } else {
                        let id = format_ident!("{}", h);
                        quote!(#id)
                    };
                    acc = quote!(vx_fmt_arg(#acc, &(#a)));
                }
            }
        }
        self.note("format!(..) expanded to concatenation of its literal pieces and Display of its arguments");
        parse2(acc).ok()
    }
}

fn hoist(e: &mut Expr, id: &Ident, peeled: bool) -> Option<Expr> {
    match e {
        Expr::MethodCall(m) if ["iter", "rev"].contains(&m.method.to_string().as_str()) && m.args.is_empty() => return hoist(&mut m.receiver, id, true),
        Expr::Reference(r) if r.mutability.is_none() && !peeled => return hoist(&mut r.expr, id, true),
        Expr::Paren(p) => return hoist(&mut p.expr, id, peeled),
        Expr::Call(_) | Expr::MethodCall(_) if peeled => {}
        _ => return None,
    }
    let val = e.clone();
    *e = parse_quote!(#id);
    Some(val)
}

/// |c| .. as a pattern: c is a character
fn char_arg(e: &mut Expr) {
    if let Expr::Closure(c) = e {
        if c.inputs.len() == 1 && !matches!(c.inputs[0], Pat::Type(_)) {
            let p = c.inputs[0].clone();
            c.inputs[0] = Pat::Type(PatType { attrs: vec![], pat: Box::new(p), colon_token: Default::default(), ty: Box::new(parse_quote!(char)) });
        }
    }
}
impl<'a> Xf<'a> {
    /// string functions the unchanged code does not use (units/more.vxi)
    fn more(&mut self, m: &mut ExprMethodCall) -> Option<String> {
        let r = self.more_name(m);
        if r.is_some() {
            for a in m.args.iter_mut() {
                char_arg(a);
            }
        }
        r
    }
    fn more_name(&mut self, m: &ExprMethodCall) -> Option<String> {
        let name = m.method.to_string();
        let text = |e: &Expr| match e {
            Expr::Lit(l) => matches!(l.lit, Lit::Str(_) | Lit::Char(_)),
            Expr::Reference(r) => matches!(&*r.expr, Expr::Macro(m) if m.mac.path.is_ident("format")),
            _ => false,
        };
        let munge = match (name.as_str(), m.args.len()) {
            ("trim" | "trim_start" | "trim_end" | "to_lowercase" | "to_uppercase" | "to_ascii_lowercase" | "to_ascii_uppercase", 0) => true,
            ("trim_matches" | "trim_start_matches" | "trim_end_matches", 1) => true,
            ("replacen", 3) => true,
            _ => false,
        };
        if munge {
            self.note("a string function whose result is left uninterpreted");
            return Some(format!("vxm_{}", name));
        }
        let n = match (name.as_str(), m.args.len()) {
            ("starts_with" | "ends_with" | "strip_prefix" | "strip_suffix" | "rfind", 1) => Some(if matches!(m.args[0], Expr::Closure(_) | Expr::Array(_)) { format!("vxm_{}_fn", name) } else { format!("vxm_{}", name) }),
            ("contains" | "find", 1) if text(&m.args[0]) => Some(format!("vxm_{}", name)),
            ("replace", 2) if matches!(m.args[0], Expr::Closure(_) | Expr::Array(_)) => Some("vxm_replace_fn".to_string()),
            ("eq_ignore_ascii_case", 1) => Some(format!("vxm_{}", name)),
            ("repeat", 1) if text(&m.receiver) => Some("vxm_repeat".to_string()),
            ("is", 0) if self.flag("anybox") => Some("vxm_is".to_string()),
            ("take", 1) if self.o.flags.contains("jsonidx") => {
                self.note("reading only a part of the text is left uninterpreted");
                return Some("vxm_read_take".into());
            }
            _ => None,
        };
        if n.is_some() {
            self.weak.insert(name);
        }
        n
    }
}
impl<'a> VisitMut for Xf<'a> {
    fn visit_attributes_mut(&mut self, attrs: &mut Vec<Attribute>) {
        attrs.retain(|a| a.path().is_ident("derive"));
    }
    fn visit_ident_mut(&mut self, i: &mut Ident) {
        if let Some(n) = self.o.renames.get(&i.to_string()) {
            *i = Ident::new(n, Span::call_site());
        }
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        // serde_json::from_str::<Value>: the parameter is what the assumed function returns anyway
        if p.segments.len() == 2 && p.segments[0].ident == "serde_json" {
            if let PathArguments::AngleBracketed(a) = &p.segments[1].arguments {
                if a.args.len() == 1 && a.args.to_token_stream().to_string().ends_with("Value") {
                    p.segments[1].arguments = PathArguments::None;
                }
            }
        }
        self.flatten(p);
        visit_mut::visit_path_mut(self, p);
    }
    fn visit_type_mut(&mut self, t: &mut Type) {
        if self.flag("anybox") {
            // Box<dyn Any> -> AnyBox ; dyn Any -> AnyBox
            let mut hit = false;
            if let Type::Path(p) = t {
                if let Some(s) = p.path.segments.last() {
                    if s.ident == "Box" {
                        if let PathArguments::AngleBracketed(a) = &s.arguments {
                            if let Some(GenericArgument::Type(x)) = a.args.first() {
                                hit = Self::is_dyn_any(x);
                            }
                        }
                    }
                }
            } else if Self::is_dyn_any(t) {
                hit = true;
            }
            if hit {
                self.note("Box<dyn Any> / dyn Any modelled by an opaque box type");
                *t = parse_quote!(AnyBox);
                return;
            }
        }
        if self.flag("ctxplain") {
            if let Type::Reference(r) = t {
                if Self::dyn_name(&r.elem).map_or(false, |n| n.ends_with("Context")) {
                    self.note("&dyn XContext written as &RuleContext (RuleContext is the only implementation)");
                    r.elem = parse_quote!(RuleContext);
                    return;
                }
            }
        }
        if self.flag("ctxref") {
            let mut name = None;
            if let Type::Reference(r) = t {
                if let Some(n) = Self::dyn_name(&r.elem) {
                    if n.ends_with("Context") {
                        name = Some(n);
                    }
                }
            } else if let Type::Path(p) = t {
                if let Some(s) = p.path.segments.last() {
                    if s.ident == "Box" {
                        if let PathArguments::AngleBracketed(a) = &s.arguments {
                            if let Some(GenericArgument::Type(x)) = a.args.first() {
                                if let Some(n) = Self::dyn_name(x) {
                                    if n.ends_with("Context") {
                                        name = Some(format!("{}Box", n));
                                    }
                                }
                            }
                        }
                    }
                }
            }
            if let Some(n) = name {
                let id = if n.ends_with("Box") { format_ident!("{}", n) } else { format_ident!("{}Ref", n) };
                self.note("&dyn XContext replaced by a reference wrapper per context trait (RuleContext is the only implementation)");
                *t = if n.ends_with("Box") { parse_quote!(#id) } else { parse_quote!(#id<'_>) };
                return;
            }
        }
        if self.flag("dynimpl") {
            // &mut dyn Trait -> &mut VxDyn (generic parameter supplied by the unit)
            if let Type::Reference(r) = t {
                if let Some(n) = Self::dyn_name(&r.elem) {
                    if !n.ends_with("Context") && n != "Any" {
                        let id = format_ident!("Vx{}", n);
                        self.note("&mut dyn Trait replaced by a generic parameter");
                        r.elem = Box::new(parse_quote!(#id));
                        return;
                    }
                }
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let mut rep: Option<Expr> = None;
        match e {
            Expr::Macro(m) => {
                let n = m.mac.path.segments.last().unwrap().ident.to_string();
                if ["println", "print", "eprintln", "eprint"].contains(&n.as_str()) {
                    let args = macro_args(m.mac.tokens.clone());
                    let mut ss = vec![];
                    for a in args.iter().skip(1) {
                        if let Ok(mut x) = parse2::<Expr>(a.clone()) {
                            self.visit_expr_mut(&mut x);
                            ss.push(quote!(let _ = & (#x);));
                        }
                    }
                    self.note("console output dropped (its arguments are still evaluated)");
                    rep = Some(parse_quote!({ #(#ss)* }));
                } else if n == "format" && self.flag("fmt") {
                    rep = self.fmt_expr(&m.mac);
                    if let Some(r) = rep.as_mut() {
                        self.visit_expr_mut(r);
                    }
                } else if ["todo", "unimplemented", "panic", "unreachable"].contains(&n.as_str()) {
                    rep = Some(if self.flag("halts") { parse_quote!(vx_halt()) } else { parse_quote!(vx_panic()) });
                } else if ["assert", "debug_assert"].contains(&n.as_str()) {
                    if let Some(mut c) = macro_args(m.mac.tokens.clone()).into_iter().next().and_then(|a| parse2::<Expr>(a).ok()) {
                        self.visit_expr_mut(&mut c);
                        let h = if self.flag("halts") { format_ident!("vx_halt") } else { format_ident!("vx_panic") };
                        self.note("assert!(c) written as if !c { panic }");
                        rep = Some(parse_quote!({ if !(#c) { #h() } }));
                    }
                }
            }
            Expr::ForLoop(f) if self.flag("own") => {
                let ex = match &*f.expr {
                    Expr::Path(p) if p.path.get_ident().is_some() => Some(f.expr.clone()),
                    Expr::MethodCall(m) if m.method == "into_iter" && matches!(&*m.receiver, Expr::Path(_)) => Some(m.receiver.clone()),
                    _ => None,
                };
                if let Some(ex) = ex {
                    *f.expr = parse_quote!(vx_own(#ex));
                    self.note("`for x in set` (by value) goes through an assumed conversion to a sequence of its elements");
                }
            }
            Expr::While(w) => {
                if let Expr::Let(l) = &*w.cond {
                    let (pat, ex, body) = (&l.pat, &l.expr, &w.body);
                    let lab = &w.label;
                    rep = Some(parse_quote!(#lab loop { if let #pat = #ex #body else { break; } }));
                    self.note("while let rewritten as loop { if let .. else break }");
                }
            }
            Expr::Call(c) if matches!(&*c.func, Expr::Path(p) if p.path.segments.len() == 2 && p.path.segments[0].ident == "String" && p.path.segments[1].ident == "from") => {
                *c.func = parse_quote!(vx_string_from);
            }
            Expr::Call(c) if self.flag("anybox") => {
                if let Expr::Path(p) = &mut *c.func {
                    let s: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    if s == ["Box", "new"] {
                        *c.func = parse_quote!(AnyBox::new);
                    }
                }
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                if self.flag("halts") && (name == "unwrap" && m.args.is_empty() || name == "expect" && m.args.len() == 1) {
                    self.note("unwrap of nothing stops the program: what is proved holds whenever the function returns");
                    let r = &m.receiver;
                    rep = Some(parse_quote!(vx_unwrap_or_halt(#r)));
                }
                if self.flag("ctxarg") && m.args.len() == 1 && name.starts_with("visit_") && !["visit_terminal", "visit_errornode", "visit_children"].contains(&name.as_str()) {
                    let camel: String = name[6..].split('_').map(|w| w[..1].to_uppercase() + &w[1..]).collect();
                    let id = format_ident!("{}ContextRef", camel);
                    let a = &m.args[0];
                    self.note("the argument of a visitor hook is wrapped as a reference of the hook's context trait (an implicit coercion in the source)");
                    let w: Expr = parse_quote!(#id((#a).vx_ctx()));
                    m.args[0] = w;
                }
                if name == "collect" && m.args.is_empty() {
                    if let Expr::MethodCall(inner) = &*m.receiver {
                        let r = &inner.receiver;
                        if inner.method == "lines" && inner.args.is_empty() {
                            self.weak.insert("lines".into());
                            rep = Some(parse_quote!(#r.vxm_lines()));
                        }
                        if inner.method == "split" && inner.args.len() == 1 && matches!(inner.args[0], Expr::Closure(_) | Expr::Array(_)) {
                            let mut a = inner.args[0].clone();
                            char_arg(&mut a);
                            self.weak.insert("split".into());
                            rep = Some(parse_quote!(#r.vxm_split_fn(#a)));
                        }
                        if rep.is_none() && inner.method == "split" && inner.args.len() == 1 && self.flag("str") {
                            let r = &inner.receiver;
                            let a = &inner.args[0];
                            self.note("s.split(p).collect() replaced by an assumed split function");
                            rep = Some(parse_quote!(vx_split((#r).vx_str(), #a)));
                        }
                    }
                }
                if name == "collect" && m.args.is_empty() && rep.is_none() {
                    if let Expr::MethodCall(mp) = &*m.receiver {
                        if mp.method == "map" && mp.args.len() == 1 {
                            if let Expr::Closure(c) = &mp.args[0] {
                                if c.inputs.len() == 1 {
                                    let (pat, body, it) = (&c.inputs[0], &c.body, &mp.receiver);
                                    self.note("xs.map(|x| e).collect() written as a loop pushing e");
                                    rep = Some(parse_quote!({ let mut vx_v = Vec::new(); for #pat in #it { vx_v.push(#body); } vx_v }));
                                }
                            }
                        }
                    }
                }
                if rep.is_none() && !self.o.methods.contains_key(&name) {
                    if let Some(n) = self.more(m) {
                        m.method = Ident::new(&n, Span::call_site());
                    }
                    if m.method == "count" && m.args.is_empty() {
                        if let Expr::MethodCall(c) = &*m.receiver {
                            if c.method == "chars" && c.args.is_empty() {
                                let r = &c.receiver;
                                rep = Some(parse_quote!(#r.vxm_char_count()));
                            }
                        }
                    }
                }
                if rep.is_none() {
                    if let Some(n) = self.o.methods.get(&name) {
                        let (n, extra) = n.split_once(' ').unwrap_or((n, ""));
                        m.method = Ident::new(n, Span::call_site());
                        if !extra.is_empty() {
                            m.args.push(parse_str(extra).unwrap());
                        }
                    }
                }
            }
            Expr::Index(ix) if self.flag("halts") && !matches!(&*ix.index, Expr::Range(_)) => {
                let (b, k) = (&ix.expr, &ix.index);
                self.note("an index out of range stops the program: what is proved holds whenever the function returns");
                rep = Some(parse_quote!((*vx_at_or_halt(&(#b), #k))));
            }
            Expr::Index(ix) if self.flag("vecslice") && matches!(&*ix.index, Expr::Range(_)) => {
                if let Expr::Range(r) = &*ix.index {
                    let b = &ix.expr;
                    if let (Some(st), None) = (&r.start, &r.end) {
                        rep = Some(parse_quote!(*vx_from(&#b, #st)));
                        self.note("v[a..] written as a call of a verified sub-slice function (same panic condition)");
                    }
                }
            }
            Expr::Binary(b) if self.flag("stradd") && matches!(b.op, BinOp::AddAssign(_)) => {
                let (l, r) = (&b.left, &b.right);
                rep = Some(parse_quote!(vx_append(&mut #l, (#r).vx_str())));
                self.note("string += string written as a call of an assumed append function");
            }
            Expr::Index(ix) if self.flag("jsonidx") && matches!(&*ix.index, Expr::Lit(l) if matches!(l.lit, Lit::Str(_))) => {
                let (b, k) = (&ix.expr, &ix.index);
                rep = Some(parse_quote!((*(#b).vx_at(#k))));
                self.note("value[\"key\"] written as a call of the assumed index function of serde_json::Value");
            }
            Expr::Index(ix) if self.flag("str") => {
                if let Expr::Range(r) = &*ix.index {
                    let b = &ix.expr;
                    let s: Expr = match &r.start {
                        Some(s) => (**s).clone(),
                        None => parse_quote!(0),
                    };
                    rep = match (&r.end, &r.limits) {
                        (None, _) => Some(parse_quote!(*vx_slice_from((#b).vx_str(), #s))),
                        (Some(en), RangeLimits::HalfOpen(_)) => Some(parse_quote!(*vx_slice((#b).vx_str(), #s, #en))),
                        _ => None,
                    };
                    if rep.is_some() {
                        self.note("string slicing s[a..b] replaced by an assumed slice function (panic condition is its precondition)");
                    }
                }
            }
            Expr::Cast(c) if self.flag("ctxplain") && matches!(&*c.ty, Type::Reference(r) if matches!(&*r.elem, Type::Path(p) if p.path.is_ident("RuleContext"))) => {
                let inner = &c.expr;
                rep = Some(parse_quote!((#inner)));
            }
            Expr::Cast(c) if self.flag("ctxref") => {
                if let Type::Path(p) = &*c.ty {
                    let s = p.path.segments.last().unwrap().ident.to_string();
                    if s.ends_with("ContextRef") {
                        let id = format_ident!("{}", s);
                        let inner = &c.expr;
                        rep = Some(parse_quote!(#id(#inner)));
                    }
                }
            }
            Expr::Reference(r) => {
                // & *f(..) produced by the slice rule
                if r.mutability.is_none() {
                    if let Expr::Unary(u) = &*r.expr {
                        if let (UnOp::Deref(_), Expr::Call(c)) = (&u.op, &*u.expr) {
                            if let Expr::Path(p) = &*c.func {
                                if p.path.segments.last().unwrap().ident.to_string().starts_with("vx_slice") || p.path.is_ident("vx_from") {
                                    rep = Some((*u.expr).clone());
                                }
                            }
                        }
                    }
                }
            }
            _ => {}
        }
        if let Some(r) = rep {
            *e = r;
        }
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        // for x in f(..).iter() { .. }   ->   let tmp = f(..); for x in tmp.iter() { .. }
        let old = std::mem::take(&mut b.stmts);
        for mut s in old {
            if let Stmt::Expr(Expr::ForLoop(f), _) = &mut s {
                let id = format_ident!("vx_tmp{}", self.tmp);
                if let Some(val) = hoist(&mut f.expr, &id, false) {
                    self.tmp += 1;
                    b.stmts.push(parse_quote!(let #id = #val;));
                    self.notes.insert("temporary in a for header bound to a name (dropped later, same value)".into());
                }
            }
            b.stmts.push(s);
        }
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        // macro statements become expression statements so the rules above apply
        if let Stmt::Macro(m) = s {
            let e = Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac.clone() });
            *s = Stmt::Expr(e, m.semi_token);
            if let Stmt::Expr(_, semi) = s {
                if semi.is_none() {
                    // `println!(..)` in tail position has type ()
                }
            }
        }
        visit_mut::visit_stmt_mut(self, s);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        // vec![..], matches!(..): transform the arguments as expressions where possible
        let n = m.path.segments.last().unwrap().ident.to_string();
        if n == "vec" {
            let args = macro_args(m.tokens.clone());
            let mut outs = vec![];
            for a in args {
                if let Ok(mut x) = parse2::<Expr>(a.clone()) {
                    self.visit_expr_mut(&mut x);
                    outs.push(x.into_token_stream());
                } else {
                    return;
                }
            }
            m.tokens = quote!(#(#outs),*);
        }
    }
}
