//! Iterator chains and loop forms outside the verifier's subset, written as the plain loops they
//! stand for.  Every rule is an equation of the standard library (adapters are lazy and evaluated
//! item by item in order), so the loop computes the same value in the same order of evaluation.
use quote::{format_ident, ToTokens};
use std::collections::BTreeSet;
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;

// the collection kind of a name (field or local): "Vec", "Set", or "?" when declared in two ways
thread_local! {
    pub static KINDS: std::cell::RefCell<std::collections::BTreeMap<String, String>> = Default::default();
}
pub struct Kinds<'a>(pub &'a mut std::collections::BTreeMap<String, String>);
pub fn kind_of_ty(t: &Type) -> &'static str {
    match t {
        Type::Path(p) => match p.path.segments.last().unwrap().ident.to_string().as_str() {
            "Vec" => "Vec",
            "HashSet" | "BTreeSet" => "Set",
            "HashMap" | "BTreeMap" => "Map",
            _ => "",
        },
        Type::Reference(r) => kind_of_ty(&r.elem),
        _ => "",
    }
}
impl<'a> Kinds<'a> {
    fn add(&mut self, n: String, k: &str) {
        if k.is_empty() {
            return;
        }
        let e = self.0.entry(n).or_insert_with(|| k.to_string());
        if e != k {
            *e = "?".into();
        }
    }
}
impl<'a, 'b> Visit<'b> for Kinds<'a> {
    fn visit_field(&mut self, f: &'b Field) {
        if let Some(i) = &f.ident {
            self.add(i.to_string(), kind_of_ty(&f.ty));
        }
    }
    fn visit_pat_type(&mut self, p: &'b PatType) {
        if let Pat::Ident(i) = &*p.pat {
            self.add(i.ident.to_string(), kind_of_ty(&p.ty));
        }
        visit::visit_pat_type(self, p);
    }
    fn visit_local(&mut self, l: &'b Local) {
        if let (Pat::Ident(i), Some(x)) = (&l.pat, &l.init) {
            let k = match &*x.expr {
                Expr::Macro(m) if m.mac.path.is_ident("vec") => "Vec",
                Expr::Call(c) => match &*c.func {
                    Expr::Path(p) if p.path.segments.len() >= 2 => match p.path.segments[p.path.segments.len() - 2].ident.to_string().as_str() {
                        "Vec" => "Vec",
                        "HashSet" | "BTreeSet" => "Set",
                        "HashMap" | "BTreeMap" => "Map",
                        _ => "",
                    },
                    _ => "",
                },
                _ => "",
            };
            self.add(i.ident.to_string(), k);
        }
        visit::visit_local(self, l);
    }
}
pub fn kind_of(e: &Expr) -> String {
    let n = match e {
        Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
        Expr::Field(f) => match &f.member {
            Member::Named(i) => Some(i.to_string()),
            _ => None,
        },
        Expr::Paren(p) => return kind_of(&p.expr),
        _ => None,
    };
    n.and_then(|n| KINDS.with(|k| k.borrow().get(&n).cloned())).unwrap_or_default()
}

#[derive(Default)]
pub struct Norm {
    pub done: BTreeSet<String>,
    name: Option<Ident>,
    n: usize,
}

const ADAPT: [&str; 6] = ["filter", "map", "filter_map", "cloned", "copied", "enumerate"];
const BASE: [&str; 6] = ["iter", "into_iter", "rev", "chars", "keys", "values"];

fn closure1(e: &Expr) -> Option<(Pat, Expr)> {
    if let Expr::Closure(c) = e {
        if c.inputs.len() == 1 && c.asyncness.is_none() {
            let mut f = HasExit(false);
            f.visit_expr(&c.body);
            if f.0 {
                return None;
            }
            let p = match &c.inputs[0] {
                Pat::Type(t) => (*t.pat).clone(),
                p => p.clone(),
            };
            return Some((p, (*c.body).clone()));
        }
    }
    None
}
/// return, ?, break, continue
struct HasExit(bool);
impl<'a> Visit<'a> for HasExit {
    fn visit_expr(&mut self, e: &'a Expr) {
        if matches!(e, Expr::Return(_) | Expr::Try(_)) {
            self.0 = true;
        }
        visit::visit_expr(self, e);
    }
}
fn call<'a>(e: &'a Expr, name: &str, n: usize) -> Option<&'a ExprMethodCall> {
    match e {
        Expr::MethodCall(m) if m.method == name && m.args.len() == n => Some(m),
        _ => None,
    }
}

/// x of Some(x) / None values of a filter_map body
pub fn opt_arms(e: Expr, then: &dyn Fn(Expr) -> Vec<Stmt>) -> Expr {
    match e {
        Expr::Call(ref c) if matches!(&*c.func, Expr::Path(p) if p.path.is_ident("Some")) && c.args.len() == 1 => {
            let s = then(c.args[0].clone());
            parse_quote!({ #(#s)* })
        }
        Expr::Path(ref p) if p.path.is_ident("None") => parse_quote!({}),
        Expr::If(mut i) if i.else_branch.is_some() => {
            let t: Expr = opt_arms(block_expr(i.then_branch), then);
            let e: Expr = opt_arms(*i.else_branch.take().unwrap().1, then);
            i.then_branch = parse_quote!({ #t });
            if let Expr::Block(b) = t {
                i.then_branch = b.block;
            }
            i.else_branch = match &e {
                Expr::Block(b) if b.block.stmts.is_empty() => None,
                _ => Some((Default::default(), Box::new(e))),
            };
            Expr::If(i)
        }
        Expr::Match(mut m) => {
            for a in m.arms.iter_mut() {
                a.body = Box::new(opt_arms((*a.body).clone(), then));
                a.comma = Some(Default::default());
            }
            Expr::Match(m)
        }
        Expr::Block(mut b) if matches!(b.block.stmts.last(), Some(Stmt::Expr(_, None))) => {
            if let Some(Stmt::Expr(t, None)) = b.block.stmts.pop() {
                b.block.stmts.push(Stmt::Expr(opt_arms(t, then), None));
            }
            Expr::Block(b)
        }
        e => {
            let v = format_ident!("vx_y");
            let s = then(parse_quote!(#v));
            parse_quote!(if let Some(#v) = #e { #(#s)* })
        }
    }
}
fn block_expr(b: Block) -> Expr {
    if b.stmts.len() == 1 {
        if let Stmt::Expr(e, None) = &b.stmts[0] {
            return e.clone();
        }
    }
    parse_quote!(#b)
}

/// the closure parameter is a reference to `item` (filter, find, position on iter().., all on refs)
struct Deref(Ident, Expr);
impl VisitMut for Deref {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let is = |x: &Expr, i: &Ident| matches!(x, Expr::Path(p) if p.path.is_ident(&i.to_string()));
        match e {
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) && is(&u.expr, &self.0) => {
                *e = self.1.clone();
                return;
            }
            Expr::MethodCall(m) if is(&m.receiver, &self.0) => {
                *m.receiver = self.1.clone();
                for a in m.args.iter_mut() {
                    self.visit_expr_mut(a);
                }
                return;
            }
            Expr::Field(f) if is(&f.base, &self.0) => {
                *f.base = self.1.clone();
                return;
            }
            Expr::Macro(_) => return,
            _ => {}
        }
        if is(e, &self.0) {
            let v = &self.1;
            *e = parse_quote!(&#v);
            return;
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
/// condition `c` of a closure over a reference to the variable `item`
fn on_ref(p: &Pat, c: Expr, item: &Expr) -> (Vec<Stmt>, Expr) {
    match p {
        Pat::Ident(i) if i.subpat.is_none() && i.by_ref.is_none() => {
            let mut c = c;
            Deref(i.ident.clone(), item.clone()).visit_expr_mut(&mut c);
            (vec![], c)
        }
        Pat::Reference(r) => match &*r.pat {
            Pat::Ident(_) => {
                let q = &r.pat;
                (vec![parse_quote!(let #q = #item;)], c)
            }
            Pat::Reference(r2) => {
                let q = &r2.pat;
                (vec![parse_quote!(let #q = *#item;)], c)
            }
            q => (vec![parse_quote!(let #q = #item;)], c),
        },
        q => (vec![parse_quote!(let #q = &#item;)], c),
    }
}

struct Chain {
    base: Expr,
    ops: Vec<(String, Vec<Expr>)>,
}
fn chain(e: &Expr) -> Option<Chain> {
    let mut ops = vec![];
    let mut cur = e.clone();
    loop {
        match &cur {
            Expr::MethodCall(m) if ADAPT.contains(&m.method.to_string().as_str()) => {
                ops.push((m.method.to_string(), m.args.iter().cloned().collect()));
                let r = (*m.receiver).clone();
                cur = r;
            }
            Expr::Paren(p) => {
                let r = (*p.expr).clone();
                cur = r;
            }
            _ => break,
        }
    }
    match &cur {
        Expr::MethodCall(m) if BASE.contains(&m.method.to_string().as_str()) && m.args.is_empty() => {}
        Expr::Range(_) if !ops.is_empty() => {}
        _ => return None,
    }
    ops.reverse();
    Some(Chain { base: cur, ops })
}

impl Norm {
    fn note(&mut self, s: &str) {
        self.done.insert(s.to_string());
    }
    fn fresh(&mut self) -> Ident {
        self.n += 1;
        format_ident!("vx_x{}", self.n)
    }
    /// `for x in chain { sink(x) }` with the adapters opened up
    fn loop_of(&mut self, c: &Chain, sink: &dyn Fn(Expr) -> Vec<Stmt>, want: Option<&Pat>) -> Option<Stmt> {
        // enumerate directly on iter() of something indexable
        let mut ops = c.ops.clone();
        if let Some(("enumerate", _)) = ops.first().map(|o| (o.0.as_str(), 0)) {
            let m = call(&c.base, "iter", 0)?;
            let recv = &m.receiver;
            ops.remove(0);
            let (ip, xp): (Pat, Pat) = match (ops.is_empty(), want) {
                (true, Some(Pat::Tuple(t))) if t.elems.len() == 2 => (t.elems[0].clone(), t.elems[1].clone()),
                _ => {
                    // the next adapter takes the pair apart
                    match ops.first() {
                        Some((n, a)) if n == "map" || n == "filter_map" => match closure1(&a[0])?.0 {
                            Pat::Tuple(t) if t.elems.len() == 2 => (t.elems[0].clone(), t.elems[1].clone()),
                            _ => return None,
                        },
                        _ => return None,
                    }
                }
            };
            let i = match &ip {
                Pat::Ident(p) => p.ident.clone(),
                Pat::Wild(_) => self.fresh(),
                _ => return None,
            };
            let body: Vec<Stmt> = if ops.is_empty() {
                sink(parse_quote!(()))
            } else {
                let (n, a) = ops.remove(0);
                let e = closure1(&a[0])?.1;
                let rest = self.rest(&ops, sink)?;
                if n == "map" {
                    rest(e)
                } else {
                    vec![Stmt::Expr(opt_arms(e, &*rest), None)]
                }
            };
            let lx: Option<Stmt> = if matches!(xp, Pat::Wild(_)) { None } else { Some(parse_quote!(let #xp = &#recv[#i];)) };
            return Some(parse_quote!(for #i in 0..#recv.len() { #lx #(#body)* }));
        }
        let base = &c.base;
        // the first closure's own parameter name is the loop variable
        let (pat, item): (Pat, Expr) = match (ops.first(), want) {
            (Some((n, a)), _) if n != "cloned" && n != "copied" => match closure1(&a[0])?.0 {
                Pat::Ident(p) if p.subpat.is_none() && p.by_ref.is_none() => {
                    let i = &p.ident;
                    (parse_quote!(#i), parse_quote!(#i))
                }
                _ => {
                    let v = self.fresh();
                    (parse_quote!(#v), parse_quote!(#v))
                }
            },
            (None, Some(p)) => (p.clone(), parse_quote!(())),
            _ => {
                let v = self.fresh();
                (parse_quote!(#v), parse_quote!(#v))
            }
        };
        let body = self.rest(&ops, sink)?(item);
        Some(parse_quote!(for #pat in #base { #(#body)* }))
    }
    fn rest<'a>(&mut self, ops: &[(String, Vec<Expr>)], sink: &'a dyn Fn(Expr) -> Vec<Stmt>) -> Option<Box<dyn Fn(Expr) -> Vec<Stmt> + 'a>> {
        let (n, a) = match ops.first() {
            None => return Some(Box::new(move |e| sink(e))),
            Some((n, a)) => (n.clone(), a.clone()),
        };
        let next = self.rest(&ops[1..], sink)?;
        Some(match n.as_str() {
            "cloned" => Box::new(move |e| next(parse_quote!(#e.clone()))),
            "copied" => Box::new(move |e| next(parse_quote!(*#e))),
            "map" => {
                let (p, b) = closure1(&a[0])?;
                Box::new(move |e| {
                    let mut s: Vec<Stmt> = vec![];
                    if p.to_token_stream().to_string() != e.to_token_stream().to_string() {
                        s.push(parse_quote!(let #p = #e;));
                    }
                    s.extend(next(b.clone()));
                    s
                })
            }
            "filter" => {
                let (p, b) = closure1(&a[0])?;
                let v = self.fresh();
                Box::new(move |e| {
                    let mut s: Vec<Stmt> = vec![];
                    let e: Expr = if matches!(e, Expr::Path(_)) {
                        e
                    } else {
                        s.push(parse_quote!(let #v = #e;));
                        parse_quote!(#v)
                    };
                    let (pre, c) = on_ref(&p, b.clone(), &e);
                    let t = next(e);
                    s.extend(pre);
                    s.push(Stmt::Expr(parse_quote!(if #c { #(#t)* }), None));
                    s
                })
            }
            "filter_map" => {
                let (p, b) = closure1(&a[0])?;
                Box::new(move |e| {
                    let mut s: Vec<Stmt> = vec![];
                    if p.to_token_stream().to_string() != e.to_token_stream().to_string() {
                        s.push(parse_quote!(let #p = #e;));
                    }
                    s.push(Stmt::Expr(opt_arms(b.clone(), &*next), None));
                    s
                })
            }
            _ => return None,
        })
    }
    fn acc(&mut self) -> Ident {
        self.name.clone().unwrap_or(format_ident!("result"))
    }
    fn terminal(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        let c = chain(&m.receiver);
        let acc = self.acc();
        match (name.as_str(), m.args.len()) {
            ("collect", 0) => {
                let c = c?;
                if c.ops.is_empty() || (c.ops.len() == 1 && c.ops[0].0 == "map") {
                    return None;
                }
                if let Some(t) = &m.turbofish {
                    if !t.to_token_stream().to_string().contains("Vec") {
                        return None;
                    }
                }
                let a = acc.clone();
                let l = self.loop_of(&c, &move |e| vec![parse_quote!(#a.push(#e);)], None)?;
                self.note("xs.filter(..).map(..).collect() and the like written as a loop pushing the items");
                Some(parse_quote!('vx_inl: { let mut #acc = Vec::new(); #l #acc }))
            }
            ("any" | "all", 1) => {
                let c = c?;
                let (p, b) = closure1(&m.args[0])?;
                let any = name == "any";
                let a = acc.clone();
                let sink = move |e: Expr| -> Vec<Stmt> {
                    let mut s: Vec<Stmt> = vec![];
                    if p.to_token_stream().to_string() != e.to_token_stream().to_string() {
                        s.push(parse_quote!(let #p = #e;));
                    }
                    s.push(if any { parse_quote!(if #b { #a = true; break; }) } else { parse_quote!(if !(#b) { #a = false; break; }) });
                    s
                };
                let want = if c.ops.is_empty() { closure1(&m.args[0]).map(|x| x.0) } else { None };
                let l = match &want {
                    Some(p @ Pat::Ident(i)) => {
                        let i = &i.ident;
                        let b = closure1(&m.args[0])?.1;
                        let _ = p;
                        let a = acc.clone();
                        let st: Stmt = if any { parse_quote!(if #b { #a = true; break; }) } else { parse_quote!(if !(#b) { #a = false; break; }) };
                        let base = &c.base;
                        parse_quote!(for #i in #base { #st })
                    }
                    _ => self.loop_of(&c, &sink, None)?,
                };
                self.note("xs.any(..) / xs.all(..) written as a loop with break");
                let init: Expr = if any { parse_quote!(false) } else { parse_quote!(true) };
                Some(parse_quote!('vx_inl: { let mut #acc = #init; #l #acc }))
            }
            ("find", 1) => {
                let c = c?;
                let (p, b) = closure1(&m.args[0])?;
                let a = acc.clone();
                let v = self.fresh();
                let sink = move |e: Expr| -> Vec<Stmt> {
                    let mut s: Vec<Stmt> = vec![];
                    let e: Expr = if matches!(e, Expr::Path(_)) {
                        e
                    } else {
                        s.push(parse_quote!(let #v = #e;));
                        parse_quote!(#v)
                    };
                    let (pre, c) = on_ref(&p, b.clone(), &e);
                    s.extend(pre);
                    s.push(parse_quote!(if #c { #a = Some(#e); break; }));
                    s
                };
                let l = self.loop_of(&c, &sink, None)?;
                self.note("xs.find(..) written as a loop with break");
                Some(parse_quote!('vx_inl: { let mut #acc = None; #l #acc }))
            }
            ("find_map", 1) => {
                let mut c = c?;
                c.ops.push(("filter_map".into(), m.args.iter().cloned().collect()));
                let a = acc.clone();
                let l = self.loop_of(&c, &move |e| vec![parse_quote!(#a = Some(#e);), parse_quote!(break;)], None)?;
                self.note("xs.find_map(..) written as a loop with break");
                Some(parse_quote!('vx_inl: { let mut #acc = None; #l #acc }))
            }
            ("count", 0) => {
                let c = c?;
                if c.ops.is_empty() {
                    return None;
                }
                let a = acc.clone();
                let l = self.loop_of(&c, &move |_| vec![parse_quote!(#a += 1;)], None)?;
                self.note("xs.filter(..).count() written as a loop");
                Some(parse_quote!('vx_inl: { let mut #acc: usize = 0; #l #acc }))
            }
            ("next", 0) => {
                let c = c?;
                if c.ops.is_empty() {
                    let it = call(&c.base, "into_iter", 0);
                    let by_ref = call(&c.base, "iter", 0);
                    let r = &it.or(by_ref)?.receiver;
                    let v = self.fresh();
                    let g: Expr = if it.is_some() { parse_quote!(#v[0]) } else { parse_quote!(&#v[0]) };
                    let b: Expr = if it.is_some() { parse_quote!(#r) } else { parse_quote!(&#r) };
                    self.note("v.into_iter().next() written as v[0] if there is one");
                    return Some(parse_quote!('vx_inl: { let #v = #b; if #v.len() > 0 { Some(#g) } else { None } }));
                }
                let a = acc.clone();
                let l = self.loop_of(&c, &move |e| vec![parse_quote!(#a = Some(#e);), parse_quote!(break;)], None)?;
                self.note("xs.filter(..).next() written as a loop with break");
                Some(parse_quote!('vx_inl: { let mut #acc = None; #l #acc }))
            }
            ("nth", 1) => {
                let k = &m.args[0];
                let c = c?;
                if !c.ops.is_empty() {
                    // collect first, then take the k-th: the closures are pure in what is counted
                    let a = acc.clone();
                    let l = self.loop_of(&c, &move |e| vec![parse_quote!(#a.push(#e);)], None)?;
                    self.note("xs.filter(..).nth(k) written as a loop collecting the items and an index");
                    return Some(parse_quote!('vx_inl: { let mut #acc = Vec::new(); #l if #k < #acc.len() { Some(#acc[#k]) } else { None } }));
                }
                let it = call(&c.base, "into_iter", 0);
                let by_ref = call(&c.base, "iter", 0);
                let r = &it.or(by_ref)?.receiver;
                let v = self.fresh();
                let g: Expr = if it.is_some() { parse_quote!(#v[#k]) } else { parse_quote!(&#v[#k]) };
                let b: Expr = if it.is_some() { parse_quote!(#r) } else { parse_quote!(&#r) };
                self.note("v.into_iter().nth(k) written as v[k] if there is one");
                Some(parse_quote!('vx_inl: { let #v = #b; if #k < #v.len() { Some(#g) } else { None } }))
            }
            ("for_each", 1) => {
                let c = c?;
                let (p, b) = closure1(&m.args[0])?;
                let sink = move |e: Expr| -> Vec<Stmt> {
                    let mut s: Vec<Stmt> = vec![];
                    if p.to_token_stream().to_string() != e.to_token_stream().to_string() && e.to_token_stream().to_string() != "()" {
                        s.push(parse_quote!(let #p = #e;));
                    }
                    s.push(parse_quote!(#b;));
                    s
                };
                let want = closure1(&m.args[0])?.0;
                let l = self.loop_of(&c, &sink, Some(&want))?;
                self.note("xs.for_each(..) written as a loop");
                Some(parse_quote!({ #l }))
            }
            ("fold", 2) => {
                let c = c?;
                let init = &m.args[0];
                let cl = if let Expr::Closure(cl) = &m.args[1] { cl } else { return None };
                if cl.inputs.len() != 2 {
                    return None;
                }
                let (ap, xp) = match &cl.inputs[0] {
                    Pat::Ident(p) => (p.ident.clone(), cl.inputs[1].clone()),
                    _ => return None,
                };
                let mut ex = HasExit(false);
                ex.visit_expr(&cl.body);
                if ex.0 {
                    return None;
                }
                let b = cl.body.clone();
                let a = ap.clone();
                let want = xp.clone();
                let sink = move |e: Expr| -> Vec<Stmt> {
                    let mut s: Vec<Stmt> = vec![];
                    if e.to_token_stream().to_string() != "()" && xp.to_token_stream().to_string() != e.to_token_stream().to_string() {
                        s.push(parse_quote!(let #xp = #e;));
                    }
                    s.push(parse_quote!(#a = #b;));
                    s
                };
                let l = self.loop_of(&c, &sink, Some(&want))?;
                self.note("xs.fold(..) written as a loop");
                Some(parse_quote!('vx_inl: { let mut #ap = #init; #l #ap }))
            }
            ("extend", 1) => {
                let r = (*m.receiver).clone();
                let a0 = &m.args[0];
                let mut held: Option<Ident> = None;
                let c = match chain(a0) {
                    Some(c) => c,
                    None => {
                        let base: Expr = match a0 {
                            Expr::Reference(x) if x.mutability.is_none() => {
                                let x = &x.expr;
                                parse_quote!(#x.iter())
                            }
                            Expr::Path(_) | Expr::Field(_) => parse_quote!(#a0.iter()),
                            Expr::MethodCall(_) | Expr::Call(_) if kind_of(&r) == "Vec" => {
                                held = Some(self.fresh());
                                let h = held.clone().unwrap();
                                parse_quote!(#h.iter())
                            }
                            _ => return None,
                        };
                        Chain { base, ops: vec![] }
                    }
                };
                let v = if c.ops.is_empty() { self.fresh() } else { format_ident!("vx_none") };
                let put = match kind_of(&r).as_str() {
                    "Set" => format_ident!("insert"),
                    "?" | "Map" => return None,
                    _ => format_ident!("push"),
                };
                let plain = c.ops.is_empty();
                let by_val = plain && call(&c.base, "into_iter", 0).is_some();
                let l = if plain {
                    let base = if by_val {
                        let x = &call(&c.base, "into_iter", 0).unwrap().receiver;
                        parse_quote!(#x.iter())
                    } else {
                        c.base.clone()
                    };
                    parse_quote!(for #v in #base { #r.#put(#v.clone()); })
                } else {
                    self.loop_of(&c, &move |e| vec![parse_quote!(#r.#put(#e);)], None)?
                };
                self.note("v.extend(xs) written as a loop pushing the items (a moved item is pushed as an equal copy)");
                match held {
                    Some(h) => Some(parse_quote!({ let #h = #a0; #l })),
                    None => Some(parse_quote!({ #l })),
                }
            }
            // ---- options
            ("map", 1) if c.is_none() => {
                let (p, b) = closure1(&m.args[0])?;
                let r = &m.receiver;
                self.note("option.map(|x| e) written as a match");
                Some(parse_quote!(match #r { Some(#p) => Some(#b), None => None, }))
            }
            ("and_then", 1) => {
                let (p, b) = closure1(&m.args[0])?;
                let r = &m.receiver;
                self.note("option.and_then(|x| e) written as a match");
                Some(parse_quote!(match #r { Some(#p) => #b, None => None, }))
            }
            ("map_or", 2) => {
                let (p, b) = closure1(&m.args[1])?;
                let (r, d) = (&m.receiver, &m.args[0]);
                if !matches!(d, Expr::Lit(_) | Expr::Path(_)) {
                    return None;
                }
                self.note("option.map_or(d, |x| e) written as a match");
                Some(parse_quote!(match #r { Some(#p) => #b, None => #d, }))
            }
            ("is_some_and", 1) => {
                let (p, b) = closure1(&m.args[0])?;
                let r = &m.receiver;
                self.note("option.is_some_and(|x| e) written as a match");
                Some(parse_quote!(match #r { Some(#p) => #b, None => false, }))
            }
            ("unwrap_or_else", 1) => {
                if let Expr::Closure(cl) = &m.args[0] {
                    if cl.inputs.is_empty() {
                        let (r, b) = (&m.receiver, &cl.body);
                        let mut ex = HasExit(false);
                        ex.visit_expr(b);
                        if ex.0 {
                            return None;
                        }
                        self.note("option.unwrap_or_else(|| e) written as a match");
                        return Some(parse_quote!(match #r { Some(vx_v) => vx_v, None => #b, }));
                    }
                }
                None
            }
            _ => None,
        }
    }

    /// `let mut i = A; while i < X.len() { ..; i += 1; }`  ->  for i in A..X.len()
    fn counted(&mut self, b: &mut Block) {
        let mut k = 0;
        while k + 1 < b.stmts.len() {
            if let Some(f) = counted_at(&b.stmts, k) {
                b.stmts[k] = f;
                b.stmts.remove(k + 1);
                self.note("let mut i = 0; while i < xs.len() { ..; i += 1; } written as a for loop over 0..xs.len()");
            }
            k += 1;
        }
    }
}

fn assigns(b: &Block, name: &str) -> usize {
    struct A<'x>(&'x str, usize);
    impl<'x, 'a> Visit<'a> for A<'x> {
        fn visit_expr(&mut self, e: &'a Expr) {
            let is = |x: &Expr| matches!(x, Expr::Path(p) if p.path.is_ident(self.0));
            match e {
                Expr::Assign(a) if is(&a.left) => self.1 += 1,
                Expr::Binary(b) if is(&b.left) && b.op.to_token_stream().to_string().ends_with('=') && !matches!(b.op, BinOp::Eq(_) | BinOp::Le(_) | BinOp::Ge(_) | BinOp::Ne(_)) => self.1 += 1,
                Expr::Reference(r) if r.mutability.is_some() && is(&r.expr) => self.1 += 1,
                _ => {}
            }
            visit::visit_expr(self, e);
        }
    }
    let mut a = A(name, 0);
    a.visit_block(b);
    a.1
}
/// could the value of `place` change in the body (by name of the operations)
fn touched(b: &Block, place: &str) -> bool {
    struct T<'x>(&'x str, bool);
    impl<'x, 'a> Visit<'a> for T<'x> {
        fn visit_expr(&mut self, e: &'a Expr) {
            let txt = |x: &Expr| x.to_token_stream().to_string();
            match e {
                Expr::MethodCall(m) if txt(&m.receiver) == self.0 => {
                    if !["len", "iter", "get", "is_empty", "clone", "contains", "first", "last"].contains(&m.method.to_string().as_str()) {
                        self.1 = true;
                    }
                }
                // a call on self with a mutable receiver could reach self.place
                Expr::MethodCall(m) if txt(&m.receiver) == "self" && self.0.starts_with("self") => self.1 = true,
                Expr::Assign(a) if self.0.starts_with(&txt(&a.left)) || txt(&a.left).starts_with(self.0) => self.1 = true,
                Expr::Reference(r) if r.mutability.is_some() && (self.0.starts_with(&txt(&r.expr)) || txt(&r.expr).starts_with(self.0)) => self.1 = true,
                _ => {}
            }
            visit::visit_expr(self, e);
        }
    }
    let mut t = T(place, false);
    t.visit_block(b);
    t.1
}
struct HasContinue(bool);
impl<'a> Visit<'a> for HasContinue {
    fn visit_expr_continue(&mut self, _: &'a ExprContinue) {
        self.0 = true;
    }
}
fn counted_at(stmts: &[Stmt], k: usize) -> Option<Stmt> {
    let (i, start) = match &stmts[k] {
        Stmt::Local(l) => match (&l.pat, &l.init) {
            (Pat::Ident(p), Some(x)) if p.mutability.is_some() && x.diverge.is_none() => (p.ident.clone(), (*x.expr).clone()),
            (Pat::Type(t), Some(x)) if x.diverge.is_none() => match &*t.pat {
                Pat::Ident(p) if p.mutability.is_some() => (p.ident.clone(), (*x.expr).clone()),
                _ => return None,
            },
            _ => return None,
        },
        _ => return None,
    };
    if !matches!(&start, Expr::Lit(l) if matches!(l.lit, Lit::Int(_))) {
        return None;
    }
    let w = match &stmts[k + 1] {
        Stmt::Expr(Expr::While(w), _) => w,
        _ => return None,
    };
    let end = match &*w.cond {
        Expr::Binary(b) if matches!(b.op, BinOp::Lt(_)) && matches!(&*b.left, Expr::Path(p) if p.path.is_ident(&i.to_string())) => (*b.right).clone(),
        _ => return None,
    };
    match &end {
        Expr::MethodCall(m) if m.method == "len" && m.args.is_empty() => {
            if touched(&w.body, &m.receiver.to_token_stream().to_string()) {
                return None;
            }
        }
        _ => return None,
    }
    let mut body = w.body.clone();
    let last = body.stmts.pop()?;
    let inc = match &last {
        Stmt::Expr(Expr::Binary(b), _) => matches!(b.op, BinOp::AddAssign(_)) && matches!(&*b.left, Expr::Path(p) if p.path.is_ident(&i.to_string())) && b.right.to_token_stream().to_string() == "1",
        _ => false,
    };
    let mut c = HasContinue(false);
    c.visit_block(&body);
    if !inc || c.0 || assigns(&body, &i.to_string()) > 0 {
        return None;
    }
    // not used afterwards
    for s in &stmts[k + 2..] {
        if s.to_token_stream().to_string().split(|c: char| !c.is_alphanumeric() && c != '_').any(|x| x == i.to_string()) {
            return None;
        }
    }
    let lab = &w.label;
    Some(Stmt::Expr(parse_quote!(#lab for #i in #start..#end #body), None))
}

/// `continue` of a for loop turned into branches
struct Cont(BTreeSet<String>);
impl VisitMut for Cont {
    fn visit_expr_for_loop_mut(&mut self, f: &mut ExprForLoop) {
        visit_mut::visit_expr_for_loop_mut(self, f);
        if f.label.is_some() {
            return;
        }
        let mut h = LevelContinue(false);
        for s in f.body.stmts.iter() {
            h.visit_stmt(s);
        }
        if h.0 {
            if let Some(s) = crate::inline::without_continue(f.body.stmts.clone()) {
                f.body.stmts = s;
                self.0.insert("`continue` in a for loop written as branches".into());
            }
        }
    }
}
pub struct LevelContinue(pub bool);
impl<'a> Visit<'a> for LevelContinue {
    fn visit_expr_continue(&mut self, c: &'a ExprContinue) {
        if c.label.is_none() {
            self.0 = true;
        }
    }
    fn visit_expr_for_loop(&mut self, _: &'a ExprForLoop) {}
    fn visit_expr_while(&mut self, _: &'a ExprWhile) {}
    fn visit_expr_loop(&mut self, _: &'a ExprLoop) {}
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
}

impl VisitMut for Norm {
    fn visit_block_mut(&mut self, b: &mut Block) {
        for s in b.stmts.iter_mut() {
            let mut nm = None;
            if let Stmt::Local(l) = s {
                let p = if let Pat::Type(t) = &l.pat { &*t.pat } else { &l.pat };
                if let Pat::Ident(p) = p {
                    nm = Some(p.ident.clone());
                }
            }
            let old = std::mem::replace(&mut self.name, nm);
            self.visit_stmt_mut(s);
            self.name = old;
        }
        self.counted(b);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let rep = match e {
            Expr::MethodCall(m) => {
                let m = m.clone();
                self.terminal(&m)
            }
            Expr::ForLoop(f) => match chain(&f.expr) {
                Some(c) if !c.ops.is_empty() => {
                    let body = f.body.stmts.clone();
                    let pat = (*f.pat).clone();
                    let p2 = pat.clone();
                    let sink = move |e: Expr| -> Vec<Stmt> {
                        let mut s: Vec<Stmt> = vec![];
                        if e.to_token_stream().to_string() != "()" && p2.to_token_stream().to_string() != e.to_token_stream().to_string() {
                            s.push(parse_quote!(let #p2 = #e;));
                        }
                        s.extend(body.iter().cloned());
                        s
                    };
                    let lab = f.label.clone();
                    match self.loop_of(&c, &sink, Some(&pat)) {
                        Some(Stmt::Expr(Expr::ForLoop(mut l), _)) => {
                            l.label = lab;
                            self.note("for over an adapted iterator written as a plain loop");
                            Some(Expr::ForLoop(l))
                        }
                        _ => None,
                    }
                }
                _ => None,
            },
            _ => None,
        };
        if let Some(r) = rep {
            *e = r;
        }
    }
}

pub fn normalise(b: &mut Block) -> BTreeSet<String> {
    let outer = KINDS.with(|k| k.borrow().clone());
    let mut here = Default::default();
    Kinds(&mut here).visit_block(b);
    KINDS.with(|k| k.borrow_mut().extend(here));
    let mut n = Norm::default();
    n.visit_block_mut(b);
    KINDS.with(|k| *k.borrow_mut() = outer);
    let mut c = Cont(BTreeSet::new());
    c.visit_block_mut(b);
    n.done.extend(c.0);
    n.done
}
