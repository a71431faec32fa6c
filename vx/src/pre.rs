//! Equations applied before the loop forms of iter.rs: each replaces an expression by one of the same
//! value with the same order of evaluation.
use quote::{format_ident, ToTokens};
use std::collections::BTreeSet;
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;

fn txt<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string()
}
fn count(ts: proc_macro2::TokenStream, n: &str) -> usize {
    ts.into_iter()
        .map(|t| match t {
            proc_macro2::TokenTree::Group(g) => count(g.stream(), n),
            proc_macro2::TokenTree::Ident(i) => (i == n) as usize,
            _ => 0,
        })
        .sum()
}
fn uses<T: ToTokens>(t: &T, n: &str) -> usize {
    count(t.to_token_stream(), n)
}
fn is(e: &Expr, n: &str) -> bool {
    matches!(e, Expr::Path(p) if p.path.is_ident(n))
}
fn method<'a>(e: &'a Expr, n: &str, k: usize) -> Option<&'a ExprMethodCall> {
    match e {
        Expr::MethodCall(m) if m.method == n && m.args.len() == k => Some(m),
        _ => None,
    }
}
fn closure(e: &Expr, k: usize) -> Option<(Vec<Pat>, Expr)> {
    struct Exit(bool);
    impl<'a> Visit<'a> for Exit {
        fn visit_expr(&mut self, e: &'a Expr) {
            if matches!(e, Expr::Return(_) | Expr::Try(_)) {
                self.0 = true;
            }
            visit::visit_expr(self, e);
        }
    }
    match e {
        Expr::Closure(c) if c.inputs.len() == k && c.asyncness.is_none() => {
            let mut x = Exit(false);
            x.visit_expr(&c.body);
            if x.0 {
                return None;
            }
            let ps = c.inputs.iter().map(|p| if let Pat::Type(t) = p { (*t.pat).clone() } else { p.clone() }).collect();
            Some((ps, (*c.body).clone()))
        }
        _ => None,
    }
}
/// `S.insert(x);` and `S.extend(xs);` as insertions that note in `m` whether S grew
struct Grow {
    set: String,
    flag: Ident,
    done: usize,
    n: usize,
    ok: bool,
}
impl VisitMut for Grow {
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Expr(Expr::MethodCall(c), _) = s {
            if txt(&*c.receiver) == self.set && c.args.len() == 1 {
                let (set, m, a) = (&c.receiver, &self.flag, &c.args[0]);
                if c.method == "insert" {
                    let e: Expr = parse_quote!(#m = #set.insert(#a) || #m);
                    *s = Stmt::Expr(e, Some(Default::default()));
                    self.done += 1;
                    return;
                }
                if c.method == "extend" {
                    let v = format_ident!("vx_g{}", self.n);
                    self.n += 1;
                    let (base, item): (Expr, Expr) = match a {
                        Expr::MethodCall(k) if (k.method == "copied" || k.method == "cloned") && k.args.is_empty() => ((*k.receiver).clone(), if k.method == "copied" { parse_quote!(*#v) } else { parse_quote!(#v.clone()) }),
                        Expr::Reference(r) if r.mutability.is_none() => {
                            let r = &r.expr;
                            (parse_quote!(#r.iter()), parse_quote!(*#v))
                        }
                        Expr::MethodCall(k) if k.method == "iter" && k.args.is_empty() => (a.clone(), parse_quote!(*#v)),
                        Expr::Path(_) => (a.clone(), parse_quote!(#v)),
                        _ => {
                            self.ok = false;
                            return;
                        }
                    };
                    let e: Expr = parse_quote!(for #v in #base { #m = #set.insert(#item) || #m; });
                    *s = Stmt::Expr(e, None);
                    self.done += 1;
                    return;
                }
            }
        }
        visit_mut::visit_stmt_mut(self, s);
    }
}
/// m, where the statement sets it exactly if `set.len()` differs from `b`
fn grown(s: &Stmt, set: &str, b: &str) -> Option<Ident> {
    let differs = |e: &Expr| -> bool {
        let x = match flat(e) {
            Expr::Binary(x) => x,
            _ => return false,
        };
        let (l, r, len) = (txt(&flat(&x.left)), txt(&flat(&x.right)), format!("{} . len ()", set));
        match x.op {
            BinOp::Ne(_) => l == len && r == b || l == b && r == len,
            BinOp::Gt(_) => l == len && r == b,
            BinOp::Lt(_) => l == b && r == len,
            _ => false,
        }
    };
    let id = |e: &Expr| if let Expr::Path(p) = e { p.path.get_ident().cloned() } else { None };
    match s {
        Stmt::Expr(Expr::If(f), _) if f.else_branch.is_none() && differs(&f.cond) && f.then_branch.stmts.len() == 1 => match &f.then_branch.stmts[0] {
            Stmt::Expr(Expr::Assign(a), _) if txt(&a.right) == "true" => id(&a.left),
            _ => None,
        },
        Stmt::Expr(Expr::Assign(a), _) => {
            let m = id(&a.left)?;
            match flat(&a.right) {
                Expr::Binary(x) if matches!(x.op, BinOp::Or(_)) && (is(&x.left, &m.to_string()) && differs(&x.right) || is(&x.right, &m.to_string()) && differs(&x.left)) => Some(m),
                _ => None,
            }
        }
        Stmt::Expr(Expr::Binary(x), _) if matches!(x.op, BinOp::BitOrAssign(_)) && differs(&x.right) => id(&x.left),
        _ => None,
    }
}
/// locals and parameters known to be bool
struct Bools(BTreeSet<String>);
impl<'a> Visit<'a> for Bools {
    fn visit_local(&mut self, l: &'a Local) {
        match (&l.pat, &l.init) {
            (Pat::Ident(p), Some(i)) if matches!(&*i.expr, Expr::Lit(ExprLit { lit: Lit::Bool(_), .. })) => {
                self.0.insert(p.ident.to_string());
            }
            (Pat::Type(t), _) if txt(&t.ty) == "bool" => {
                if let Pat::Ident(p) = &*t.pat {
                    self.0.insert(p.ident.to_string());
                }
            }
            _ => {}
        }
        visit::visit_local(self, l);
    }
}
/// break / continue belonging to the loop whose body this is
struct Level {
    brk: usize,
    cont: usize,
}
impl<'a> Visit<'a> for Level {
    fn visit_expr_break(&mut self, b: &'a ExprBreak) {
        if b.label.is_none() {
            self.brk += 1
        }
        visit::visit_expr_break(self, b);
    }
    fn visit_expr_continue(&mut self, _: &'a ExprContinue) {
        self.cont += 1
    }
    fn visit_expr_for_loop(&mut self, _: &'a ExprForLoop) {}
    fn visit_expr_while(&mut self, _: &'a ExprWhile) {}
    fn visit_expr_loop(&mut self, _: &'a ExprLoop) {}
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
}
fn flat(e: &Expr) -> Expr {
    match e {
        Expr::Paren(p) => flat(&p.expr),
        Expr::Group(p) => flat(&p.expr),
        e => e.clone(),
    }
}
/// !m { break }
fn stops_unless(s: &Stmt) -> Option<String> {
    if let Stmt::Expr(Expr::If(i), _) = s {
        let only_break = |b: &Block| matches!(b.stmts.as_slice(), [Stmt::Expr(Expr::Break(x), _)] if x.label.is_none() && x.expr.is_none());
        if let Expr::Unary(u) = flat(&i.cond) {
            if let (UnOp::Not(_), Expr::Path(p)) = (&u.op, flat(&u.expr)) {
                if i.else_branch.is_none() && only_break(&i.then_branch) {
                    return Some(p.path.get_ident()?.to_string());
                }
            }
        }
    }
    None
}
fn diverges(b: &Block) -> bool {
    matches!(b.stmts.last(), Some(Stmt::Expr(Expr::Return(_), _)))
}

thread_local! {
    // return type of the functions of that name, "" when they differ
    static RETS: std::cell::RefCell<std::collections::BTreeMap<String, String>> = Default::default();
}
pub fn returns(f: &File) {
    RETS.with(|r| {
        for x in crate::all_fns(f) {
            let t = match &x.sig.output {
                ReturnType::Type(_, t) => txt(t),
                _ => continue,
            };
            let e = r.borrow_mut().entry(x.sig.ident.to_string()).or_insert_with(|| t.clone()).clone();
            if e != t {
                r.borrow_mut().insert(x.sig.ident.to_string(), String::new());
            }
        }
    });
}
/// what `for x in e` goes over, as items of `e.iter()`: Some(false) by reference, Some(true) copies of references
fn iterated(e: &Expr) -> Option<bool> {
    let n = match e {
        Expr::MethodCall(m) => m.method.to_string(),
        Expr::Call(c) => match &*c.func {
            Expr::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
            _ => return None,
        },
        _ => return None,
    };
    let t = RETS.with(|r| r.borrow().get(&n).cloned())?.replace(' ', "");
    if t.starts_with("&Vec<") || t.starts_with("&HashSet<") || t.starts_with("&[") {
        Some(false)
    } else if t.starts_with("Vec<&") {
        Some(true)
    } else {
        None
    }
}
/// `const X: T = literal;` inside a function
fn consts(b: &mut Block) {
    let mut map: std::collections::BTreeMap<String, Expr> = Default::default();
    b.stmts.retain(|s| match s {
        Stmt::Item(Item::Const(c)) if matches!(&*c.expr, Expr::Lit(_) | Expr::Path(_)) => {
            map.insert(c.ident.to_string(), (*c.expr).clone());
            false
        }
        _ => true,
    });
    if map.is_empty() {
        return;
    }
    struct C(std::collections::BTreeMap<String, Expr>);
    impl VisitMut for C {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            if let Expr::Path(p) = e {
                if let Some(v) = p.path.get_ident().and_then(|i| self.0.get(&i.to_string())) {
                    *e = v.clone();
                    return;
                }
            }
            visit_mut::visit_expr_mut(self, e);
        }
    }
    C(map).visit_block_mut(b);
}
/// locals declared Vec<&dyn T>: what is pushed is coerced to &dyn T
struct Casts(std::collections::BTreeMap<String, Type>);
impl VisitMut for Casts {
    fn visit_local_mut(&mut self, l: &mut Local) {
        if let Pat::Type(t) = &l.pat {
            if let (Pat::Ident(i), Type::Path(p)) = (&*t.pat, &*t.ty) {
                let last = p.path.segments.last().unwrap();
                if let (true, PathArguments::AngleBracketed(a)) = (last.ident == "Vec", &last.arguments) {
                    if let Some(GenericArgument::Type(e)) = a.args.first() {
                        if txt(e).starts_with("& dyn") {
                            self.0.insert(i.ident.to_string(), e.clone());
                        }
                    }
                }
            }
        }
        visit_mut::visit_local_mut(self, l);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::MethodCall(m) = e {
            if m.method == "push" && m.args.len() == 1 && !matches!(m.args[0], Expr::Cast(_)) {
                if let Expr::Path(p) = &*m.receiver {
                    if let Some(t) = p.path.get_ident().and_then(|i| self.0.get(&i.to_string())) {
                        let a = &m.args[0];
                        m.args[0] = parse_quote!(#a as #t);
                    }
                }
            }
        }
    }
}

// evaluated anywhere with the same outcome
fn plain(e: &Expr) -> bool {
    match e {
        Expr::Lit(_) | Expr::Path(_) => true,
        Expr::Tuple(t) => t.elems.iter().all(plain),
        Expr::Reference(r) => plain(&r.expr),
        Expr::Paren(p) => plain(&p.expr),
        Expr::Field(f) => plain(&f.base),
        _ => false,
    }
}
struct Pre {
    maps: BTreeSet<String>,
    bools: BTreeSet<String>,
    done: BTreeSet<String>,
    n: usize,
    root: bool,
}
impl Pre {
    fn note(&mut self, s: &str) {
        self.done.insert(s.to_string());
    }
    fn fresh(&mut self) -> Ident {
        self.n += 1;
        format_ident!("vx_p{}", self.n)
    }
    /// `return xs.find_map(|p| e)` as a loop that returns
    fn returned(&mut self, e: &Expr) -> Option<Vec<Stmt>> {
        let m = method(e, "find_map", 1)?;
        let (ps, body) = closure(&m.args[0], 1)?;
        let base = &m.receiver;
        if !matches!(&**base, Expr::MethodCall(b) if ["iter", "into_iter", "rev"].contains(&b.method.to_string().as_str()) && b.args.is_empty()) {
            return None;
        }
        let p = &ps[0];
        let arms: Expr = crate::iter::opt_arms(body, &|v| vec![parse_quote!(return Some(#v);)]);
        self.note("a returned xs.find_map(..) written as a loop that returns");
        Some(vec![parse_quote!(for #p in #base { #arms }), parse_quote!(return None;)])
    }
}
impl VisitMut for Pre {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let root = std::mem::replace(&mut self.root, false);
        let mut out: Vec<Stmt> = vec![];
        let n = b.stmts.len();
        for (i, s) in std::mem::take(&mut b.stmts).into_iter().enumerate() {
            match &s {
                Stmt::Expr(Expr::Return(r), _) if r.expr.is_some() => {
                    if let Some(v) = self.returned(r.expr.as_ref().unwrap()) {
                        out.extend(v);
                        continue;
                    }
                }
                Stmt::Expr(e, None) if root && i + 1 == n => {
                    if let Some(mut v) = self.returned(e) {
                        v.pop();
                        v.push(Stmt::Expr(parse_quote!(None), None));
                        out.extend(v);
                        continue;
                    }
                }
                // for p in [a, b] { .. }
                Stmt::Expr(Expr::ForLoop(f), _) if f.label.is_none() => {
                    if let Expr::Array(a) = &*f.expr {
                        let mut l = Level { brk: 0, cont: 0 };
                        l.visit_block(&f.body);
                        if (1..=6).contains(&a.elems.len()) && l.brk == 0 && l.cont == 0 && a.elems.iter().all(plain) {
                            let body = &f.body.stmts;
                            for e in a.elems.iter() {
                                match (&*f.pat, e) {
                                    (Pat::Tuple(p), Expr::Tuple(t)) if p.elems.len() == t.elems.len() => {
                                        let (p, t) = (p.elems.iter(), t.elems.iter());
                                        out.push(Stmt::Expr(parse_quote!({ #(let #p = #t;)* #(#body)* }), None));
                                    }
                                    (p, e) => out.push(Stmt::Expr(parse_quote!({ let #p = #e; #(#body)* }), None)),
                                }
                            }
                            self.note("for p in [a, b, ..] written out");
                            continue;
                        }
                    }
                }
                // if xs.any(|x| c) { ..; return r }
                Stmt::Expr(Expr::If(f), _) if f.else_branch.is_none() && diverges(&f.then_branch) => {
                    if let Some(m) = method(&flat(&f.cond), "any", 1) {
                        if let (Some((ps, c)), Expr::MethodCall(base)) = (closure(&m.args[0], 1), &*m.receiver) {
                            let p = &ps[0];
                            let name = match p {
                                Pat::Ident(x) => x.ident.to_string(),
                                _ => String::new(),
                            };
                            let clash = name.is_empty() || uses(&f.then_branch, &name) > 0;
                            let lv = {
                                let mut l = Level { brk: 0, cont: 0 };
                                l.visit_block(&f.then_branch);
                                l.brk + l.cont
                            };
                            if base.method == "iter" && base.args.is_empty() && !clash && lv == 0 {
                                let t = &f.then_branch;
                                out.push(Stmt::Expr(parse_quote!(for #p in #base { if #c #t }), None));
                                self.note("if xs.any(|x| c) { ..; return r } written as a loop that returns");
                                continue;
                            }
                        }
                    }
                }
                _ => {}
            }
            out.push(s);
        }
        b.stmts = out;
        // loop { m = false; ..; if !m { break } }  ->  m = true; while m { m = false; .. }
        let mut k = 0;
        while k < b.stmts.len() {
            let hit = (|| -> Option<(Vec<Stmt>, Stmt)> {
                let l = if let Stmt::Expr(Expr::Loop(l), _) = &b.stmts[k] { l } else { return None };
                if l.label.is_some() {
                    return None;
                }
                let m = stops_unless(l.body.stmts.last()?)?;
                let mut body = l.body.clone();
                body.stmts.pop();
                let mut lv = Level { brk: 0, cont: 0 };
                for s in body.stmts.iter() {
                    lv.visit_stmt(s);
                }
                if lv.cont > 0 {
                    return None;
                }
                let id = format_ident!("{}", m);
                let fresh = match body.stmts.first()? {
                    Stmt::Local(x) => match (&x.pat, &x.init) {
                        (Pat::Ident(p), Some(i)) if p.ident == id && p.mutability.is_some() && txt(&i.expr) == "false" => true,
                        _ => return None,
                    },
                    Stmt::Expr(Expr::Assign(a), _) if is(&a.left, &m) && txt(&a.right) == "false" => false,
                    _ => return None,
                };
                if fresh && b.stmts.iter().enumerate().any(|(j, s)| j != k && uses(s, &m) > 0) {
                    return None;
                }
                body.stmts[0] = parse_quote!(#id = false;);
                let pre: Vec<Stmt> = if fresh { vec![parse_quote!(let mut #id = true;)] } else { vec![parse_quote!(#id = true;)] };
                // with `let mut m = true` (or false, never read) already in front
                Some((pre, Stmt::Expr(parse_quote!(while #id #body), None)))
            })();
            if let Some((pre, w)) = hit {
                b.stmts[k] = w;
                for (j, s) in pre.into_iter().enumerate() {
                    b.stmts.insert(k + j, s);
                    k += 1;
                }
                self.note("loop { m = false; ..; if !m { break } } written as m = true; while m { m = false; .. }");
            }
            k += 1;
        }
        // let b = s.len(); s.extend(xs); if s.len() != b { m = true }
        let mut k = 0;
        while k < b.stmts.len() {
            let hit = (|| -> Option<(usize, Vec<Stmt>)> {
                let (id, set) = match &b.stmts[k] {
                    Stmt::Local(l) => match (&l.pat, &l.init) {
                        (Pat::Ident(p), Some(i)) if p.mutability.is_none() => (p.ident.to_string(), txt(&*method(&i.expr, "len", 0)?.receiver)),
                        _ => return None,
                    },
                    _ => return None,
                };
                let j = (k + 1..b.stmts.len()).find(|j| uses(&b.stmts[*j], &id) > 0)?;
                let m = grown(&b.stmts[j], &set, &id)?;
                if (j + 1..b.stmts.len()).any(|i| uses(&b.stmts[i], &id) > 0) {
                    return None;
                }
                let mut mid: Vec<Stmt> = b.stmts[k + 1..j].to_vec();
                if mid.iter().any(|s| uses(s, &m.to_string()) > 0) {
                    return None;
                }
                let mut g = Grow { set: set.clone(), flag: m, done: 0, n: k * 10, ok: true };
                for s in mid.iter_mut() {
                    g.visit_stmt_mut(s);
                }
                // the set is touched by these insertions only
                let root = set.split(|c: char| !c.is_alphanumeric() && c != '_').next()?.to_string();
                let roots: usize = b.stmts[k + 1..j].iter().map(|s| uses(s, &root)).sum();
                if !g.ok || g.done == 0 || roots != g.done {
                    return None;
                }
                Some((j, mid))
            })();
            if let Some((j, mid)) = hit {
                b.stmts.splice(k..=j, mid);
                self.note("let b = s.len(); s.extend(xs); if s.len() != b { m = true } written as insertions that set m");
            }
            k += 1;
        }
        visit_mut::visit_block_mut(self, b);
        self.root = root;
    }
    fn visit_expr_closure_mut(&mut self, c: &mut ExprClosure) {
        let root = std::mem::replace(&mut self.root, false);
        // returns in a closure are its own: leave it alone
        let _ = c;
        self.root = root;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let mut rep: Option<Expr> = None;
        match e {
            Expr::Binary(b) => {
                let op = match b.op {
                    BinOp::BitOrAssign(_) => "||",
                    BinOp::BitAndAssign(_) => "&&",
                    _ => "",
                };
                if let (true, Expr::Path(p)) = (!op.is_empty(), &*b.left) {
                    if p.path.get_ident().map_or(false, |i| self.bools.contains(&i.to_string())) {
                        let (l, r) = (&b.left, &b.right);
                        rep = Some(if op == "||" { parse_quote!(#l = (#r) || #l) } else { parse_quote!(#l = (#r) && #l) });
                        self.note("a |= b on bool written as a = b || a (b is evaluated either way)");
                    }
                }
            }
            Expr::ForLoop(f) => {
                if let Pat::Reference(r) = &*f.pat {
                    if matches!(&*r.pat, Pat::Ident(p) if p.by_ref.is_none() && p.subpat.is_none()) {
                        let x = self.fresh();
                        let p = &r.pat;
                        let body = &f.body.stmts;
                        let lab = &f.label;
                        let ex: Expr = match &*f.expr {
                            Expr::Reference(q) if q.mutability.is_none() => {
                                let q = &q.expr;
                                parse_quote!(#q.iter())
                            }
                            q => q.clone(),
                        };
                        let ex = if iterated(&ex) == Some(false) { parse_quote!(#ex.iter()) } else { ex };
                        rep = Some(parse_quote!(#lab for #x in #ex { let #p = *#x; #(#body)* }));
                        self.note("for &x in xs written as for r in xs { let x = *r; .. }");
                    }
                } else if let (Expr::Reference(q), Pat::Ident(_) | Pat::Tuple(_)) = (&*f.expr, &*f.pat) {
                    if q.mutability.is_none() && !matches!(&*q.expr, Expr::Array(_)) {
                        let (p, q, body, lab) = (&f.pat, &q.expr, &f.body.stmts, &f.label);
                        rep = Some(parse_quote!(#lab for #p in #q.iter() { #(#body)* }));
                        self.note("for x in &xs written as for x in xs.iter()");
                    }
                } else if let (Some(k), Pat::Ident(p)) = (iterated(&f.expr), &*f.pat) {
                    let (x, body, lab) = (&f.expr, &f.body.stmts, &f.label);
                    if !k {
                        rep = Some(parse_quote!(#lab for #p in #x.iter() { #(#body)* }));
                        self.note("for x in &xs written as for x in xs.iter()");
                    } else if p.by_ref.is_none() && p.mutability.is_none() && p.subpat.is_none() {
                        let r = self.fresh();
                        rep = Some(parse_quote!(#lab for #r in #x.iter() { let #p = *#r; #(#body)* }));
                        self.note("for &x in xs written as for r in xs { let x = *r; .. }");
                    }
                } else if let Expr::MethodCall(m) = &*f.expr {
                    // for i in (0..xs.len()).rev() { let x = &xs[i]; .. }
                    if let (true, Pat::Ident(i), Expr::Range(r)) = (m.method == "rev" && m.args.is_empty(), &*f.pat, flat(&m.receiver)) {
                        let i = i.ident.to_string();
                        if let (Some(a), Some(z), Some(Stmt::Local(l)), RangeLimits::HalfOpen(_)) = (&r.start, &r.end, f.body.stmts.first(), &r.limits) {
                            if let (Some(xs), Some(init)) = (method(z, "len", 0).map(|m| (*m.receiver).clone()), &l.init) {
                                let same = txt(&init.expr) == format!("& {} [{}]", txt(&xs), i) || txt(&init.expr).replace(' ', "") == format!("&{}[{}]", txt(&xs).replace(' ', ""), i);
                                if txt(a) == "0" && same && init.diverge.is_none() && uses(&f.body, &i) == 1 {
                                    let p = &l.pat;
                                    let body = &f.body.stmts[1..];
                                    let lab = &f.label;
                                    rep = Some(parse_quote!(#lab for #p in #xs.iter().rev() { #(#body)* }));
                                    self.note("for i in (0..xs.len()).rev() { let x = &xs[i]; .. } written as for x in xs.iter().rev()");
                                }
                            }
                        }
                        if rep.is_none() {
                            self.note("a loop over a range is reversed");
                        }
                    }
                }
            }
            Expr::MethodCall(m) if m.method == "split" && m.args.len() == 1 && matches!(&m.args[0], Expr::Lit(ExprLit { lit: Lit::Char(_), .. })) => {
                if let Expr::Lit(ExprLit { lit: Lit::Char(c), .. }) = m.args[0].clone() {
                    let t = LitStr::new(&c.value().to_string(), c.span());
                    m.args[0] = parse_quote!(#t);
                    self.note("in place: s.split('c') written as s.split(\"c\")");
                }
            }
            Expr::Reference(r) if r.mutability.is_none() => {
                if let Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) = &*r.expr {
                    if let Expr::MethodCall(m) = &**expr {
                        if m.method == "unwrap" && txt(&m.receiver).contains(". get (") && self.maps.contains("*") {
                            rep = Some((**expr).clone());
                        }
                    }
                }
            }
            Expr::Index(i) => {
                let n = match &*i.expr {
                    Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
                    _ => None,
                };
                // no other index is a reference to a value
                let by_ref = matches!(&*i.index, Expr::Reference(r) if matches!(&*r.expr, Expr::Path(_) | Expr::Field(_)));
                if by_ref || crate::iter::kind_of(&i.expr) == "Map" || n.map_or(false, |n| self.maps.contains(&n)) {
                    let (m, k) = (&i.expr, &i.index);
                    rep = Some(parse_quote!(*#m.get(#k).unwrap()));
                    self.maps.insert("*".into());
                    self.note("in place: map[k] written as *map.get(k).unwrap()");
                }
            }
            Expr::While(w) => {
                // while i < xs.len() && c { .. }
                if let Expr::Binary(b) = &*w.cond {
                    if let (BinOp::And(_), Expr::Binary(l)) = (&b.op, flat(&b.left)) {
                        if matches!(l.op, BinOp::Lt(_)) && method(&l.right, "len", 0).is_some() && !matches!(&*b.right, Expr::Let(_)) {
                            let c = &b.right;
                            let body = &w.body.stmts;
                            let lab = &w.label;
                            rep = Some(parse_quote!(#lab while #l { if !(#c) { break; } #(#body)* }));
                            self.note("while i < xs.len() && c { .. } written as while i < xs.len() { if !c { break } .. }");
                        }
                    }
                }
            }
            Expr::MethodCall(m) => {
                let r = &m.receiver;
                match (m.method.to_string().as_str(), m.args.len()) {
                    ("map_err", 1) => {
                        if let Some((p, x)) = closure(&m.args[0], 1) {
                            let p = &p[0];
                            rep = Some(parse_quote!(match #r { Ok(vx_v) => Ok(vx_v), Err(#p) => Err(#x), }));
                            self.note("result.map_err(|x| e) written as a match");
                        }
                    }
                    ("or", 1) => {
                        let (a, b) = (self.fresh(), self.fresh());
                        let x = &m.args[0];
                        rep = Some(parse_quote!({ let #a = #r; let #b = #x; match #a { Some(vx_v) => Some(vx_v), None => #b, } }));
                        self.note("option.or(b) written as a match");
                    }
                    ("filter", 1) if matches!(&**r, Expr::MethodCall(q) if ["first", "last", "get", "get_mut", "pop", "cloned", "copied", "as_ref", "as_deref", "nth", "next", "ok", "as_str", "as_u64", "as_array"].contains(&q.method.to_string().as_str())
                        && !(["cloned", "copied"].contains(&q.method.to_string().as_str()) && matches!(&*q.receiver, Expr::MethodCall(i) if ["iter", "chars", "into_iter", "rev", "filter", "map"].contains(&i.method.to_string().as_str()))))
                        || matches!(&**r, Expr::Match(_) | Expr::If(_))
                        || matches!(&**r, Expr::Call(c) if matches!(&*c.func, Expr::Path(p) if p.path.is_ident("Some"))) =>
                    {
                        if let Some((p, x)) = closure(&m.args[0], 1) {
                            let p = &p[0];
                            rep = Some(parse_quote!(match #r { Some(vx_v) => { let #p = &vx_v; if #x { Some(vx_v) } else { None } }, None => None, }));
                            self.note("option.filter(|x| c) written as a match");
                        }
                    }
                    ("push", 1) => {
                        if let Expr::Lit(ExprLit { lit: Lit::Char(c), .. }) = &m.args[0] {
                            let s = LitStr::new(&c.value().to_string(), c.span());
                            rep = Some(parse_quote!(#r.push_str(#s)));
                            self.note("in place: s.push('c') written as s.push_str(\"c\")");
                        }
                    }
                    ("append", 1) => {
                        if let Expr::Reference(q) = &m.args[0] {
                            if q.mutability.is_some() && matches!(&*q.expr, Expr::Path(_) | Expr::Field(_)) {
                                let (x, q) = (self.fresh(), &q.expr);
                                rep = Some(parse_quote!({ for #x in #q.iter() { #r.push(#x.clone()); } #q.clear(); }));
                                self.note("v.append(&mut w) written as a loop pushing the items, then w.clear()");
                            }
                        }
                    }
                    ("or_else", 1) => {
                        if let Some((_, x)) = closure(&m.args[0], 0) {
                            rep = Some(parse_quote!(match #r { Some(vx_v) => Some(vx_v), None => #x, }));
                            self.note("option.or_else(|| e) written as a match");
                        }
                    }
                    ("ok_or_else", 1) => {
                        if let Some((_, x)) = closure(&m.args[0], 0) {
                            rep = Some(parse_quote!(match #r { Some(vx_v) => Ok(vx_v), None => Err(#x), }));
                            self.note("option.ok_or_else(|| e) written as a match");
                        }
                    }
                    _ => {}
                }
            }
            _ => {}
        }
        if let Some(r) = rep {
            *e = r;
        }
    }
}

/// bindings of a name (patterns), and whether it occurs inside a macro or as an item
struct Binds<'n> {
    name: &'n str,
    pats: usize,
    mac: bool,
}
impl<'a, 'n> Visit<'a> for Binds<'n> {
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        if p.ident == self.name {
            self.pats += 1;
        }
        visit::visit_pat_ident(self, p);
    }
    fn visit_macro(&mut self, m: &'a Macro) {
        if count(m.tokens.clone(), self.name) > 0 {
            self.mac = true;
        }
    }
}
/// every use of a local becomes a use of a field
struct ToField<'n>(&'n str, Ident);
impl<'n> VisitMut for ToField<'n> {
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        if f.colon_token.is_none() && is(&f.expr, self.0) {
            f.colon_token = Some(Default::default());
        }
        visit_mut::visit_field_value_mut(self, f);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if is(e, self.0) {
            let f = &self.1;
            *e = parse_quote!(result.#f);
            return;
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
/// `let mut x = init; ..; S { x, y }` written as `let mut result = S { x: init, y }; .. result.x ..; result`
fn in_place(b: &mut Block, sig: &Signature) -> bool {
    (|| -> Option<()> {
        struct Lit(Vec<ExprStruct>);
        impl<'a> Visit<'a> for Lit {
            fn visit_expr_struct(&mut self, s: &'a ExprStruct) {
                self.0.push(s.clone());
                visit::visit_expr_struct(self, s);
            }
        }
        if uses(b, "result") > 0 || uses(sig, "result") > 0 {
            return None;
        }
        let tail = match b.stmts.last()? {
            Stmt::Expr(e, None) => e.clone(),
            Stmt::Expr(Expr::Return(r), _) => (**r.expr.as_ref()?).clone(),
            _ => return None,
        };
        let mut l = Lit(vec![]);
        l.visit_expr(&tail);
        let n = b.stmts.len();
        let simple = |e: &Expr| match e {
            Expr::Lit(_) => true,
            Expr::Call(c) => c.args.is_empty() && txt(&c.func).ends_with("new"),
            Expr::Macro(m) => m.mac.tokens.is_empty() && m.mac.path.is_ident("vec"),
            _ => false,
        };
        if l.0.len() != 1 || l.0[0].rest.is_some() {
            return None;
        }
        let lit = &l.0[0];
        // field -> (local, statement that declares it, initial value)
        let mut moved: Vec<(Ident, String, usize, Expr)> = vec![];
        let mut other: Vec<(Ident, Expr)> = vec![];
        for f in lit.fields.iter() {
            let name = if let Member::Named(i) = &f.member { i.clone() } else { return None };
            let mut hit = None;
            if let Expr::Path(p) = &f.expr {
                if let Some(x) = p.path.get_ident() {
                    let x = x.to_string();
                    hit = b.stmts[..n - 1].iter().enumerate().find_map(|(k, s)| match s {
                        Stmt::Local(d) => {
                            let pat = if let Pat::Type(t) = &d.pat { &*t.pat } else { &d.pat };
                            match (pat, &d.init) {
                                (Pat::Ident(p), Some(i)) if p.ident == x && p.mutability.is_some() && simple(&i.expr) => Some((name.clone(), x.clone(), k, (*i.expr).clone())),
                                _ => None,
                            }
                        }
                        _ => None,
                    });
                }
            }
            match hit {
                Some(h) => moved.push(h),
                None if matches!(f.expr, Expr::Path(_) | Expr::Lit(_)) => other.push((name, f.expr.clone())),
                None => return None,
            }
        }
        let k = moved.iter().map(|m| m.2).max()?;
        for (_, x, at, _) in moved.iter() {
            let mut bi = Binds { name: x, pats: 0, mac: false };
            bi.visit_block(b);
            if bi.pats != 1 || bi.mac || b.stmts[at + 1..=k].iter().any(|s| uses(s, x) > 0) {
                return None;
            }
        }
        for (_, e) in other.iter() {
            if let Expr::Path(p) = e {
                let x = p.path.get_ident()?.to_string();
                let param = sig.inputs.iter().any(|a| matches!(a, FnArg::Typed(t) if matches!(&*t.pat, Pat::Ident(i) if i.ident == x)));
                let at = b.stmts.iter().position(|s| matches!(s, Stmt::Local(d) if matches!(&d.pat, Pat::Ident(i) if i.ident == x && i.mutability.is_none())));
                let mut bi = Binds { name: &x, pats: 0, mac: false };
                bi.visit_block(b);
                // declared once, before the place, and not needed again unless it is a parameter
                match at {
                    Some(a) if a < k && bi.pats == 1 && b.stmts[k..n - 1].iter().all(|s| uses(s, &x) == 0) && uses(&tail, &x) == 1 => {}
                    None if param && bi.pats == 0 => {}
                    _ => return None,
                }
            }
        }
        let path = &lit.path;
        let mf = moved.iter().map(|m| &m.0);
        let mv = moved.iter().map(|m| &m.3);
        let of = other.iter().map(|m| &m.0);
        let ov = other.iter().map(|m| &m.1);
        b.stmts[k] = parse_quote!(let mut result = #path { #(#mf: #mv,)* #(#of: #ov,)* };);
        struct Out;
        impl VisitMut for Out {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                if matches!(e, Expr::Struct(_)) {
                    *e = parse_quote!(result);
                    return;
                }
                visit_mut::visit_expr_mut(self, e);
            }
        }
        match b.stmts.last_mut()? {
            Stmt::Expr(e, _) => Out.visit_expr_mut(e),
            _ => return None,
        }
        for (f, x, _, _) in moved.iter() {
            for s in b.stmts[k + 1..].iter_mut() {
                ToField(x, f.clone()).visit_stmt_mut(s);
            }
        }
        let mut gone: Vec<usize> = moved.iter().map(|m| m.2).filter(|j| *j != k).collect();
        gone.sort();
        for j in gone.into_iter().rev() {
            b.stmts.remove(j);
        }
        Some(())
    })()
    .is_some()
}

pub fn pre(b: &mut Block, sig: &Signature) -> BTreeSet<String> {
    consts(b);
    Casts(Default::default()).visit_block_mut(b);
    let placed = in_place(b, sig);
    let mut maps = BTreeSet::new();
    let mut bs = Bools(BTreeSet::new());
    bs.visit_block(b);
    for a in sig.inputs.iter() {
        if let FnArg::Typed(t) = a {
            if let (Pat::Ident(p), "bool") = (&*t.pat, txt(&t.ty).as_str()) {
                bs.0.insert(p.ident.to_string());
            }
            if let (Pat::Ident(p), "Map") = (&*t.pat, crate::iter::kind_of_ty(&t.ty)) {
                maps.insert(p.ident.to_string());
            }
        }
    }
    let mut p = Pre { maps, bools: bs.0, done: BTreeSet::new(), n: 0, root: true };
    p.visit_block_mut(b);
    if placed {
        p.note("let mut x = init; ..; S { x, .. } written as let mut result = S { x: init, .. }; .. result.x ..; result");
    }
    p.done
}
