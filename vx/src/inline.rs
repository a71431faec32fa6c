//! Inlining of helpers that have no contract of their own: a call of a function of the same
//! source file that the unit knows nothing about is replaced by that function's body, so a helper
//! extracted by a refactoring is checked as part of its caller.  Parameters become substitutions
//! (borrowed places, plain variables) or lets; early returns are turned into branches.  Whatever
//! does not fit is left as the call it was (the verifier then refuses the unknown function).
use crate::Found;
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;

type Names = BTreeSet<String>;

/// names bound by patterns
struct Bound(Names);
impl<'a> Visit<'a> for Bound {
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        self.0.insert(p.ident.to_string());
        visit::visit_pat_ident(self, p);
    }
}
fn bound_in(b: &Block) -> Names {
    let mut v = Bound(Names::new());
    v.visit_block(b);
    v.0
}
fn idents<T: ToTokens>(t: &T) -> Names {
    fn go(ts: proc_macro2::TokenStream, out: &mut Names) {
        for t in ts {
            match t {
                proc_macro2::TokenTree::Ident(i) => {
                    out.insert(i.to_string());
                }
                proc_macro2::TokenTree::Group(g) => go(g.stream(), out),
                _ => {}
            }
        }
    }
    let mut n = Names::new();
    go(t.to_token_stream(), &mut n);
    n
}

/// does control leave through `return` / `?` (closures and inner items not looked into)
#[derive(Default)]
struct Leaves {
    ret: bool,
    try_: bool,
    ret_ok: bool,
    ret_other: bool,
}
impl<'a> Visit<'a> for Leaves {
    fn visit_expr_return(&mut self, r: &'a ExprReturn) {
        self.ret = true;
        let err = r.expr.as_ref().map_or(false, |e| is_err(e));
        if !err {
            self.ret_ok = true;
        }
        visit::visit_expr_return(self, r);
    }
    fn visit_expr_try(&mut self, t: &'a ExprTry) {
        self.try_ = true;
        visit::visit_expr_try(self, t);
    }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    fn visit_item(&mut self, _: &'a Item) {}
    fn visit_expr_async(&mut self, _: &'a ExprAsync) {
        self.ret_other = true;
    }
}
fn is_err(e: &Expr) -> bool {
    match e {
        Expr::Call(c) => matches!(&*c.func, Expr::Path(p) if p.path.segments.last().map_or(false, |s| s.ident == "Err")),
        Expr::Path(p) => p.path.is_ident("None"),
        Expr::Paren(p) => is_err(&p.expr),
        _ => false,
    }
}
fn leaves<'a>(s: &Stmt) -> Leaves {
    let mut l = Leaves::default();
    l.visit_stmt(s);
    l
}
fn leaves_block(b: &Block) -> Leaves {
    let mut l = Leaves::default();
    l.visit_block(b);
    l
}

fn diverges(b: &Block) -> bool {
    match b.stmts.last() {
        Some(Stmt::Expr(e, _)) => diverges_expr(e),
        _ => false,
    }
}
fn diverges_expr(e: &Expr) -> bool {
    match e {
        Expr::Return(_) => true,
        Expr::Block(b) => diverges(&b.block),
        Expr::If(i) => diverges(&i.then_branch) && i.else_branch.as_ref().map_or(false, |x| diverges_expr(&x.1)),
        Expr::Match(m) => !m.arms.is_empty() && m.arms.iter().all(|a| diverges_expr(&a.body)),
        _ => false,
    }
}

fn as_block(e: Expr) -> Block {
    match e {
        Expr::Block(b) if b.label.is_none() => b.block,
        e => Block { brace_token: Default::default(), stmts: vec![Stmt::Expr(e, None)] },
    }
}
fn block_of(stmts: Vec<Stmt>) -> Block {
    Block { brace_token: Default::default(), stmts }
}

/// the statements as a value without `return`; None if it cannot be written that way
fn conv(stmts: Vec<Stmt>, flag: &Ident) -> Option<Vec<Stmt>> {
    let at = match stmts.iter().position(|s| leaves(s).ret) {
        None => return Some(stmts),
        Some(i) => i,
    };
    let mut out: Vec<Stmt> = stmts[..at].to_vec();
    let rest: Vec<Stmt> = stmts[at + 1..].to_vec();
    match stmts[at].clone() {
        Stmt::Expr(Expr::Return(r), _) => {
            let e = r.expr?;
            if leaves(&Stmt::Expr((*e).clone(), None)).ret {
                return None;
            }
            out.push(Stmt::Expr(*e, None));
            Some(out)
        }
        Stmt::Expr(Expr::If(i), _) => {
            out.push(Stmt::Expr(conv_if(i, rest, flag)?, None));
            Some(out)
        }
        Stmt::Expr(Expr::Match(mut m), _) => {
            let open = m.arms.iter().filter(|a| !diverges_expr(&a.body)).count();
            if open > 1 && !rest.is_empty() {
                return None;
            }
            for a in m.arms.iter_mut() {
                let b = join(as_block((*a.body).clone()), &rest, flag)?;
                a.body = Box::new(parse_quote!(#b));
                a.comma = Some(Default::default());
            }
            out.push(Stmt::Expr(Expr::Match(m), None));
            Some(out)
        }
        Stmt::Local(l) => {
            let init = l.init.clone()?;
            if let Some((_, els)) = init.diverge {
                let els = conv(as_block(*els).stmts, flag)?;
                let els = block_of(els);
                let rest = block_of(conv(rest, flag)?);
                let (p, e) = (&l.pat, &init.expr);
                out.push(Stmt::Expr(parse_quote!(match #e { #p => #rest, _ => #els, }), None));
                return Some(out);
            }
            // let x = match e { a => v, b => return w }
            if let Expr::Match(mut m) = *init.expr {
                if m.arms.iter().filter(|a| !diverges_expr(&a.body)).count() != 1 {
                    return None;
                }
                let rest = conv(rest, flag)?;
                for a in m.arms.iter_mut() {
                    if diverges_expr(&a.body) {
                        let b = block_of(conv(as_block((*a.body).clone()).stmts, flag)?);
                        a.body = Box::new(parse_quote!(#b));
                    } else {
                        let (p, e) = (&l.pat, &a.body);
                        a.body = Box::new(parse_quote!({ let #p = #e; #(#rest)* }));
                    }
                    a.comma = Some(Default::default());
                }
                out.push(Stmt::Expr(Expr::Match(m), None));
                return Some(out);
            }
            None
        }
        Stmt::Expr(Expr::ForLoop(mut l), _) => {
            let tail = flag_tail(&rest)?;
            let b = &mut l.body;
            if !set_and_break(b, flag) {
                return None;
            }
            out.push(parse_quote!(let mut #flag = #tail;));
            out.push(Stmt::Expr(Expr::ForLoop(l), None));
            out.push(Stmt::Expr(parse_quote!(#flag), None));
            Some(out)
        }
        Stmt::Expr(Expr::While(mut l), _) => {
            let tail = flag_tail(&rest)?;
            if !set_and_break(&mut l.body, flag) {
                return None;
            }
            out.push(parse_quote!(let mut #flag = #tail;));
            out.push(Stmt::Expr(Expr::While(l), None));
            out.push(Stmt::Expr(parse_quote!(#flag), None));
            Some(out)
        }
        _ => None,
    }
}
fn join(b: Block, rest: &[Stmt], flag: &Ident) -> Option<Block> {
    if diverges(&b) {
        return Some(block_of(conv(b.stmts, flag)?));
    }
    if rest.is_empty() {
        return Some(block_of(conv(b.stmts, flag)?));
    }
    let mut s = vec![];
    if b.stmts.is_empty() {
    } else if !leaves_block(&b).ret && bound_in(&b).is_empty() {
        s.extend(b.stmts);
        if let Some(Stmt::Expr(_, semi)) = s.last_mut() {
            *semi = Some(Default::default());
        }
    } else if !leaves_block(&b).ret {
        s.push(Stmt::Expr(parse_quote!(#b), Some(Default::default())));
    } else if bound_in(&b).is_empty() {
        s.extend(b.stmts);
        if let Some(Stmt::Expr(_, semi)) = s.last_mut() {
            *semi = Some(Default::default());
        }
    } else {
        return None;
    }
    s.extend(rest.iter().cloned());
    Some(block_of(conv(s, flag)?))
}
fn conv_if(mut i: ExprIf, rest: Vec<Stmt>, flag: &Ident) -> Option<Expr> {
    let els = match i.else_branch.take() {
        None => block_of(vec![]),
        Some((_, e)) => as_block(*e),
    };
    if !rest.is_empty() && !diverges(&i.then_branch) && !diverges(&els) {
        return None;
    }
    let t = join(i.then_branch, &rest, flag)?;
    // else if .. : kept as such when it is all there is
    let e = match (els.stmts.len(), els.stmts.first()) {
        (1, Some(Stmt::Expr(Expr::If(j), None))) if leaves_block(&els).ret && !diverges(&els) => conv_if(j.clone(), rest, flag)?,
        _ => {
            let b = join(els, &rest, flag)?;
            parse_quote!(#b)
        }
    };
    i.then_branch = t;
    i.else_branch = Some((Default::default(), Box::new(e)));
    Some(Expr::If(i))
}
/// a loop body with its `continue`s turned into branches
pub fn without_continue(stmts: Vec<Stmt>) -> Option<Vec<Stmt>> {
    // `continue` of this loop becomes `return ()`; a return of the function is hidden meanwhile
    struct In(usize);
    impl VisitMut for In {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            match e {
                Expr::Continue(c) if c.label.is_none() && self.0 == 0 => *e = parse_quote!(return ()),
                Expr::Return(r) => {
                    let x = r.expr.clone();
                    *e = match x {
                        Some(x) => parse_quote!(vx_hidden_return!(#x)),
                        None => parse_quote!(vx_hidden_return!()),
                    };
                }
                Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) => {
                    self.0 += 1;
                    visit_mut::visit_expr_mut(self, e);
                    self.0 -= 1;
                }
                Expr::Closure(_) => {}
                _ => visit_mut::visit_expr_mut(self, e),
            }
        }
    }
    struct Out;
    impl VisitMut for Out {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            visit_mut::visit_expr_mut(self, e);
            if let Expr::Macro(m) = e {
                if m.mac.path.is_ident("vx_hidden_return") {
                    let t = &m.mac.tokens;
                    *e = if t.is_empty() { parse_quote!(return) } else { parse_quote!(return #t) };
                }
            }
        }
        fn visit_block_mut(&mut self, b: &mut Block) {
            visit_mut::visit_block_mut(self, b);
            // the unit values the rewriting left behind
            if matches!(b.stmts.last(), Some(Stmt::Expr(Expr::Tuple(t), None)) if t.elems.is_empty()) {
                b.stmts.pop();
            }
        }
        fn visit_expr_if_mut(&mut self, i: &mut ExprIf) {
            visit_mut::visit_expr_if_mut(self, i);
            let empty = matches!(&i.else_branch, Some((_, e)) if matches!(&**e, Expr::Block(b) if b.block.stmts.is_empty()));
            if empty {
                i.else_branch = None;
            } else if i.then_branch.stmts.is_empty() {
                if let Some((_, e)) = i.else_branch.take() {
                    if !matches!(&*i.cond, Expr::Let(_)) {
                        let c = &i.cond;
                        i.cond = Box::new(parse_quote!(!(#c)));
                        i.then_branch = as_block(*e);
                    } else {
                        i.else_branch = Some((Default::default(), e));
                    }
                }
            }
        }
    }
    let mut b = block_of(stmts);
    In(0).visit_block_mut(&mut b);
    let mut b = block_of(conv(b.stmts, &quote::format_ident!("vx_flag"))?);
    Out.visit_block_mut(&mut b);
    Some(b.stmts)
}
fn flag_tail(rest: &[Stmt]) -> Option<Expr> {
    match rest {
        [Stmt::Expr(e, _)] => {
            let e = if let Expr::Return(r) = e { (**r.expr.as_ref()?).clone() } else { e.clone() };
            match &e {
                Expr::Lit(_) => Some(e),
                Expr::Path(p) if p.path.is_ident("None") => Some(e),
                _ => None,
            }
        }
        _ => None,
    }
}
fn set_and_break(b: &mut Block, flag: &Ident) -> bool {
    struct R<'a>(&'a Ident, bool, usize);
    impl<'a> VisitMut for R<'a> {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            match e {
                Expr::Return(r) => {
                    if self.2 > 0 || r.expr.is_none() {
                        self.1 = false;
                        return;
                    }
                    let v = r.expr.take().unwrap();
                    let f = self.0;
                    *e = parse_quote!({ #f = #v; break; });
                }
                Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) => {
                    self.2 += 1;
                    visit_mut::visit_expr_mut(self, e);
                    self.2 -= 1;
                }
                Expr::Closure(_) => {}
                _ => visit_mut::visit_expr_mut(self, e),
            }
        }
    }
    let mut r = R(flag, true, 0);
    r.visit_block_mut(b);
    // a statement `{ f = v; break; }` reads better opened up
    struct Open;
    impl VisitMut for Open {
        fn visit_block_mut(&mut self, b: &mut Block) {
            visit_mut::visit_block_mut(self, b);
            if b.stmts.len() == 1 {
                if let Stmt::Expr(Expr::Block(x), _) = &b.stmts[0] {
                    if x.label.is_none() && x.attrs.is_empty() {
                        b.stmts = x.block.stmts.clone();
                    }
                }
            }
        }
    }
    Open.visit_block_mut(b);
    r.1
}

/// the value of a Result/Option body under `?`
fn under_try(b: Block) -> Block {
    fn tail(e: Expr) -> Expr {
        match e {
            Expr::Call(ref c) if matches!(&*c.func, Expr::Path(p) if p.path.segments.last().map_or(false, |s| s.ident == "Ok" || s.ident == "Some")) && c.args.len() == 1 => c.args[0].clone(),
            e if is_err(&e) => parse_quote!(return #e),
            Expr::If(mut i) if i.else_branch.is_some() => {
                i.then_branch = under_try(i.then_branch);
                let (t, x) = i.else_branch.take().unwrap();
                i.else_branch = Some((t, Box::new(tail(*x))));
                Expr::If(i)
            }
            Expr::Match(mut m) => {
                for a in m.arms.iter_mut() {
                    *a.body = tail((*a.body).clone());
                    a.comma = Some(Default::default());
                }
                Expr::Match(m)
            }
            Expr::Block(mut b) => {
                b.block = under_try(b.block);
                Expr::Block(b)
            }
            Expr::Return(r) => Expr::Return(r),
            e => parse_quote!((#e)?),
        }
    }
    let mut b = b;
    if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() {
        *e = tail(e.clone());
    }
    b
}

// ---------------------------------------------------------------- parameters

fn place(e: &Expr) -> bool {
    match e {
        Expr::Path(p) => p.path.get_ident().is_some(),
        Expr::Field(f) => place(&f.base),
        _ => false,
    }
}

enum By {
    Ref(Expr, bool),
    Name(Ident),
    Val(Expr),
}
struct Sub<'a>(&'a BTreeMap<String, By>);
impl<'a> Sub<'a> {
    fn get(&self, e: &Expr) -> Option<&By> {
        if let Expr::Path(p) = e {
            if let Some(i) = p.path.get_ident() {
                return self.0.get(&i.to_string());
            }
        }
        None
    }
}
impl<'a> VisitMut for Sub<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // p.method(..), p.field and *p of a borrowed place are the place itself
        match e {
            Expr::MethodCall(m) => {
                if let Some(By::Ref(p, _)) = self.get(&m.receiver) {
                    *m.receiver = p.clone();
                    for a in m.args.iter_mut() {
                        self.visit_expr_mut(a);
                    }
                    return;
                }
            }
            Expr::Field(f) => {
                if let Some(By::Ref(p, _)) = self.get(&f.base) {
                    *f.base = p.clone();
                    return;
                }
            }
            Expr::Index(f) => {
                if let Some(By::Ref(p, _)) = self.get(&f.expr) {
                    *f.expr = p.clone();
                    self.visit_expr_mut(&mut f.index);
                    return;
                }
            }
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => {
                if let Some(By::Ref(p, _)) = self.get(&u.expr) {
                    *e = p.clone();
                    return;
                }
            }
            _ => {}
        }
        let r: Option<Expr> = match self.get(e) {
            Some(By::Ref(p, true)) => Some(parse_quote!(&mut #p)),
            Some(By::Ref(p, false)) => Some(parse_quote!(&#p)),
            Some(By::Name(i)) => Some(parse_quote!(#i)),
            Some(By::Val(v)) => Some(v.clone()),
            None => None,
        };
        match r {
            Some(r) => *e = r,
            None => visit_mut::visit_expr_mut(self, e),
        }
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        if f.colon_token.is_none() && self.get(&f.expr).is_some() {
            f.colon_token = Some(Default::default());
        }
        visit_mut::visit_field_value_mut(self, f);
    }
}
/// mentions inside macros, where nothing is substituted
struct InMacros(Names, String);
impl<'a> Visit<'a> for InMacros {
    fn visit_macro(&mut self, m: &'a Macro) {
        self.0.extend(idents(&m.tokens));
        self.1.push_str(&m.tokens.to_string());
    }
}

fn plain_type(t: &Type, generics: &Generics) -> bool {
    let n = idents(t);
    !n.contains("impl") && !n.contains("Self") && generics.params.is_empty() && !t.to_token_stream().to_string().contains('\'')
}

/// body of the helper with its parameters bound to the arguments
fn bind(h: &Found, args: &[Expr]) -> Option<Block> {
    let mut body = h.block.clone()?;
    let params: Vec<&PatType> = h.sig.inputs.iter().filter_map(|a| if let FnArg::Typed(t) = a { Some(t) } else { None }).collect();
    if params.len() != args.len() {
        return None;
    }
    let locals = bound_in(&body);
    let mut mac = InMacros(Names::new(), String::new());
    mac.visit_block(&body);
    let mut subs: BTreeMap<String, By> = BTreeMap::new();
    let mut lets: Vec<(Pat, Option<Type>, Expr, String)> = vec![];
    let mutably: Vec<Names> = args.iter().filter_map(|a| if let Expr::Reference(r) = a { r.mutability.map(|_| idents(&r.expr)) } else { None }).collect();
    for (p, a) in params.iter().zip(args) {
        let (name, is_mut) = match &*p.pat {
            Pat::Ident(i) if i.by_ref.is_none() => (i.ident.to_string(), i.mutability.is_some()),
            Pat::Wild(_) => ("_".to_string(), false),
            _ => return None,
        };
        let in_macro = mac.0.contains(&name) || mac.1.contains(&format!("{{{}", name));
        let clash = idents(a).iter().any(|i| locals.contains(i));
        let free = !is_mut && !locals.contains(&name) && name != "_";
        match a {
            Expr::Path(q) if q.path.get_ident().map_or(false, |i| *i == name) && !is_mut => continue,
            Expr::Reference(r) if free && !clash && !in_macro && place(&r.expr) && matches!(&*p.ty, Type::Reference(_)) => {
                subs.insert(name, By::Ref((*r.expr).clone(), r.mutability.is_some()));
            }
            Expr::Path(q) if free && !clash && !in_macro && q.path.get_ident().is_some() && !mutably.iter().any(|m| m.contains(&q.path.get_ident().unwrap().to_string())) => {
                subs.insert(name, By::Name(q.path.get_ident().unwrap().clone()));
            }
            Expr::Lit(_) if free && !in_macro => {
                subs.insert(name, By::Val(a.clone()));
            }
            _ => {
                let ty = if plain_type(&p.ty, &h.sig.generics) { Some((*p.ty).clone()) } else { None };
                lets.push(((*p.pat).clone(), ty, a.clone(), name));
            }
        }
    }
    // a == p with p: &str and an argument that may be a &String
    let strs: Names = params
        .iter()
        .filter_map(|p| match &*p.pat {
            Pat::Ident(i) if p.ty.to_token_stream().to_string() == "& str" && !locals.contains(&i.ident.to_string()) && !lets.iter().any(|l| l.3 == i.ident.to_string()) => Some(i.ident.to_string()),
            _ => None,
        })
        .collect();
    struct Eq<'a>(&'a Names);
    impl<'a> VisitMut for Eq<'a> {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            visit_mut::visit_expr_mut(self, e);
            if let Expr::Binary(b) = e {
                let is = |x: &Expr| matches!(x, Expr::Path(p) if p.path.get_ident().map_or(false, |i| self.0.contains(&i.to_string())));
                let pair = if is(&b.right) && place(&b.left) { Some((&b.left, &b.right)) } else if is(&b.left) && place(&b.right) { Some((&b.right, &b.left)) } else { None };
                if let Some((x, y)) = pair {
                    match b.op {
                        BinOp::Eq(_) => *e = parse_quote!(#x.eq(#y)),
                        BinOp::Ne(_) => *e = parse_quote!(!#x.eq(#y)),
                        _ => {}
                    }
                }
            }
        }
    }
    if !strs.is_empty() {
        Eq(&strs).visit_block_mut(&mut body);
    }
    Sub(&subs).visit_block_mut(&mut body);
    let mut stmts: Vec<Stmt> = vec![];
    let mentioned = |n: &String| args.iter().any(|a| idents(a).contains(n));
    let temps = lets.len() > 1 && lets.iter().any(|l| mentioned(&l.3));
    if temps {
        for (k, l) in lets.iter().enumerate() {
            let (t, e) = (quote::format_ident!("vx_a{}", k), &l.2);
            stmts.push(parse_quote!(let #t = #e;));
        }
    }
    for (k, (p, ty, e, _)) in lets.iter().enumerate() {
        let e: Expr = if temps {
            let t = quote::format_ident!("vx_a{}", k);
            parse_quote!(#t)
        } else {
            e.clone()
        };
        stmts.push(match ty {
            Some(t) => parse_quote!(let #p: #t = #e;),
            None => parse_quote!(let #p = #e;),
        });
    }
    stmts.extend(body.stmts);
    body.stmts = stmts;
    Some(body)
}

// ---------------------------------------------------------------- calls

/// names that a method of the standard library could have as well
const STD: [&str; 40] = [
    "insert", "push", "get", "get_mut", "len", "clone", "iter", "contains", "contains_key", "remove", "extend", "append", "new", "default", "eq", "ne", "cmp", "hash", "fmt",
    "to_string", "to_owned", "as_ref", "as_mut", "as_str", "next", "find", "start", "end", "unwrap", "is_empty", "first", "last", "pop", "take", "replace", "map", "filter",
    "union", "keys", "values",
];
/// a helper of another type as a free function: Self spelled out, self a parameter
fn foreign(h: &Found, recv: Option<bool>) -> Option<Found> {
    struct S(String);
    impl S {
        fn go(&self, ts: proc_macro2::TokenStream) -> proc_macro2::TokenStream {
            ts.into_iter()
                .map(|t| match t {
                    proc_macro2::TokenTree::Group(g) => {
                        let mut n = proc_macro2::Group::new(g.delimiter(), self.go(g.stream()));
                        n.set_span(g.span());
                        proc_macro2::TokenTree::Group(n)
                    }
                    proc_macro2::TokenTree::Ident(i) if i == "Self" => proc_macro2::TokenTree::Ident(Ident::new(&self.0, i.span())),
                    proc_macro2::TokenTree::Ident(i) if i == "self" => proc_macro2::TokenTree::Ident(Ident::new("vx_self", i.span())),
                    t => t,
                })
                .collect()
        }
    }
    let s = S(h.owner.clone());
    let mut n = h.clone();
    n.block = Some(parse2(s.go(h.block.as_ref()?.to_token_stream())).ok()?);
    let mut sig: Signature = h.sig.clone();
    if let Some(m) = recv {
        let ty = quote::format_ident!("{}", h.owner);
        sig.inputs[0] = if m { parse_quote!(vx_self: &mut #ty) } else { parse_quote!(vx_self: &#ty) };
    }
    n.sig = parse2(s.go(sig.to_token_stream())).ok()?;
    Some(n)
}

struct Inl<'a> {
    owner: String,
    all: &'a [Found],
    known: &'a BTreeSet<String>,
    done: Vec<String>,
    depth: Vec<String>,
    flag: Option<Ident>,
    tail: bool,
}
impl<'a> Inl<'a> {
    fn target(&self, e: &Expr) -> Option<(Found, Vec<Expr>)> {
        let ok = |f: &&Found| f.block.is_some() && !self.known.contains(&f.sig.ident.to_string()) && !self.depth.contains(&f.sig.ident.to_string());
        match e {
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let s: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let (own, name) = match s.len() {
                        1 => (String::new(), s[0].clone()),
                        2 if s[0] == "Self" || s[0] == self.owner => (self.owner.clone(), s[1].clone()),
                        2 if s[0] == "self" => (String::new(), s[1].clone()),
                        // an associated function of another type of the file
                        2 if self.all.iter().any(|f| f.owner == s[0]) => {
                            let h = self.all.iter().filter(|f| f.sig.ident == s[1] && f.owner == s[0]).filter(ok).next()?;
                            if h.sig.receiver().is_some() {
                                return None;
                            }
                            return Some((foreign(h, None)?, c.args.iter().cloned().collect()));
                        }
                        _ => return None,
                    };
                    let mut hit = self.all.iter().filter(|f| f.sig.ident == name && f.owner == own).filter(ok);
                    let h = hit.next()?;
                    let mut args: Vec<Expr> = c.args.iter().cloned().collect();
                    if h.sig.receiver().is_some() {
                        if args.is_empty() {
                            return None;
                        }
                        let r = args.remove(0);
                        if r.to_token_stream().to_string() != "self" {
                            return None;
                        }
                    }
                    return Some((h.clone(), args));
                }
                None
            }
            Expr::MethodCall(m) => {
                if m.receiver.to_token_stream().to_string() != "self" {
                    // a method of another type of the file, the only one of that name
                    if !place(&m.receiver) || m.turbofish.is_some() || STD.contains(&m.method.to_string().as_str()) {
                        return None;
                    }
                    let mut hit = self.all.iter().filter(|f| f.sig.ident == m.method && f.sig.receiver().is_some());
                    let h = hit.next()?;
                    if hit.next().is_some() || h.owner.contains(':') || h.owner.starts_with("trait ") || !ok(&h) {
                        return None;
                    }
                    let r = &m.receiver;
                    let mutably = h.sig.receiver()?.reference.is_some() && h.sig.receiver()?.mutability.is_some();
                    h.sig.receiver()?.reference.as_ref()?;
                    let mut args: Vec<Expr> = vec![if mutably { parse_quote!(&mut #r) } else { parse_quote!(&#r) }];
                    args.extend(m.args.iter().cloned());
                    return Some((foreign(h, Some(mutably))?, args));
                }
                let mut hit = self.all.iter().filter(|f| f.sig.ident == m.method && f.owner == self.owner && f.sig.receiver().is_some()).filter(ok);
                let h = hit.next()?;
                if h.sig.receiver().unwrap().reference.is_none() {
                    return None;
                }
                Some((h.clone(), m.args.iter().cloned().collect()))
            }
            _ => None,
        }
    }
    fn body(&mut self, h: &Found, args: &[Expr], tail: bool, tried: bool) -> Option<Block> {
        if h.sig.asyncness.is_some() {
            return None;
        }
        let mut b = bind(h, args)?;
        let l = leaves_block(&b);
        if tail {
            // returns mean the same in the caller
        } else if tried {
            if l.ret_ok {
                let f = self.flag.clone().unwrap_or(quote::format_ident!("vx_flag"));
                b = block_of(conv(b.stmts, &f)?);
            }
            b = under_try(b);
        } else {
            if l.try_ {
                return None;
            }
            if l.ret {
                let f = self.flag.clone().unwrap_or(quote::format_ident!("vx_flag"));
                b = block_of(conv(b.stmts, &f)?);
            }
        }
        let name = h.sig.ident.to_string();
        self.done.push(name.clone());
        self.depth.push(name);
        let (t, f) = (self.tail, self.flag.take());
        self.tail = tail;
        self.visit_block_mut(&mut b);
        self.tail = t;
        self.flag = f;
        self.depth.pop();
        Some(b)
    }
    fn wrap(b: Block) -> Expr {
        match b.stmts.as_slice() {
            [Stmt::Expr(e, None)] if !matches!(e, Expr::If(_) | Expr::Match(_) | Expr::Return(_)) => parse_quote!((#e)),
            _ => {
                let s = b.stmts;
                parse_quote!('vx_inl: { #(#s)* })
            }
        }
    }
}
impl<'a> VisitMut for Inl<'a> {
    fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
    fn visit_item_mut(&mut self, _: &mut Item) {}
    fn visit_block_mut(&mut self, b: &mut Block) {
        let tail = std::mem::replace(&mut self.tail, false);
        let n = b.stmts.len();
        for (i, s) in b.stmts.iter_mut().enumerate() {
            self.tail = tail && i + 1 == n && matches!(s, Stmt::Expr(_, None));
            if let Stmt::Local(l) = s {
                if let Pat::Ident(p) = &l.pat {
                    self.flag = Some(p.ident.clone());
                }
            }
            self.visit_stmt_mut(s);
            self.flag = None;
        }
        self.tail = tail;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let tail = std::mem::replace(&mut self.tail, false);
        match e {
            Expr::If(i) => {
                self.visit_expr_mut(&mut i.cond);
                self.tail = tail;
                self.visit_block_mut(&mut i.then_branch);
                if let Some((_, x)) = i.else_branch.as_mut() {
                    self.tail = tail;
                    self.visit_expr_mut(x);
                }
                self.tail = tail;
                return;
            }
            Expr::Match(m) => {
                self.visit_expr_mut(&mut m.expr);
                for a in m.arms.iter_mut() {
                    self.tail = tail;
                    self.visit_expr_mut(&mut a.body);
                }
                self.tail = tail;
                return;
            }
            Expr::Block(x) => {
                self.tail = tail;
                self.visit_block_mut(&mut x.block);
                self.tail = tail;
                return;
            }
            Expr::Return(r) => {
                if let Some(x) = r.expr.as_mut() {
                    self.tail = true;
                    self.visit_expr_mut(x);
                }
                self.tail = tail;
                return;
            }
            Expr::Try(t) => {
                if let Some((h, mut args)) = self.target(&t.expr) {
                    for a in args.iter_mut() {
                        self.visit_expr_mut(a);
                    }
                    if let Some(b) = self.body(&h, &args, false, true) {
                        *e = Self::wrap(b);
                        self.tail = tail;
                        return;
                    }
                }
            }
            _ => {}
        }
        if let Some((h, mut args)) = self.target(e) {
            for a in args.iter_mut() {
                self.visit_expr_mut(a);
            }
            if let Some(b) = self.body(&h, &args, tail, false) {
                *e = Self::wrap(b);
                self.tail = tail;
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
        self.tail = tail;
    }
}

// ---------------------------------------------------------------- opening up the inlined blocks

struct Rename(String, Ident);
impl VisitMut for Rename {
    fn visit_ident_mut(&mut self, i: &mut Ident) {
        if *i == self.0 {
            *i = self.1.clone();
        }
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        fn go(ts: proc_macro2::TokenStream, a: &str, b: &Ident) -> proc_macro2::TokenStream {
            ts.into_iter()
                .map(|t| match t {
                    proc_macro2::TokenTree::Ident(i) if i == a => proc_macro2::TokenTree::Ident(b.clone()),
                    proc_macro2::TokenTree::Group(g) => proc_macro2::TokenTree::Group(proc_macro2::Group::new(g.delimiter(), go(g.stream(), a, b))),
                    t => t,
                })
                .collect()
        }
        m.tokens = go(m.tokens.clone(), &self.0, &self.1);
    }
}
fn marked(e: &Expr) -> bool {
    matches!(e, Expr::Block(b) if b.label.as_ref().map_or(false, |l| l.name.ident == "vx_inl"))
}
thread_local! {
    static FRESH: std::cell::Cell<usize> = Default::default();
}
/// a local of an inlined block that hides one of the caller's gets a name of its own
fn rename_own(stmts: &mut [Stmt], n: &str) -> bool {
    let first = match stmts.iter().position(|s| idents(s).contains(n)) {
        Some(k) => k,
        None => return true,
    };
    match &stmts[first] {
        Stmt::Local(l) if matches!(&l.pat, Pat::Ident(p) if p.ident == n) && !l.init.as_ref().map_or(false, |i| idents(&i.expr).contains(n)) => {}
        _ => return false,
    }
    let k = FRESH.with(|c| {
        c.set(c.get() + 1);
        c.get()
    });
    let h: BTreeMap<String, String> = [(n.to_string(), format!("{}_h{}", n, k))].into_iter().collect();
    for s in stmts.iter_mut() {
        crate::LocalRename(&h).visit_stmt_mut(s);
    }
    true
}
struct Flat<'a> {
    outer: &'a Names,
}
impl<'a> Flat<'a> {
    /// the inlined block that is evaluated first in this expression
    fn first<'b>(e: &'b mut Expr) -> Option<&'b mut Expr> {
        if marked(e) {
            return Some(e);
        }
        match e {
            Expr::Paren(p) => Self::first(&mut p.expr),
            Expr::Binary(b) => {
                let assign = b.op.to_token_stream().to_string().ends_with('=') && !matches!(b.op, BinOp::Eq(_) | BinOp::Le(_) | BinOp::Ge(_) | BinOp::Ne(_));
                if assign && place(&b.left) {
                    Self::first(&mut b.right)
                } else {
                    Self::first(&mut b.left)
                }
            }
            Expr::Unary(u) => Self::first(&mut u.expr),
            Expr::Reference(r) => Self::first(&mut r.expr),
            Expr::Cast(c) => Self::first(&mut c.expr),
            Expr::Try(t) => Self::first(&mut t.expr),
            Expr::MethodCall(m) => {
                if place(&m.receiver) && m.args.len() == 1 {
                    Self::first(&mut m.args[0])
                } else {
                    Self::first(&mut m.receiver)
                }
            }
            Expr::Assign(a) if place(&a.left) => Self::first(&mut a.right),
            Expr::Return(r) => r.expr.as_mut().and_then(|x| Self::first(x)),
            Expr::If(i) => Self::first(&mut i.cond),
            Expr::Match(m) => Self::first(&mut m.expr),
            _ => None,
        }
    }
    fn open(&self, e: &mut Expr, let_name: &[Ident]) -> Vec<Stmt> {
        let mut out = vec![];
        while let Some(x) = Self::first(e) {
            if let Expr::Block(b) = x {
                let names = bound_in(&b.block);
                let top: Names = {
                    let mut v = Bound(Names::new());
                    for s in b.block.stmts.iter() {
                        if let Stmt::Local(l) = s {
                            v.visit_pat(&l.pat);
                        }
                    }
                    v.0
                };
                let hits: Vec<String> = top.iter().filter(|n| self.outer.contains(*n) && let_name.iter().all(|l| *l != **n)).cloned().collect();
                let clash = !hits.iter().all(|n| rename_own(&mut b.block.stmts, n));
                let _ = names;
                if clash || b.block.stmts.is_empty() || !matches!(b.block.stmts.last(), Some(Stmt::Expr(_, None))) {
                    b.label = None;
                    return out;
                }
                let mut stmts = std::mem::take(&mut b.block.stmts);
                let tail = match stmts.pop() {
                    Some(Stmt::Expr(t, None)) => t,
                    _ => unreachable!(),
                };
                out.extend(stmts);
                *x = tail;
            }
        }
        out
    }
}
impl<'a> VisitMut for Flat<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        let mut out: Vec<Stmt> = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            match &mut s {
                Stmt::Local(l) => {
                    // let x = { ..; let y = ..; .. y }: y is x; also let (x, z) = { ..; (y, w) }
                    let ids: Vec<(Ident, bool)> = match &l.pat {
                        Pat::Ident(p) => vec![(p.ident.clone(), p.mutability.is_some())],
                        Pat::Tuple(t) => {
                            let v: Vec<_> = t.elems.iter().filter_map(|p| if let Pat::Ident(p) = p { Some((p.ident.clone(), p.mutability.is_some())) } else { None }).collect();
                            if v.len() == t.elems.len() { v } else { vec![] }
                        }
                        _ => vec![],
                    };
                    let names: Vec<Ident> = ids.iter().map(|x| x.0.clone()).collect();
                    if let Some(i) = l.init.as_mut() {
                        let pre = self.open(&mut i.expr, &names);
                        let vals: Vec<Expr> = match (&l.pat, &*i.expr) {
                            (Pat::Ident(_), e @ Expr::Path(_)) => vec![e.clone()],
                            (Pat::Tuple(_), Expr::Tuple(t)) => t.elems.iter().cloned().collect(),
                            _ => vec![],
                        };
                        if !pre.is_empty() && !ids.is_empty() && vals.len() == ids.len() {
                            let mut ok = true;
                            let mut done = pre.clone();
                            let mut late: Vec<Stmt> = vec![];
                            for ((x, m), v) in ids.iter().zip(vals.iter()) {
                                let y = match v {
                                    Expr::Path(p) => p.path.get_ident().cloned(),
                                    _ => None,
                                };
                                let decl = y.as_ref().and_then(|y| done.iter().position(|s| matches!(s, Stmt::Local(l) if matches!(&l.pat, Pat::Ident(p) if p.ident == *y))));
                                match (y, decl) {
                                    (Some(y), Some(d)) if y == *x || !idents(&block_of(done.clone())).contains(&x.to_string()) => {
                                        let mut r = Rename(y.to_string(), x.clone());
                                        for s in done.iter_mut() {
                                            r.visit_stmt_mut(s);
                                        }
                                        if *m {
                                            if let Stmt::Local(l) = &mut done[d] {
                                                if let Pat::Ident(p) = &mut l.pat {
                                                    p.mutability = Some(Default::default());
                                                }
                                            }
                                        }
                                    }
                                    // a value of its own, computed last
                                    _ if ids.len() > 1 && !idents(&block_of(done.clone())).contains(&x.to_string()) => {
                                        let mt: Option<Token![mut]> = if *m { Some(Default::default()) } else { None };
                                        late.push(parse_quote!(let #mt #x = #v;));
                                    }
                                    _ => ok = false,
                                }
                            }
                            // the values that are computed must not read what was renamed
                            if late.iter().any(|s| vals.iter().any(|v| if let Expr::Path(p) = v { p.path.get_ident().map_or(false, |y| idents(s).contains(&y.to_string())) } else { false })) {
                                ok = false;
                            }
                            if ok {
                                done.extend(late);
                                out.extend(done);
                                continue;
                            }
                        }
                        out.extend(pre);
                    }
                }
                Stmt::Expr(e, semi) => {
                    // a unit helper called as a statement
                    let unit = if let Expr::Block(x) = &*e { semi.is_some() && marked(e) && !matches!(x.block.stmts.last(), Some(Stmt::Expr(_, None))) } else { false };
                    if unit {
                        if let Expr::Block(x) = e {
                            let mut v = Bound(Names::new());
                            for s in x.block.stmts.iter() {
                                if let Stmt::Local(l) = s {
                                    v.visit_pat(&l.pat);
                                }
                            }
                            if v.0.iter().filter(|n| self.outer.contains(*n)).all(|n| rename_own(&mut x.block.stmts, n)) {
                                out.extend(std::mem::take(&mut x.block.stmts));
                                continue;
                            }
                        }
                    }
                    out.extend(self.open(e, &[]));
                }
                _ => {}
            }
            out.push(s);
        }
        b.stmts = out;
    }
}
struct Unmark;
impl VisitMut for Unmark {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if marked(e) {
            if let Expr::Block(b) = e {
                b.label = None;
            }
        }
        let inner = match e {
            Expr::Paren(p) if matches!(&*p.expr, Expr::Call(_) | Expr::MethodCall(_) | Expr::Path(_) | Expr::Macro(_) | Expr::Field(_) | Expr::Paren(_)) => Some((*p.expr).clone()),
            _ => None,
        };
        if let Some(i) = inner {
            *e = i;
        }
    }
}

/// `let mut y = false; ..; x = y || x` where y only ever becomes `e || y`: y is x from the start
struct Accum(bool);
impl VisitMut for Accum {
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        for i in 0..b.stmts.len() {
            let y = match &b.stmts[i] {
                Stmt::Local(l) => match (&l.pat, &l.init) {
                    (Pat::Ident(p), Some(x)) if p.mutability.is_some() && x.expr.to_token_stream().to_string() == "false" => p.ident.clone(),
                    _ => continue,
                },
                _ => continue,
            };
            // the first statement that merges y into something
            let j = match (i + 1..b.stmts.len()).find(|j| merges(&b.stmts[*j], &y).is_some()) {
                Some(j) => j,
                None => continue,
            };
            let x = merges(&b.stmts[j], &y).unwrap();
            let after = block_of(b.stmts[j + 1..].to_vec());
            let mid = block_of(b.stmts[i + 1..j].to_vec());
            if idents(&after).contains(&y.to_string()) || idents(&mid).contains(&x.to_string()) || x == y {
                continue;
            }
            // every mention of y in between is an accumulation
            let mut u = Uses(y.to_string(), 0);
            u.visit_block(&mid);
            let all = count_ident(mid.to_token_stream(), &y.to_string());
            if u.1 != all {
                continue;
            }
            let mut r = Rename(y.to_string(), x);
            for s in b.stmts[i + 1..j].iter_mut() {
                r.visit_stmt_mut(s);
            }
            b.stmts.remove(j);
            b.stmts.remove(i);
            self.0 = true;
            return self.visit_block_mut(b);
        }
    }
}
fn count_ident(ts: proc_macro2::TokenStream, n: &str) -> usize {
    ts.into_iter()
        .map(|t| match t {
            proc_macro2::TokenTree::Ident(i) => (i == n) as usize,
            proc_macro2::TokenTree::Group(g) => count_ident(g.stream(), n),
            _ => 0,
        })
        .sum()
}
fn is_id(e: &Expr, n: &Ident) -> bool {
    matches!(e, Expr::Path(p) if p.path.is_ident(&n.to_string()))
}
/// x of `x = y || x`, `x = x || y`, `x |= y`, `if y { x = true; }`
fn merges(s: &Stmt, y: &Ident) -> Option<Ident> {
    let id = |e: &Expr| if let Expr::Path(p) = e { p.path.get_ident().cloned() } else { None };
    match s {
        Stmt::Expr(Expr::Assign(a), _) => {
            let x = id(&a.left)?;
            if let Expr::Binary(b) = &*a.right {
                if matches!(b.op, BinOp::Or(_)) && (is_id(&b.left, y) && is_id(&b.right, &x) || is_id(&b.left, &x) && is_id(&b.right, y)) {
                    return Some(x);
                }
            }
            None
        }
        Stmt::Expr(Expr::Binary(b), _) if matches!(b.op, BinOp::BitOrAssign(_)) && is_id(&b.right, y) => id(&b.left),
        Stmt::Expr(Expr::If(i), _) if is_id(&i.cond, y) && i.else_branch.is_none() && i.then_branch.stmts.len() == 1 => match &i.then_branch.stmts[0] {
            Stmt::Expr(Expr::Assign(a), _) if a.right.to_token_stream().to_string() == "true" => id(&a.left),
            _ => None,
        },
        _ => None,
    }
}
/// mentions of the variable inside `v = e || v`, `v |= e`, `v = true` (e without it)
struct Uses(String, usize);
impl<'a> Visit<'a> for Uses {
    fn visit_expr(&mut self, e: &'a Expr) {
        let v = Ident::new(&self.0, proc_macro2::Span::call_site());
        let has = |x: &Expr| idents(x).contains(&self.0);
        match e {
            Expr::Assign(a) if is_id(&a.left, &v) => {
                if a.right.to_token_stream().to_string() == "true" {
                    self.1 += 1;
                }
                if let Expr::Binary(b) = &*a.right {
                    if matches!(b.op, BinOp::Or(_)) && (is_id(&b.right, &v) && !has(&b.left) || is_id(&b.left, &v) && !has(&b.right)) {
                        // `v || e` skips e once v holds: only the order e || v always evaluates e
                        if is_id(&b.right, &v) {
                            self.1 += 2;
                        }
                    }
                }
            }
            Expr::Binary(b) if matches!(b.op, BinOp::BitOrAssign(_)) && is_id(&b.left, &v) && !has(&b.right) => self.1 += 1,
            _ => {}
        }
        visit::visit_expr(self, e);
    }
}

/// opens up blocks labelled 'vx_inl
pub fn open_blocks(b: &mut Block, sig: &Signature) {
    struct Strip;
    impl VisitMut for Strip {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            if marked(e) {
                *e = parse_quote!(());
                return;
            }
            visit_mut::visit_expr_mut(self, e);
        }
    }
    let mut rest = b.clone();
    Strip.visit_block_mut(&mut rest);
    let mut outer: Names = idents(&rest);
    outer.extend(idents(&sig.inputs));
    Flat { outer: &outer }.visit_block_mut(b);
    Unmark.visit_block_mut(b);
}

pub fn inline_unknown(b: &mut Block, f: &Found, all: Vec<Found>, known: &BTreeSet<String>) -> Vec<String> {
    let outer = idents(&*b);
    let mut i = Inl { owner: f.owner.split(':').next().unwrap().to_string(), all: &all, known, done: vec![], depth: vec![f.sig.ident.to_string()], flag: None, tail: true };
    let mut nb = b.clone();
    i.visit_block_mut(&mut nb);
    if i.done.is_empty() {
        return vec![];
    }
    let mut params = outer;
    params.extend(idents(&f.sig.inputs));
    Flat { outer: &params }.visit_block_mut(&mut nb);
    Accum(false).visit_block_mut(&mut nb);
    Unmark.visit_block_mut(&mut nb);
    let _ = quote!();
    *b = nb;
    i.done
}
