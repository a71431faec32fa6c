use crate::fw::*;
use syntaxis::runtime::ast::{ast_context::ASTContext, error_context::ErrorContext, rule_context::RuleContext, terminal_context::TerminalContext};
use syntaxis::runtime::token::{Position, Token};

#[derive(Clone)]
pub enum T { Leaf(Token), Err(Token), Node(usize, String, Vec<T>) }

pub fn tok_eq(a: &Token, b: &Token) -> bool {
    a.token_type == b.token_type && a.token_name == b.token_name && a.text == b.text && a.channel == b.channel
        && a.token_index == b.token_index && a.char_start_index == b.char_start_index && a.char_stop_index == b.char_stop_index
        && a.start.line == b.start.line && a.start.char_position == b.start.char_position
        && a.stop.line == b.stop.line && a.stop.char_position == b.stop.char_position
}
impl PartialEq for T {
    fn eq(&self, o: &T) -> bool {
        match (self, o) {
            (T::Leaf(a), T::Leaf(b)) | (T::Err(a), T::Err(b)) => tok_eq(a, b),
            (T::Node(a, b, c), T::Node(x, y, z)) => a == x && b == y && c == z,
            _ => false,
        }
    }
}
impl std::fmt::Debug for T {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            T::Leaf(t) => write!(f, "t{}#{}{:?}@{}..{}", t.token_type, t.token_index, t.text, t.char_start_index, t.char_stop_index),
            T::Err(t) => write!(f, "ERR t{}#{}{:?}@{}..{}", t.token_type, t.token_index, t.text, t.char_start_index, t.char_stop_index),
            T::Node(r, n, c) => { write!(f, "R{}={:?}(", r, n)?; for x in c { write!(f, "{:?} ", x)?; } write!(f, ")") }
        }
    }
}
pub fn child_of(c: &ASTContext) -> T {
    match c {
        ASTContext::Terminal(t) => T::Leaf(t.symbol.clone()),
        ASTContext::Error(t) => T::Err(t.symbol.clone()),
        ASTContext::Rule(r) => tree_of(r),
    }
}
pub fn tree_of(r: &RuleContext) -> T { T::Node(r.rule_index, r.rule_name.clone(), r.children.iter().map(child_of).collect()) }
pub fn to_child(t: &T) -> ASTContext {
    match t {
        T::Leaf(x) => ASTContext::Terminal(TerminalContext { symbol: x.clone() }),
        T::Err(x) => ASTContext::Error(ErrorContext { symbol: x.clone() }),
        T::Node(..) => ASTContext::Rule(to_rule(t)),
    }
}
pub fn to_rule(t: &T) -> RuleContext {
    match t {
        T::Node(r, n, c) => RuleContext { rule_index: *r, rule_name: n.clone(), children: c.iter().map(to_child).collect() },
        _ => panic!("oracle: not a node"),
    }
}
pub fn mk_token(rng: &mut Rng, ty: usize, i: usize) -> Token {
    let mut t = Token {
        token_type: ty, token_name: rng.dstr(10).or_else(|| rng.odd(12)).unwrap_or(format!("T{}", ty)), text: rng.dstr(20).or_else(|| rng.odd(25)).unwrap_or(format!("x{}", i)),
        channel: if rng.chance(5) { *rng.pick(&FAR) } else { rng.below(2) }, token_index: i,
        start: Position { line: if rng.chance(20) { 0 } else { i }, char_position: if rng.chance(20) { 0 } else { rng.below(50) } }, stop: Position { line: if rng.chance(10) { i + 1 } else { i }, char_position: if rng.chance(10) { 0 } else { 60 + rng.below(9) } },
        char_start_index: 10 * i, char_stop_index: 10 * i + rng.below(10),
    };
    if rng.chance(6) { t.text = t.token_name.clone(); }
    if rng.chance(2) { t.text = ty.to_string(); }
    t
}

/// random tree: few types so that kinds collide; `leafy` pct of non-rule children
pub fn random_tree(rng: &mut Rng, depth: usize, types: usize, next: &mut usize) -> T {
    let n = if rng.chance(3) { 6 + rng.below(20) } else { rng.below(6) };
    let mut cs = vec![];
    for _ in 0..n {
        let k = rng.below(10);
        if k < 4 && depth > 0 { cs.push(random_tree(rng, depth - 1, types, next)); }
        else {
            let ty = rng.dint(10).unwrap_or(rng.below(types));
            let t = mk_token(rng, ty, *next);
            *next += 1;
            cs.push(if k == 9 { T::Err(t) } else { T::Leaf(t) });
        }
        // now and then the very same child again, once or twice, as the same or another kind of leaf
        while rng.chance(8) {
            let again = match cs.last().unwrap() {
                T::Leaf(t) if rng.chance(30) => T::Err(t.clone()),
                T::Err(t) if rng.chance(30) => T::Leaf(t.clone()),
                x => x.clone(),
            };
            cs.push(again);
        }
    }
    let r = match rng.dint(10) { Some(r) => r, None if rng.chance(4) => *rng.pick(&FAR), None => rng.below(types) };
    let name = rng.dstr(10).or_else(|| rng.odd(15)).unwrap_or(format!("r{}", r));
    T::Node(r, name, cs)
}
/// long, deep and wide trees
pub fn shapes(rng: &mut Rng, types: usize) -> Vec<T> {
    let mut out = vec![];
    for n in sizes(&[17, 70, 300], 20_000) {
        let leaf = |rng: &mut Rng, i: usize| { let ty = i % types; let t = mk_token(rng, ty, i); if i % 7 == 3 { T::Err(t) } else { T::Leaf(t) } };
        out.push(T::Node(1 % types, "wide".into(), (0..n).map(|i| leaf(rng, i)).collect()));
        out.push(T::Node(1 % types, "wide".into(), (0..n).map(|i| T::Node(i % types, "r".into(), vec![leaf(rng, i)])).collect()));
        out.push(T::Node(1 % types, "wide".into(), (0..n).map(|i| if i % 3 == 0 { T::Node(i % types, "r".into(), vec![]) } else { leaf(rng, i) }).collect()));
        let mut t = T::Node(0, "end".into(), vec![leaf(rng, 5)]);
        for i in 0..n.min(700) { t = T::Node(i % types, "r".into(), if i % 2 == 0 { vec![t] } else { vec![t, leaf(rng, i)] }); }
        out.push(t);
    }
    out
}

fn check10(t: &T, types: usize) -> Result<bool, String> {
    let r = to_rule(t);
    let cs = match t { T::Node(_, _, c) => c, _ => unreachable!() };
    eq("number of children", r.get_child_count(), cs.len())?;
    eq("children", r.get_children().iter().map(child_of).collect::<Vec<_>>(), cs.clone())?;
    if let T::Node(i, _, _) = t { eq("rule index", r.get_rule_index(), *i)?; }
    let mut nt = false;
    let mut all: Vec<usize> = (0..types + 1).collect();
    for c in cs { let ty = match c { T::Leaf(x) | T::Err(x) => x.token_type, T::Node(x, _, _) => *x }; if !all.contains(&ty) { all.push(ty) } }
    let far = if cs.len() > 40 { vec![0, 1, cs.len() / 3, cs.len() - 1, cs.len()] } else { (0..cs.len() + 2).collect() };
    for ty in all {
        let a: Vec<T> = cs.iter().filter(|c| matches!(c, T::Leaf(x) if x.token_type == ty)).cloned().collect();
        let b: Vec<T> = cs.iter().filter(|c| matches!(c, T::Err(x) if x.token_type == ty)).cloned().collect();
        let d: Vec<T> = cs.iter().filter(|c| matches!(c, T::Node(x, _, _) if *x == ty)).cloned().collect();
        nt |= a.len() + b.len() + d.len() > 1;
        eq(&format!("terminals of type {}", ty), r.get_terminals(ty).iter().map(|x| T::Leaf(x.symbol.clone())).collect(), a.clone())?;
        eq(&format!("error nodes of type {}", ty), r.get_errornodes(ty).iter().map(|x| T::Err(x.symbol.clone())).collect(), b.clone())?;
        eq(&format!("sub-rules of type {}", ty), r.get_rule_contexts(ty).iter().map(|x| tree_of(x)).collect(), d.clone())?;
        for i in far.iter().cloned() {
            eq(&format!("terminal {} of type {}", i, ty), r.get_terminal(ty, i).map(|x| T::Leaf(x.symbol.clone())), a.get(i).cloned())?;
            eq(&format!("error node {} of type {}", i, ty), r.get_errornode(ty, i).map(|x| T::Err(x.symbol.clone())), b.get(i).cloned())?;
            eq(&format!("sub-rule {} of type {}", i, ty), r.get_rule_context(ty, i).map(|x| tree_of(x)), d.get(i).cloned())?;
        }
        eq("far index", r.get_terminal(ty, usize::MAX).is_none() && r.get_errornode(ty, usize::MAX).is_none() && r.get_rule_context(ty, usize::MAX).is_none(), true)?;
    }
    Ok(nt)
}

pub fn c10(c: &mut Ctx) {
    c.rule = "random trees over few node numbers; non-trivial: several children share kind or number".into();
    let n = if c.thorough { 300000 } else { 12000 };
    for k in 0..n {
        if !c.time_left() { break; }
        let types = 1 + k % 4;
        let mut next = 0;
        let t = random_tree(&mut c.rng, 2, types, &mut next);
        c.case(format!("{:?}", t), || check10(&t, types));
    }
    for t in shapes(&mut c.rng, 3) { c.case(format!("{:?}", t), || check10(&t, 3)); }
}

fn leaves<'a>(t: &'a T, out: &mut Vec<&'a Token>) {
    match t { T::Leaf(x) | T::Err(x) => out.push(x), T::Node(_, _, c) => for x in c { leaves(x, out) } }
}
pub fn relay(t: &mut T, input: &str, rng: &mut Rng, cuts: &mut Vec<usize>) {
    // give the leaves increasing spans over the input
    match t {
        T::Leaf(x) | T::Err(x) => { let a = cuts.remove(0); let b = if rng.chance(20) { a } else { cuts[0] }; x.char_start_index = a; x.char_stop_index = b; x.text = match rng.odd(15) { Some(s) => s, None => input[a..b].to_string() }; }
        T::Node(_, _, c) => for x in c { relay(x, input, rng, cuts) },
    }
}

fn first_last(t: &T) -> Result<bool, String> {
    let r = to_rule(t);
    let mut ls = vec![];
    leaves(t, &mut ls);
    eq("start token", r.get_start_token().map(T::Leaf), ls.first().map(|x| T::Leaf((*x).clone())))?;
    eq("stop token", r.get_stop_token().map(T::Leaf), ls.last().map(|x| T::Leaf((*x).clone())))?;
    Ok(ls.len() > 1)
}
fn check11(t: &T, input: &str) -> Result<bool, String> {
    let r = to_rule(t);
    let mut ls = vec![];
    leaves(t, &mut ls);
    let f = r.get_start_token();
    let l = r.get_stop_token();
    eq("start token", f.map(T::Leaf), ls.first().map(|x| T::Leaf((*x).clone())))?;
    eq("stop token", l.map(T::Leaf), ls.last().map(|x| T::Leaf((*x).clone())))?;
    let want = match (ls.first(), ls.last()) { (Some(a), Some(b)) => &input[a.char_start_index..b.char_stop_index], _ => "" };
    eq("text", r.get_text(input), want)?;
    if let T::Node(_, _, c) = t { for x in c { if let T::Node(..) = x { check11(x, input)?; } } }
    Ok(ls.len() > 1)
}

pub fn c11(c: &mut Ctx) {
    c.rule = "random trees, with empty sub-rules, whose leaves lie on an input with multi-byte characters; non-trivial: two or more leaves".into();
    let n = if c.thorough { 400000 } else { 15000 };
    for k in 0..n {
        if !c.time_left() { break; }
        let mut next = 0;
        let mut t = random_tree(&mut c.rng, 1 + k % 3, 3, &mut next);
        let input = spans(&mut t, &mut c.rng);
        c.case(format!("{:?} over {:?}", t, input), || check11(&t, &input));
        // the tokens in any order
        if k % 5 == 0 { scatter(&mut t, &mut c.rng); c.case(format!("first and last token of {:?}", t), || first_last(&t)); }
    }
    for mut t in shapes(&mut c.rng, 3) {
        let input = spans(&mut t, &mut c.rng);
        c.case(format!("{:?} over {:?}", t, input), || check11(&t, &input));
    }
}
fn scatter(t: &mut T, rng: &mut Rng) {
    match t {
        T::Leaf(x) | T::Err(x) => { x.char_start_index = rng.below(40); x.char_stop_index = rng.below(40); x.token_index = rng.below(9); x.start.line = rng.below(9); x.stop.line = rng.below(9); }
        T::Node(_, _, c) => for x in c { scatter(x, rng) },
    }
}
/// gives the leaves of the tree increasing spans over a random text
fn spans(t: &mut T, rng: &mut Rng) -> String {
    let mut n = vec![];
    leaves(t, &mut n);
    let next = n.len();
    let mut input = String::new();
    for _ in 0..next + 2 { for _ in 0..1 + rng.below(3) { match rng.dstr(15) { Some(s) => input.push_str(&s), None => input.push(*rng.pick(&['a', 'é', '\n', 'ε', '`', '𝒳', ' ', '\r'])) } } }
    let mut cuts: Vec<usize> = input.char_indices().map(|x| x.0).chain(Some(input.len())).collect();
    while cuts.len() < next + 1 { cuts.push(input.len()) }
    while cuts.len() > next + 1 { let i = rng.below(cuts.len()); cuts.remove(i); }
    relay(t, &input, rng, &mut cuts);
    input
}
