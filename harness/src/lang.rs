//! parsers against a reference interpreter (C05) and against derivations (C06)
use crate::fw::*;
use crate::gram::*;
use crate::tree::{mk_token, tok_eq, tree_of, T};
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;
use syntaxis::runtime::token::Token;
use syntaxis::tool::grammar::{Production, ProductionItem as It};
use syntaxis::tool::parser::ll1_parser::LL1Parser;
use syntaxis::tool::v1::syntaxis_parser::SyntaxisParser;
#[allow(unused_imports)]
use syntaxis::runtime::ast::to_rule::ToRule;

type Table = BTreeMap<(usize, usize), (usize, Vec<It>)>;

/// why the table-driven parse does not succeed: no token or no predicted production, or too deep to tell
#[derive(PartialEq)]
enum Stop { Stuck, Fuel }

/// reference: predicted production at every node, leaves are the tokens
fn ref_parse(tab: &Table, g: &G, toks: &[Token], cur: usize, rule: usize, fuel: usize) -> Result<(T, usize), Stop> {
    if fuel == 0 { return Err(Stop::Fuel); }
    if cur >= toks.len() { return Err(Stop::Stuck); }
    let (_, rhs) = tab.get(&(rule, toks[cur].token_type)).ok_or(Stop::Stuck)?;
    let mut cs = vec![];
    let mut k = cur;
    for x in rhs {
        match x {
            It::Terminal(_) => {
                if k >= toks.len() { return Err(Stop::Stuck); }
                cs.push(T::Leaf(toks[k].clone()));
                k += 1;
            }
            It::NonTerminal(r) => {
                let (t, k2) = ref_parse(tab, g, toks, k, *r, fuel - 1)?;
                k = k2;
                if g.named.contains(r) { cs.push(t) } else if let T::Node(_, _, c2) = t { cs.extend(c2) }
            }
        }
    }
    let name = if g.named.contains(&rule) { g.name(rule) } else { rule.to_string() };
    Ok((T::Node(rule, name, cs), k))
}

fn real_table(tab: &Table) -> HashMap<(usize, usize), Rc<Production>> {
    tab.iter().map(|(k, (l, r))| (*k, Rc::new(Production { left: *l, right: r.clone() }))).collect()
}

fn leaves(t: &T, out: &mut Vec<Token>) {
    match t { T::Leaf(x) | T::Err(x) => out.push(x.clone()), T::Node(_, _, c) => for x in c { leaves(x, out) } }
}


fn real_parse(g: &G, tab: &Table, toks: &[Token], which: usize) -> T {
    let gr = g.build();
    let got = if which == 0 {
        LL1Parser::new(toks.to_vec(), real_table(tab), gr).parse()
    } else {
        let p = SyntaxisParser::new(toks.to_vec(), real_table(tab), gr.vocabulary);
        match which {
            1 => p.parse(),
            2 => p.rule_list().as_rule().clone(),
            3 => p.parser_rule().as_rule().clone(),
            4 => p.block().as_rule().clone(),
            5 => p.alternative().as_rule().clone(),
            6 => p.epsilon().as_rule().clone(),
            7 => p.element().as_rule().clone(),
            8 => p.ebnf_suffix().as_rule().clone(),
            9 => p.lexer_rule().as_rule().clone(),
            _ => p.regular().as_rule().clone(),
        }
    };
    tree_of(&got)
}

fn check05(g: &G, tab: &Table, toks: &[Token], which: usize, start: usize) -> Result<bool, String> {
    let (want, used) = match ref_parse(tab, g, toks, 0, start, if g.prods.len() > 25 { 1000 } else { 40 }) {
        Ok(x) => x,
        Err(Stop::Fuel) => return Ok(false),
        Err(Stop::Stuck) => {
            // no production is predicted somewhere: whatever is returned has a node without one
            return match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| real_parse(g, tab, toks, which))) {
                Err(_) => Ok(false),
                Ok(t) => Err(format!("returned {:?} although some node has no predicted production or no token is left", t)),
            };
        }
    };
    let got = real_parse(g, tab, toks, which);
    let mut ls = vec![];
    leaves(&got, &mut ls);
    eq("number of leaves", ls.len(), used)?;
    for (i, (a, b)) in ls.iter().zip(toks.iter()).enumerate() {
        if !tok_eq(a, b) { return Err(format!("leaf {} is {:?}, the token there is {:?}", i, a, b)); }
    }
    eq("tree", got, want)?;
    Ok(used >= 2)
}

/// token types chosen while the table is followed, so that most parses get far
fn guided(rng: &mut Rng, tab: &Table, rule: usize, types: &[usize], toks: &mut Vec<usize>, cur: &mut usize, fuel: &mut usize) {
    if *fuel == 0 { return; }
    *fuel -= 1;
    if *cur == toks.len() {
        let have: Vec<usize> = tab.range((rule, 0)..=(rule, usize::MAX)).map(|x| x.0 .1).collect();
        toks.push(if have.is_empty() { *rng.pick(types) } else { *rng.pick(&have) });
    }
    if let Some((_, rhs)) = tab.get(&(rule, toks[*cur])) {
        for x in rhs.clone() {
            match x {
                It::Terminal(t) => { if *cur == toks.len() { toks.push(if rng.chance(80) { t } else { *rng.pick(types) }); } *cur += 1; }
                It::NonTerminal(r) => guided(rng, tab, r, types, toks, cur, fuel),
            }
        }
    }
}

/// a rule-shape with every id the bootstrapped parser offers
fn ids9(g: &mut G) {
    let have = g.nts();
    for i in 0..9 { if !have.contains(&i) { g.named.push(i); } }
}

pub fn c05(c: &mut Ctx) {
    c.rule = "parse tables (LL(1) ones and arbitrary ones) and token sequences on which the parse returns, for both parsers and every entry point; non-trivial: two or more tokens consumed".into();
    for g in shape_gs() {
        let f = ref_first(&g);
        let fo = ref_follow(&g, &f);
        let mut tab = Table::new();
        for (l, r) in g.prods.iter() { let (e, mut s) = first_of(&f, r); if e { s.extend(fo[l].iter().cloned()); } for t in s { tab.insert((*l, t), (*l, r.clone())); } }
        let (mut types, mut size) = (vec![], 0);
        if derive(&mut c.rng, &g, 0, 1000, &mut types, &mut size, 5000).is_none() { continue; }
        types.push(1);
        let toks: Vec<Token> = types.iter().enumerate().map(|(i, ty)| mk_token(&mut c.rng, *ty, i)).collect();
        for which in 0..2 { c.case(format!("parser {} start R0; {}; token types {:?}", which, g.desc(), types), || check05(&g, &tab, &toks, which, 0)); }
    }
    let n = if c.thorough { 600000 } else { 120000 };
    for k in 0..n {
        if !c.time_left() { break; }
        let mut g = random_g(&mut c.rng, k % 3 == 0);
        let which = if k % 2 == 0 { 0 } else { c.rng.below(11) };
        if which >= 2 { ids9(&mut g); let all: Vec<usize> = (0..9).collect();
            // give the offered rules productions
            for r in all { if c.rng.chance(60) { let len = c.rng.below(4); let rhs: Vec<It> = (0..len).map(|_| if c.rng.chance(40) { It::NonTerminal(c.rng.below(9)) } else { It::Terminal(*c.rng.pick(&g.terms)) }).collect(); g.prods.push((r, rhs)); } } }
        let start = match which { 0 | 1 | 2 => 0, w => w - 2 };
        let mut types = g.terms.clone();
        types.push(1);
        let mut tab = Table::new();
        if k % 4 < 2 {
            let f = ref_first(&g);
            let fo = ref_follow(&g, &f);
            for (l, r) in g.prods.iter() {
                let (e, mut s) = first_of(&f, r);
                if e { s.extend(fo[l].iter().cloned()); }
                for t in s { tab.insert((*l, t), (*l, r.clone())); }
            }
        } else {
            for r in g.nts() { for t in types.iter() { if c.rng.chance(80) {
                let ps: Vec<_> = g.prods.iter().filter(|p| p.0 == r).collect();
                if !ps.is_empty() { let p = (*c.rng.pick(&ps)).clone(); tab.insert((r, *t), p); }
            } } }
        }
        let len = if k % 50 == 7 { 10 + c.rng.below(120) } else { 1 + c.rng.below(9) };
        let mut tys = vec![];
        if k % 10 < 7 { let (mut cur, mut fuel) = (0, 60); guided(&mut c.rng, &tab, start, &types, &mut tys, &mut cur, &mut fuel); if tys.is_empty() || c.rng.chance(70) { tys.push(1) } }
        else { for _ in 0..len { tys.push(*c.rng.pick(&types)) } }
        let toks: Vec<Token> = tys.into_iter().enumerate().map(|(i, ty)| mk_token(&mut c.rng, ty, i)).collect();
        let d = format!("parser {} start R{}; {}; table {:?}; token types {:?}", which, start, g.desc(), tab, toks.iter().map(|t| t.token_type).collect::<Vec<_>>());
        c.case(d, || check05(&g, &tab, &toks, which, start));
    }
}

fn derive(rng: &mut Rng, g: &G, rule: usize, depth: usize, toks: &mut Vec<usize>, size: &mut usize, max: usize) -> Option<T> {
    if depth == 0 || *size > max { return None; }
    *size += 1;
    let ps: Vec<&(usize, Vec<It>)> = g.prods.iter().filter(|p| p.0 == rule).collect();
    if ps.is_empty() { return None; }
    let p = if depth < 5 { ps.iter().min_by_key(|p| p.1.iter().filter(|x| matches!(x, It::NonTerminal(_))).count()).unwrap() } else { *rng.pick(&ps.iter().collect::<Vec<_>>()) };
    let mut cs = vec![];
    for x in p.1.iter() {
        match x {
            It::Terminal(t) => {
                let i = toks.len();
                toks.push(*t);
                cs.push(T::Leaf(mk_token(&mut Rng(i as u64), *t, i)));
            }
            It::NonTerminal(r) => {
                let t = derive(rng, g, *r, depth - 1, toks, size, max)?;
                if g.named.contains(r) { cs.push(t) } else if let T::Node(_, _, c2) = t { cs.extend(c2) }
            }
        }
    }
    let name = if g.named.contains(&rule) { g.name(rule) } else { rule.to_string() };
    Some(T::Node(rule, name, cs))
}

pub fn conflict_free(g: &G) -> bool {
    let f = ref_first(g);
    let fo = ref_follow(g, &f);
    let mut seen = std::collections::BTreeSet::new();
    for (l, r) in g.prods.iter() {
        let (e, mut s) = first_of(&f, r);
        if e { s.extend(fo[l].iter().cloned()); }
        for t in s { if !seen.insert((*l, t)) { return false; } }
    }
    true
}

fn check06(g: &G, types: &[usize], want: &T) -> Result<bool, String> {
    let mut toks: Vec<Token> = types.iter().enumerate().map(|(i, t)| mk_token(&mut Rng(i as u64), *t, i)).collect();
    toks.push(mk_token(&mut Rng(7), 1, types.len()));
    for which in 0..2 {
        let gr = g.build();
        let (f, pf) = gr.first_set();
        let fo = gr.follow_set(&f);
        let table = gr.ll1_table(&pf, &fo);
        let got = if which == 0 { LL1Parser::new(toks.clone(), table, gr).parse() } else { SyntaxisParser::new(toks.clone(), table, gr.vocabulary).parse() };
        eq("tree of the sentence", tree_of(&got), want.clone())?;
    }
    Ok(types.len() >= 2)
}

pub fn c06(c: &mut Ctx) {
    c.rule = "random sentences (by random derivation) of random conflict-free grammars; non-trivial: two or more tokens".into();
    for g in shape_gs() {
        if !conflict_free(&g) { continue; }
        for _ in 0..2 {
            let (mut toks, mut size) = (vec![], 0);
            if let Some(t) = derive(&mut c.rng, &g, 0, 1000, &mut toks, &mut size, 5000) { c.case(format!("{}; sentence {:?}", g.desc(), toks), || check06(&g, &toks, &t)); }
        }
    }
    let n = if c.thorough { 2000000 } else { 60000 };
    for k in 0..n {
        if !c.time_left() { break; }
        let mut g = random_g(&mut c.rng, k % 3 == 0);
        if k % 2 == 0 {
            // make conflicts rarer: distinct leading terminals
            for (i, p) in g.prods.iter_mut().enumerate() { if c.rng.chance(60) && !p.1.is_empty() { let t = 10 + i; p.1.insert(0, It::Terminal(t)); g.terms.push(t); } }
            let mut v: Vec<(usize, Vec<It>)> = vec![];
            for p in g.prods.iter() { if !v.contains(p) { v.push(p.clone()); } }
            g.prods = v;
        }
        if !conflict_free(&g) { continue; }
        for _ in 0..4 {
            let mut toks = vec![];
            let mut size = 0;
            if let Some(t) = derive(&mut c.rng, &g, 0, 12, &mut toks, &mut size, 60) {
                c.case(format!("{}; sentence {:?}", g.desc(), toks), || check06(&g, &toks, &t));
            }
        }
    }
}
