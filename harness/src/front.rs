use crate::fw::*;
use crate::tree::{child_of, mk_token, random_tree, shapes, to_rule, tree_of, T};
use std::any::Any;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use syntaxis::runtime::ast::{ast_context::ASTContext, error_context::ErrorContext, rule_context::RuleContext, terminal_context::TerminalContext};
use syntaxis::runtime::lexer::Lexer;
use syntaxis::runtime::token::Token;
use syntaxis::runtime::vocabulary::Vocabulary;
use syntaxis::tool::grammar::{Grammar, Production, ProductionItem as It};
use syntaxis::tool::syntaxis as old;
use syntaxis::tool::v1;
use syntaxis::tool::visitor::grammar_visitor::{ProductionVisitor, StringLiteralToTokenVisitor, SymbolVisitor};
use syntaxis::tool::visitor::lexer_rule_visitor::{LexerRuleData, LexerRuleVisitor, StringLiteralVisitor};

// ---------------------------------------------------------------- C12
fn leaf(o: Option<&TerminalContext>) -> Option<T> { o.map(|t| T::Leaf(t.symbol.clone())) }
fn leaves(v: Vec<&TerminalContext>) -> Vec<T> { v.into_iter().map(|t| T::Leaf(t.symbol.clone())).collect() }
fn ts(cs: &[T], ty: usize) -> Vec<T> { cs.iter().filter(|c| matches!(c, T::Leaf(x) if x.token_type == ty)).cloned().collect() }
fn rs(cs: &[T], ty: usize) -> Vec<T> { cs.iter().filter(|c| matches!(c, T::Node(x, _, _) if *x == ty)).cloned().collect() }

macro_rules! acc12 {
    ($m:ident, $name:expr, $r:expr, $cs:expr) => {{
        use $m::syntaxis_context as x;
        use $m::syntaxis_lexer::SyntaxisLexer as L;
        use $m::syntaxis_parser::SyntaxisParser as P;
        let (r, cs): (&RuleContext, &[T]) = ($r, $cs);
        macro_rules! t1 { ($tr:ident, $f:ident, $c:ident) => { eq(concat!($name, " ", stringify!($tr), "::", stringify!($f)), leaf(x::$tr::$f(r)), ts(cs, L::$c).first().cloned())?; }; }
        macro_rules! tl { ($tr:ident, $f:ident, $c:ident) => { eq(concat!($name, " ", stringify!($tr), "::", stringify!($f)), leaves(x::$tr::$f(r)), ts(cs, L::$c))?; }; }
        macro_rules! r1 { ($tr:ident, $f:ident, $c:ident) => { eq(concat!($name, " ", stringify!($tr), "::", stringify!($f)), x::$tr::$f(r).map(|y| tree_of(y.as_rule())), rs(cs, P::$c).first().cloned())?; }; }
        macro_rules! rl { ($tr:ident, $f:ident, $c:ident) => { eq(concat!($name, " ", stringify!($tr), "::", stringify!($f)), x::$tr::$f(r).into_iter().map(|y| tree_of(y.as_rule())).collect(), rs(cs, P::$c))?; }; }
        rl!(RuleListContext, parser_rule_list, PARSER_RULE);
        rl!(RuleListContext, lexer_rule_list, LEXER_RULE);
        t1!(ParserRuleContext, rule_ref, RULE_REF);
        t1!(ParserRuleContext, colon, COLON);
        r1!(ParserRuleContext, block, BLOCK);
        t1!(ParserRuleContext, semi, SEMI);
        rl!(BlockContext, alternative_list, ALTERNATIVE);
        tl!(BlockContext, or_list, OR);
        rl!(AlternativeContext, element_list, ELEMENT);
        r1!(AlternativeContext, epsilon, EPSILON);
        t1!(EpsilonContext, epsilon, EPSILON);
        t1!(ElementContext, token_ref, TOKEN_REF);
        t1!(ElementContext, string_literal, STRING_LITERAL);
        t1!(ElementContext, rule_ref, RULE_REF);
        t1!(ElementContext, lparen, LPAREN);
        t1!(ElementContext, rparen, RPAREN);
        r1!(ElementContext, block, BLOCK);
        r1!(ElementContext, ebnf_suffix, EBNF_SUFFIX);
        t1!(EbnfSuffixContext, star, STAR);
        t1!(EbnfSuffixContext, plus, PLUS);
        tl!(EbnfSuffixContext, question_list, QUESTION);
        t1!(LexerRuleContext, token_ref, TOKEN_REF);
        t1!(LexerRuleContext, colon, COLON);
        t1!(LexerRuleContext, semi, SEMI);
        r1!(LexerRuleContext, regular, REGULAR);
        t1!(RegularContext, regular_literal, REGULAR_LITERAL);
    }};
}

/// what the bootstrapped parser's entry points hand out: each accessor against the bootstrapped lexer's numbers
fn entry12(cs: &[T], which: usize) -> Result<(), String> {
    use v1::syntaxis_lexer::SyntaxisLexer as L;
    use v1::syntaxis_parser::SyntaxisParser as P;
    // one production whose symbols are the children; sub-rules produce one fixed token
    let mut toks: Vec<Token> = vec![];
    let mut rhs = vec![];
    for c in cs {
        match c {
            T::Leaf(t) => { rhs.push(It::Terminal(t.token_type)); toks.push(t.clone()); }
            T::Node(r, _, _) => { rhs.push(It::NonTerminal(*r)); let n = toks.len(); toks.push(mk_token(&mut Rng(1), 99, n)); }
            T::Err(_) => {}
        }
    }
    toks.push(mk_token(&mut Rng(1), 1, 1000));
    let mut table: HashMap<(usize, usize), Rc<Production>> = HashMap::new();
    let mut voc = Vocabulary::new();
    for r in 0..10 { voc.add_named_nonterminal(r, &format!("r{}", r)); }
    for r in 0..10 { table.insert((r, 99), Rc::new(Production { left: r, right: vec![It::Terminal(99)] })); }
    let start = which;
    if toks[0].token_type == 99 && rhs.contains(&It::NonTerminal(start)) { return Ok(()); }
    table.insert((start, toks[0].token_type), Rc::new(Production { left: start, right: rhs.clone() }));
    if toks[0].token_type == 99 { for r in 0..10 { if r != start && r < 9 { table.entry((r, 99)).or_insert(Rc::new(Production { left: r, right: vec![It::Terminal(99)] })); } } }
    let p = P::new(toks.clone(), table, voc);
    let want: Vec<T> = {
        let mut k = 0;
        cs.iter().filter(|c| !matches!(c, T::Err(_))).map(|c| { let t = toks[k].clone(); k += 1; match c { T::Node(r, _, _) => T::Node(*r, format!("r{}", r), vec![T::Leaf(t)]), _ => T::Leaf(t) } }).collect()
    };
    let w = &want[..];
    macro_rules! t1 { ($e:ident, $f:ident, $c:ident) => { eq(concat!("entry point ", stringify!($e), ", accessor ", stringify!($f)), leaf(p.$e().$f()), ts(w, L::$c).first().cloned())?; }; }
    macro_rules! tl { ($e:ident, $f:ident, $c:ident) => { eq(concat!("entry point ", stringify!($e), ", accessor ", stringify!($f)), leaves(p.$e().$f()), ts(w, L::$c))?; }; }
    macro_rules! r1 { ($e:ident, $f:ident, $c:ident) => { eq(concat!("entry point ", stringify!($e), ", accessor ", stringify!($f)), p.$e().$f().map(|y| tree_of(y.as_rule())), rs(w, P::$c).first().cloned())?; }; }
    macro_rules! rl { ($e:ident, $f:ident, $c:ident) => { eq(concat!("entry point ", stringify!($e), ", accessor ", stringify!($f)), p.$e().$f().into_iter().map(|y| tree_of(y.as_rule())).collect(), rs(w, P::$c))?; }; }
    match which {
        P::RULE_LIST => { rl!(rule_list, parser_rule_list, PARSER_RULE); rl!(rule_list, lexer_rule_list, LEXER_RULE); }
        P::PARSER_RULE => { t1!(parser_rule, rule_ref, RULE_REF); t1!(parser_rule, colon, COLON); r1!(parser_rule, block, BLOCK); t1!(parser_rule, semi, SEMI); }
        P::BLOCK => { rl!(block, alternative_list, ALTERNATIVE); tl!(block, or_list, OR); }
        P::ALTERNATIVE => { rl!(alternative, element_list, ELEMENT); r1!(alternative, epsilon, EPSILON); }
        P::EPSILON => { t1!(epsilon, epsilon, EPSILON); }
        P::ELEMENT => { t1!(element, token_ref, TOKEN_REF); t1!(element, string_literal, STRING_LITERAL); t1!(element, rule_ref, RULE_REF); t1!(element, lparen, LPAREN); t1!(element, rparen, RPAREN); r1!(element, block, BLOCK); r1!(element, ebnf_suffix, EBNF_SUFFIX); }
        P::EBNF_SUFFIX => { t1!(ebnf_suffix, star, STAR); t1!(ebnf_suffix, plus, PLUS); tl!(ebnf_suffix, question_list, QUESTION); }
        P::LEXER_RULE => { t1!(lexer_rule, token_ref, TOKEN_REF); t1!(lexer_rule, colon, COLON); t1!(lexer_rule, semi, SEMI); r1!(lexer_rule, regular, REGULAR); }
        _ => { t1!(regular, regular_literal, REGULAR_LITERAL); }
    }
    Ok(())
}

fn numbers12() -> Result<bool, String> {
    fn distinct(what: &str, v: &[(&str, usize)]) -> Result<(), String> {
        for (i, a) in v.iter().enumerate() { for b in &v[..i] { if a.1 == b.1 { return Err(format!("{}: {} and {} have the same number {}", what, a.0, b.0, a.1)); } } }
        Ok(())
    }
    macro_rules! nums { ($t:ty: $($c:ident),*) => { vec![$((stringify!($c), <$t>::$c)),*] }; }
    use old::syntaxis_lexer::SyntaxisLexer as L0;
    use v1::syntaxis_lexer::SyntaxisLexer as L1;
    let a = nums!(L0: _START, _STOP, LINE_COMMENT, BLOCK_COMMENT, WS, FRAGMENT, TOKEN_REF, RULE_REF, COLON, OR, SEMI, STAR, PLUS, QUESTION, DOT, NOT, LPAREN, RPAREN, POUND, STRING_LITERAL, RANGE, REGULAR_LITERAL, EPSILON);
    let b = nums!(L1: _START, _STOP, RULE_REF, TOKEN_REF, COLON, SEMI, OR, EPSILON, STAR, PLUS, QUESTION, LPAREN, RPAREN, STRING_LITERAL, REGULAR_LITERAL, WHITE_SPACE);
    distinct("tool::syntaxis lexer", &a)?;
    distinct("tool::v1 lexer", &b)?;
    distinct("tool::syntaxis parser", &nums!(old::syntaxis_parser::SyntaxisParser: RULE_LIST, PARSER_RULE, BLOCK, ALTERNATIVE, EPSILON, ELEMENT, EBNF_SUFFIX, LEXER_RULE, REGULAR))?;
    distinct("tool::v1 parser", &nums!(v1::syntaxis_parser::SyntaxisParser: RULE_LIST, PARSER_RULE, BLOCK, ALTERNATIVE, EPSILON, ELEMENT, EBNF_SUFFIX, LEXER_RULE, REGULAR))?;
    let n0 = L0::new("").token_names;
    let n1 = L1::new("").token_names;
    for (n, i) in a { eq(&format!("tool::syntaxis lexer's name of number {}", i), n0[i].to_string(), n.to_string())?; }
    for (n, i) in b { eq(&format!("tool::v1 lexer's name of number {}", i), n1[i].to_string(), n.to_string())?; }
    // the number a lexer gives to a sample of the symbol
    let s: Vec<(&str, Option<usize>, Option<usize>)> = vec![
        ("ab", Some(L0::RULE_REF), Some(L1::RULE_REF)), ("Ab", Some(L0::TOKEN_REF), Some(L1::TOKEN_REF)), ("::=", Some(L0::COLON), Some(L1::COLON)), (":", Some(L0::COLON), Some(L1::COLON)),
        (";", Some(L0::SEMI), Some(L1::SEMI)), ("|", Some(L0::OR), Some(L1::OR)), ("ε", Some(L0::EPSILON), Some(L1::EPSILON)), ("*", Some(L0::STAR), Some(L1::STAR)), ("+", Some(L0::PLUS), Some(L1::PLUS)),
        ("?", Some(L0::QUESTION), Some(L1::QUESTION)), ("(", Some(L0::LPAREN), Some(L1::LPAREN)), (")", Some(L0::RPAREN), Some(L1::RPAREN)), ("'ab'", Some(L0::STRING_LITERAL), Some(L1::STRING_LITERAL)),
        ("/a\\/b/", Some(L0::REGULAR_LITERAL), Some(L1::REGULAR_LITERAL)), (" \n", Some(L0::WS), Some(L1::WHITE_SPACE)), ("//x\n", Some(L0::LINE_COMMENT), None), ("/* a */", Some(L0::BLOCK_COMMENT), None),
        (".", Some(L0::DOT), None), ("..", Some(L0::RANGE), None), ("~", Some(L0::NOT), None), ("#", Some(L0::POUND), None), ("fragment", Some(L0::FRAGMENT), None),
    ];
    for (t, a, b) in s {
        if let Some(a) = a { eq(&format!("tool::syntaxis lexer's number of {:?}", t), L0::new(t).scan().ok().map(|k| k.token_type), Some(a))?; }
        if let Some(b) = b { eq(&format!("tool::v1 lexer's number of {:?}", t), L1::new(t).scan().ok().map(|k| k.token_type), Some(b))?; }
    }
    Ok(true)
}

pub fn c12(c: &mut Ctx) {
    c.rule = "random nodes with children of every kind and number, each accessor of both accessor sets, and each typed entry point of the bootstrapped parser; non-trivial: six or more children".into();
    c.case("declared numbers".into(), numbers12);
    // long lists
    for n in sizes(&[40, 300], 20_000) {
        let mk = |i: usize, rng: &mut Rng| match i % 3 { 0 => { let ty = i / 3 % 24; T::Leaf(mk_token(rng, ty, i)) } 1 => T::Node(i / 3 % 10, "r".into(), vec![]), _ => T::Err(mk_token(rng, i % 24, i)) };
        for r in [None, Some(1), Some(3), Some(5), Some(7)] {
            let cs: Vec<T> = (0..n).map(|i| match r { None => mk(i, &mut c.rng), Some(r) => T::Node(r, format!("r{}", i), vec![]) }).collect();
            let t = T::Node(0, "n".into(), cs.clone());
            c.case(format!("a node with {} children: {}", n, r.map_or("all kinds".to_string(), |r| format!("sub-rules {}", r))), || {
                let r = to_rule(&t);
                acc12!(old, "tool::syntaxis", &r, &cs);
                acc12!(v1, "tool::v1", &r, &cs);
                Ok(true)
            });
        }
        for ty in [old::syntaxis_lexer::SyntaxisLexer::OR, old::syntaxis_lexer::SyntaxisLexer::QUESTION, v1::syntaxis_lexer::SyntaxisLexer::OR, v1::syntaxis_lexer::SyntaxisLexer::QUESTION] {
            let cs: Vec<T> = (0..n).map(|i| T::Leaf(mk_token(&mut c.rng, ty, i))).collect();
            let t = T::Node(0, "n".into(), cs.clone());
            c.case(format!("a node with {} leaves of number {}", n, ty), || {
                let r = to_rule(&t);
                acc12!(old, "tool::syntaxis", &r, &cs);
                acc12!(v1, "tool::v1", &r, &cs);
                Ok(true)
            });
        }
    }
    let n = if c.thorough { 200000 } else { 6000 };
    for k in 0..n {
        if !c.time_left() { break; }
        let m = c.rng.below(16);
        let mut cs = vec![];
        for i in 0..m {
            let x = c.rng.below(10);
            if x < 4 { let r = c.rng.dint(10).unwrap_or(c.rng.below(10)); let inner = random_tree(&mut c.rng, 1, 20, &mut 50); if let T::Node(_, _, c2) = inner { cs.push(T::Node(r, format!("r{}", r), c2)); } }
            else { let ty = c.rng.dint(10).unwrap_or(c.rng.below(24)); let t = mk_token(&mut c.rng, ty, i); cs.push(if x == 9 { T::Err(t) } else { T::Leaf(t) }); }
        }
        let t = T::Node(c.rng.below(10), "n".into(), cs.clone());
        c.case(format!("{:?}", t), || {
            let r = to_rule(&t);
            acc12!(old, "tool::syntaxis", &r, &cs);
            acc12!(v1, "tool::v1", &r, &cs);
            Ok(cs.len() > 5)
        });
        let which = k % 9;
        if cs.iter().any(|x| matches!(x, T::Node(r, _, _) if *r > 9)) { continue; }
        c.case(format!("entry point of rule {} over {:?}", which, cs), || { entry12(&cs, which)?; Ok(cs.len() > 5) });
    }
}

// ---------------------------------------------------------------- C13
type Ev = (String, usize); // event, address of the node
#[derive(Default)]
struct Rec { ev: Vec<Ev> }
fn ad<X>(x: &X) -> usize { x as *const X as usize }
macro_rules! lis { ($($e:ident, $x:ident, $t:ident);*) => {
    impl old::syntaxis_listener::SyntaxisListener for Rec {
        $(fn $e(&mut self, c: &dyn old::syntaxis_context::$t) { self.ev.push((stringify!($e).into(), ad(c.as_rule()))) }
          fn $x(&mut self, c: &dyn old::syntaxis_context::$t) { self.ev.push((stringify!($x).into(), ad(c.as_rule()))) })*
        fn enter_every_rule(&mut self, c: &RuleContext) { self.ev.push(("enter_every_rule".into(), ad(c))) }
        fn exit_every_rule(&mut self, c: &RuleContext) { self.ev.push(("exit_every_rule".into(), ad(c))) }
        fn enter_terminal(&mut self, c: &TerminalContext) { self.ev.push(("enter_terminal".into(), ad(c))) }
        fn exit_terminal(&mut self, c: &TerminalContext) { self.ev.push(("exit_terminal".into(), ad(c))) }
        fn enter_errornode(&mut self, c: &ErrorContext) { self.ev.push(("enter_errornode".into(), ad(c))) }
        fn exit_errornode(&mut self, c: &ErrorContext) { self.ev.push(("exit_errornode".into(), ad(c))) }
    }
} }
lis!(enter_rule_list, exit_rule_list, RuleListContext; enter_parser_rule, exit_parser_rule, ParserRuleContext; enter_block, exit_block, BlockContext; enter_alternative, exit_alternative, AlternativeContext;
     enter_epsilon, exit_epsilon, EpsilonContext; enter_element, exit_element, ElementContext; enter_ebnf_suffix, exit_ebnf_suffix, EbnfSuffixContext; enter_lexer_rule, exit_lexer_rule, LexerRuleContext;
     enter_regular, exit_regular, RegularContext);
struct W;
impl old::syntaxis_walker::SyntaxisWalker for W {}
// a listener that overrides nothing must be accepted too
struct Quiet;
impl old::syntaxis_listener::SyntaxisListener for Quiet {}

const RULES: [&str; 9] = ["rule_list", "parser_rule", "block", "alternative", "epsilon", "element", "ebnf_suffix", "lexer_rule", "regular"];
fn rule_name(i: usize) -> Option<&'static str> {
    use old::syntaxis_parser::SyntaxisParser as P;
    let n = [P::RULE_LIST, P::PARSER_RULE, P::BLOCK, P::ALTERNATIVE, P::EPSILON, P::ELEMENT, P::EBNF_SUFFIX, P::LEXER_RULE, P::REGULAR];
    n.iter().position(|x| *x == i).map(|k| RULES[k])
}
fn expect13(r: &RuleContext, out: &mut Vec<Ev>) {
    let a = ad(r);
    out.push(("enter_every_rule".into(), a));
    if let Some(n) = rule_name(r.rule_index) { out.push((format!("enter_{}", n), a)); }
    for c in r.children.iter() {
        match c {
            ASTContext::Terminal(t) => { out.push(("enter_terminal".into(), ad(t))); out.push(("exit_terminal".into(), ad(t))); }
            ASTContext::Error(t) => { out.push(("enter_errornode".into(), ad(t))); out.push(("exit_errornode".into(), ad(t))); }
            ASTContext::Rule(x) => expect13(x, out),
        }
    }
    if let Some(n) = rule_name(r.rule_index) { out.push((format!("exit_{}", n), a)); }
    out.push(("exit_every_rule".into(), a));
}
fn show(e: &[Ev]) -> String { e.iter().map(|x| x.0.clone()).collect::<Vec<_>>().join(" ") }

fn check13(t: &T) -> Result<bool, String> {
    use old::syntaxis_context as x;
    use old::syntaxis_listener::SyntaxisListener;
    use old::syntaxis_walker::SyntaxisWalker;
    let r = to_rule(t);
    let mut rec = Rec::default();
    W.walk(&mut rec, &r);
    W.walk(&mut Quiet, &r);
    let mut want = vec![];
    expect13(&r, &mut want);
    if rec.ev != want { return Err(format!("events: {}\nspecified: {}", show(&rec.ev), show(&want))); }
    // dispatch of a single node, through the listener and through the typed contexts
    let mut rec = Rec::default();
    rec.enter(&r);
    rec.exit(&r);
    let w: Vec<Ev> = rule_name(r.rule_index).map_or(vec![], |n| vec![(format!("enter_{}", n), ad(&r)), (format!("exit_{}", n), ad(&r))]);
    if rec.ev != w { return Err(format!("events of one node: {}, specified: {}", show(&rec.ev), show(&w))); }
    macro_rules! ctx { ($($tr:ident $n:expr),*) => { $({ let mut rec = Rec::default(); x::$tr::enter(&r, &mut rec); x::$tr::exit(&r, &mut rec);
        let w: Vec<Ev> = vec![(format!("enter_{}", $n), ad(&r)), (format!("exit_{}", $n), ad(&r))];
        if rec.ev != w { return Err(format!("events of {}: {}, specified: {}", stringify!($tr), show(&rec.ev), show(&w))); } })* } }
    ctx!(RuleListContext "rule_list", ParserRuleContext "parser_rule", BlockContext "block", AlternativeContext "alternative", EpsilonContext "epsilon", ElementContext "element",
         EbnfSuffixContext "ebnf_suffix", LexerRuleContext "lexer_rule", RegularContext "regular");
    Ok(want.len() > 10)
}
pub fn c13(c: &mut Ctx) {
    c.rule = "random trees over known and unknown rule numbers, with error leaves; non-trivial: more than ten events".into();
    let n = if c.thorough { 200000 } else { 8000 };
    for k in 0..n {
        if !c.time_left() { break; }
        let t = if k < 12 { T::Node(k, "x".into(), vec![]) } else { random_tree(&mut c.rng, 1 + k % 4, 11, &mut 0) };
        c.case(format!("{:?}", t), || check13(&t));
    }
    for t in shapes(&mut c.rng, 11) { c.case(format!("{:?}", t), || check13(&t)); }
}

// ---------------------------------------------------------------- C14
/// mode 0: rule hooks as inherited; 1: rule hooks log and visit children; 2: rule hooks log and do not descend
struct Vis { ev: Vec<Ev>, stop_after: usize, calls: usize, seen: Vec<String> }
fn sval(b: &dyn Any) -> String {
    if let Some(s) = b.downcast_ref::<String>() { return s.clone(); }
    if let Some(x) = b.downcast_ref::<Box<dyn Any>>() { return sval(&**x); }
    "?".into()
}
macro_rules! vis_common { () => {
    fn visit_terminal(&mut self, t: &TerminalContext) -> Box<dyn Any> { self.0.ev.push(("terminal".into(), ad(t))); Box::new(format!("t{}", t.symbol.token_index)) }
    fn visit_errornode(&mut self, t: &ErrorContext) -> Box<dyn Any> { self.0.ev.push(("errornode".into(), ad(t))); Box::new(format!("e{}", t.symbol.token_index)) }
    fn default_result(&mut self) -> Box<dyn Any> { Box::new("d".to_string()) }
    fn aggregate_result(&mut self, a: Box<dyn Any>, b: Box<dyn Any>) -> Box<dyn Any> { Box::new(format!("({},{})", sval(&*a), sval(&*b))) }
    fn should_visit_next_child(&mut self, c: &RuleContext, r: &dyn Any) -> bool { self.0.ev.push(("next".into(), ad(c))); self.0.seen.push(sval(r)); self.0.calls += 1; self.0.calls <= self.0.stop_after }
} }
macro_rules! visitor { ($m:ident, $base:ident, $all:ident, $flat:ident, $none:ident) => {
    struct $base(Vis);
    impl $m::syntaxis_visitor::SyntaxisVisitor for $base { vis_common!(); }
    struct $all(Vis);
    visitor!(@hooks $m, $all, true);
    struct $flat(Vis);
    visitor!(@hooks $m, $flat, false);
    struct $none;
    impl $m::syntaxis_visitor::SyntaxisVisitor for $none {}
};
(@hooks $m:ident, $t:ident, $deep:expr) => {
    impl $m::syntaxis_visitor::SyntaxisVisitor for $t {
        vis_common!();
        visitor!(@h $m, $deep, visit_rule_list RuleListContext, visit_parser_rule ParserRuleContext, visit_block BlockContext, visit_alternative AlternativeContext, visit_epsilon EpsilonContext,
            visit_element ElementContext, visit_ebnf_suffix EbnfSuffixContext, visit_lexer_rule LexerRuleContext, visit_regular RegularContext);
    }
};
(@h $m:ident, $deep:expr, $($f:ident $tr:ident),*) => {
    $(fn $f(&mut self, c: &dyn $m::syntaxis_context::$tr) -> Box<dyn Any> {
        self.0.ev.push((stringify!($f).into(), ad(c.as_rule())));
        if $deep { self.visit_children(c.as_rule()) } else { Box::new(format!("h{}", c.as_rule().rule_index)) }
    })*
}; }
visitor!(old, Base0, All0, Flat0, None0);
visitor!(v1, Base1, All1, Flat1, None1);

struct Ref { ev: Vec<Ev>, stop_after: usize, calls: usize, seen: Vec<String> }
impl Ref {
    fn visit(&mut self, r: &RuleContext, mode: usize) -> String {
        if mode > 0 { if let Some(n) = rule_name(r.rule_index) {
            self.ev.push((format!("visit_{}", n), ad(r)));
            if mode == 2 { return format!("h{}", r.rule_index); }
        } }
        self.children(r, mode)
    }
    fn children(&mut self, r: &RuleContext, mode: usize) -> String {
        let mut res = "d".to_string();
        for c in r.children.iter() {
            self.ev.push(("next".into(), ad(r)));
            self.seen.push(res.clone());
            self.calls += 1;
            if self.calls > self.stop_after { break; }
            let x = match c {
                ASTContext::Terminal(t) => { self.ev.push(("terminal".into(), ad(t))); format!("t{}", t.symbol.token_index) }
                ASTContext::Error(t) => { self.ev.push(("errornode".into(), ad(t))); format!("e{}", t.symbol.token_index) }
                ASTContext::Rule(x) => self.visit(x, mode),
            };
            res = format!("({},{})", res, x);
        }
        res
    }
}
macro_rules! each14 { ($n:expr, $base:ident, $flat:ident, $x:ident, $r:ident, $nv:ident, $nr:ident, $cmp:ident, $($tr:ident $f:ident),*) => { $({
    let mut f = $nr(); let want = f.children(&$r, 0);
    let mut v = $base($nv()); let res = v.$f(&$r); $cmp(concat!($n, " inherited ", stringify!($f)), &v.0, res, &f, &want)?;
    let mut f = $nr(); f.ev.push((stringify!($f).into(), ad(&$r)));
    let mut v = $flat($nv()); let res = $x::$tr::accept(&$r, &mut v); $cmp(concat!($n, " accept of ", stringify!($tr)), &v.0, res, &f, &format!("h{}", $r.rule_index))?;
})* } }
fn check14(t: &T, stop: usize) -> Result<bool, String> {
    let r = to_rule(t);
    let nv = || Vis { ev: vec![], stop_after: stop, calls: 0, seen: vec![] };
    fn cmp(what: &str, v: &Vis, res: Box<dyn Any>, f: &Ref, want: &str) -> Result<(), String> {
        if v.ev != f.ev { return Err(format!("{}: visits {}\nspecified: {}", what, show(&v.ev), show(&f.ev))); }
        eq(&format!("{}: result", what), sval(&*res), want.to_string())?;
        eq(&format!("{}: results shown to should_visit_next_child", what), v.seen.clone(), f.seen.clone())
    }
    macro_rules! go { ($m:ident, $n:expr, $base:ident, $all:ident, $flat:ident, $none:ident) => {{
        use $m::syntaxis_visitor::SyntaxisVisitor;
        use $m::syntaxis_context as x;
        let nr = || Ref { ev: vec![], stop_after: stop, calls: 0, seen: vec![] };
        let mut f = nr(); let want = f.visit(&r, 0);
        let mut v = $base(nv()); let res = v.visit(&r); cmp(concat!($n, " no rule hook overridden"), &v.0, res, &f, &want)?;
        let mut f = nr(); let want = f.visit(&r, 1);
        let mut v = $all(nv()); let res = v.visit(&r); cmp(concat!($n, " all rule hooks overridden"), &v.0, res, &f, &want)?;
        let mut f = nr(); let want = f.visit(&r, 2);
        let mut v = $flat(nv()); let res = v.visit(&r); cmp(concat!($n, " rule hooks that do not descend"), &v.0, res, &f, &want)?;
        let mut f = nr(); let want = f.children(&r, 2);
        let mut v = $flat(nv()); let res = v.visit_children(&r); cmp(concat!($n, " visit_children"), &v.0, res, &f, &want)?;
        // a visitor that overrides nothing returns the default result ()
        let res = $none.visit(&r);
        eq(concat!($n, " default result"), res.downcast_ref::<()>().is_some(), true)?;
        // results of the hooks as inherited, combined by a counting aggregate
        struct Agg(Vec<(String, String)>);
        fn show_any(b: &dyn Any) -> String {
            if b.is::<()>() { return "()".into(); }
            if let Some(n) = b.downcast_ref::<usize>() { return n.to_string(); }
            if let Some(x) = b.downcast_ref::<Box<dyn Any>>() { return show_any(&**x); }
            "?".into()
        }
        impl SyntaxisVisitor for Agg {
            fn aggregate_result(&mut self, a: Box<dyn Any>, b: Box<dyn Any>) -> Box<dyn Any> { self.0.push((show_any(&*a), show_any(&*b))); Box::new(self.0.len()) }
        }
        fn agg(r: &RuleContext, log: &mut Vec<(String, String)>) -> String {
            let mut res = "()".to_string();
            for c in r.children.iter() {
                let x = if let ASTContext::Rule(x) = c { agg(x, log) } else { "()".into() };
                log.push((res, x));
                res = log.len().to_string();
            }
            res
        }
        let mut v = Agg(vec![]);
        let res = v.visit(&r);
        let mut log = vec![];
        let want = agg(&r, &mut log);
        eq(concat!($n, " combined results"), &v.0, &log)?;
        eq(concat!($n, " combined result"), show_any(&*res), want)?;
        // inherited hook and accept of every typed context
        each14!($n, $base, $flat, x, r, nv, nr, cmp, RuleListContext visit_rule_list, ParserRuleContext visit_parser_rule, BlockContext visit_block, AlternativeContext visit_alternative, EpsilonContext visit_epsilon, ElementContext visit_element,
              EbnfSuffixContext visit_ebnf_suffix, LexerRuleContext visit_lexer_rule, RegularContext visit_regular);
    }} }
    go!(old, "tool::syntaxis:", Base0, All0, Flat0, None0);
    go!(v1, "tool::v1:", Base1, All1, Flat1, None1);
    Ok(r.children.len() > 1)
}
pub fn c14(c: &mut Ctx) {
    c.rule = "random trees over known and unknown rule numbers, visitors overriding none or all hooks, with random early stops; non-trivial: two or more children".into();
    let n = if c.thorough { 100000 } else { 4000 };
    for k in 0..n {
        if !c.time_left() { break; }
        let t = if k < 12 { T::Node(k, "x".into(), vec![T::Leaf(mk_token(&mut c.rng, 2, 0)), T::Node(2, "y".into(), vec![])]) } else { random_tree(&mut c.rng, 1 + k % 4, 11, &mut 0) };
        let stop = if c.rng.chance(60) { usize::MAX } else { c.rng.below(12) };
        c.case(format!("stop after {} of {:?}", stop, t), || check14(&t, stop));
    }
    for t in shapes(&mut c.rng, 11) { if size(&t) < 1500 { c.case(format!("{:?}", t), || check14(&t, usize::MAX)); } }
}
fn size(t: &T) -> usize { match t { T::Node(_, _, c) => 1 + c.iter().map(size).sum::<usize>(), _ => 1 } }

// ---------------------------------------------------------------- C15
use old::syntaxis_lexer::SyntaxisLexer as OL;
use old::syntaxis_parser::SyntaxisParser as OP;
fn tk(ty: usize, text: &str) -> T { T::Leaf(Token::new(ty, "T", text)) }
fn nd(r: usize, cs: Vec<T>) -> T { T::Node(r, format!("r{}", r), cs) }

#[derive(Clone, Debug)]
enum Def { Tok(String, String), Rule(String, Vec<Vec<El>>) }
#[derive(Clone, Debug, PartialEq)]
struct El { at: At, suf: Option<char>, lazy: bool }
#[derive(Clone, Debug, PartialEq)]
enum At { Tok(String), Rule(String), Block(Vec<Vec<El>>) }

fn t_block(alts: &[Vec<El>]) -> T {
    let mut cs = vec![];
    for (i, a) in alts.iter().enumerate() {
        if i > 0 { cs.push(tk(OL::OR, "|")); }
        cs.push(if a.is_empty() { nd(OP::ALTERNATIVE, vec![nd(OP::EPSILON, vec![tk(OL::EPSILON, "epsilon")])]) } else { nd(OP::ALTERNATIVE, a.iter().map(t_el).collect()) });
    }
    nd(OP::BLOCK, cs)
}
fn t_el(e: &El) -> T {
    let mut cs = match &e.at {
        At::Tok(n) if n.starts_with(['\'', '"']) => vec![tk(OL::STRING_LITERAL, n)],
        At::Tok(n) => vec![tk(OL::TOKEN_REF, n)],
        At::Rule(n) => vec![tk(OL::RULE_REF, n)],
        At::Block(b) => vec![tk(OL::LPAREN, "("), t_block(b), tk(OL::RPAREN, ")")],
    };
    if let Some(s) = e.suf {
        let mut v = vec![match s { '*' => tk(OL::STAR, "*"), '+' => tk(OL::PLUS, "+"), _ => tk(OL::QUESTION, "?") }];
        if e.lazy { v.push(tk(OL::QUESTION, "?")); }
        cs.push(nd(OP::EBNF_SUFFIX, v));
    }
    nd(OP::ELEMENT, cs)
}
fn t_file(defs: &[Def]) -> T {
    nd(OP::RULE_LIST, defs.iter().map(|d| match d {
        Def::Tok(n, re) => nd(OP::LEXER_RULE, vec![tk(OL::TOKEN_REF, n), tk(OL::COLON, ":"), nd(OP::REGULAR, vec![tk(OL::REGULAR_LITERAL, re)]), tk(OL::SEMI, ";")]),
        Def::Rule(n, alts) => nd(OP::PARSER_RULE, vec![tk(OL::RULE_REF, n), tk(OL::COLON, ":"), t_block(alts), tk(OL::SEMI, ";")]),
    }).collect())
}
fn rows(d: &[LexerRuleData]) -> Vec<(usize, String, String)> { d.iter().map(|x| (x.token_type, x.token_name.clone(), x.regex.clone())).collect() }

fn check15(defs: &[Def], pre_tok: usize, pre_rule: usize, gap: usize) -> Result<bool, String> {
    use old::syntaxis_context::RuleListContext;
    let ast = to_rule(&t_file(defs));
    // expected numbering
    let mut toks: Vec<(usize, String, String)> = (0..pre_tok).map(|i| (2 + i, format!("P{}", i), format!("^(p{})", i))).collect();
    let mut rules: Vec<(usize, String)> = vec![];
    for d in defs {
        match d {
            // without its two slashes it is no regular expression: not accepted
            Def::Tok(_, re) if re.len() < 2 => {}
            Def::Tok(n, re) => if !toks.iter().any(|t| t.1 == *n) && n != "_START" && n != "_STOP" {
                let body = &re[1..re.len() - 1];
                let mut un = String::new();
                let mut it = body.chars().peekable();
                while let Some(ch) = it.next() { if ch == '\\' && it.peek() == Some(&'/') { it.next(); un.push('/'); } else { un.push(ch); } }
                toks.push((2 + toks.len(), n.clone(), format!("^({})", un)));
            },
            Def::Rule(n, _) => if !rules.iter().any(|r| r.1 == *n) { rules.push((pre_rule + rules.len(), n.clone())); },
        }
    }
    // symbol pass
    let mut g = Grammar::new("g");
    for i in 0..pre_tok { g.vocabulary.add_terminal(2 + i, &format!("P{}", i)); }
    let data: Vec<LexerRuleData> = (0..pre_tok).map(|i| LexerRuleData { token_type: 2 + i + gap, token_name: format!("P{}", i), regex: format!("^(p{})", i) }).collect();
    // the rows there before keep their numbers, whatever these are
    let mut table = toks.clone();
    for x in table.iter_mut().take(pre_tok) { x.0 += gap; }
    // no string literals in the file: the first pass defines nothing
    let (nt, d0) = { let mut v = StringLiteralToTokenVisitor::new(&mut g, 2 + pre_tok); RuleListContext::accept(&ast, &mut v); (v.next_token_id, v.data.len()) };
    eq("first free token number after the literal pass", nt, 2 + pre_tok)?;
    eq("rows after the literal pass", d0, 0)?;
    let (data, nt, nr) = { let mut v = SymbolVisitor::new(&mut g, nt, pre_rule, data); RuleListContext::accept(&ast, &mut v); (v.data, v.next_token_id, v.next_rule_id) };
    eq("lexical rule table", rows(&data), table.clone())?;
    eq("next token number", nt, 2 + toks.len())?;
    eq("next rule number", nr, pre_rule + rules.len())?;
    for (i, n, _) in toks.iter() { eq(&format!("number of token {}", n), g.vocabulary.get_terminal_id_by_name(n), Some(*i))?; eq("name back", g.vocabulary.get_terminal_name_by_id(*i), Some(n.clone()))?; }
    for (i, n) in rules.iter() { eq(&format!("number of rule {}", n), g.vocabulary.get_nonterminal_id_by_name(n), Some(*i))?; eq("name back", g.vocabulary.get_nonterminal_name_by_id(*i), Some(n.clone()))?; }
    eq("number of terminals", g.vocabulary.get_all_terminals().len(), toks.len() + 2)?;
    eq("number of rules", g.vocabulary.get_all_nonterminals().len(), rules.len())?;
    // lexical rule pass
    if !defs.iter().any(|d| matches!(d, Def::Tok(n, _) if n == "_START" || n == "_STOP")) {
        let data: Vec<LexerRuleData> = (0..pre_tok).map(|i| LexerRuleData { token_type: 2 + i + gap, token_name: format!("P{}", i), regex: format!("^(p{})", i) }).collect();
        let mut v = LexerRuleVisitor::new(data, 2 + pre_tok);
        RuleListContext::accept(&ast, &mut v);
        eq("lexical rule table of the lexical pass", rows(&v.data), table.clone())?;
        eq("next token number of the lexical pass", v.next_token_type, 2 + toks.len())?;
    }
    Ok(defs.len() > toks.len() - pre_tok + rules.len() && defs.len() > 2)
}
// the literals of a file, numbered in order of first occurrence
fn check15lits(alts: &[Vec<String>]) -> Result<bool, String> {
    use old::syntaxis_context::RuleListContext;
    let el = |t: &String| nd(OP::ELEMENT, vec![tk(OL::STRING_LITERAL, t)]);
    let alt = |a: &Vec<String>| nd(OP::ALTERNATIVE, a.iter().map(el).collect());
    // every second alternative one level deeper
    let file = nd(OP::RULE_LIST, alts.iter().enumerate().map(|(i, a)| {
        let b = nd(OP::BLOCK, vec![alt(a)]);
        let b = if i % 2 == 0 { b } else { nd(OP::BLOCK, vec![nd(OP::ALTERNATIVE, vec![nd(OP::ELEMENT, vec![tk(OL::LPAREN, "("), b, tk(OL::RPAREN, ")")])])]) };
        nd(OP::PARSER_RULE, vec![tk(OL::RULE_REF, &format!("r{}", i)), tk(OL::COLON, ":"), b, tk(OL::SEMI, ";")])
    }).collect());
    let mut lits: Vec<&String> = vec![];
    for t in alts.iter().flatten() { if !lits.contains(&t) { lits.push(t); } }
    let ast = to_rule(&file);
    let mut v = StringLiteralVisitor::new();
    RuleListContext::accept(&ast, &mut v);
    eq("rows for literals", v.data.len(), lits.len())?;
    eq("next number after the literals", v.next_token_type, 2 + lits.len())?;
    for (k, (x, t)) in v.data.iter().zip(lits.iter()).enumerate() {
        eq(&format!("number of literal {}", t), x.token_type, 2 + k)?;
        eq(&format!("name of literal {}", t), x.token_name.clone(), format!("T_{}", 2 + k))?;
        if !(x.regex.starts_with("^(") && x.regex.ends_with(')')) { return Err(format!("expression of literal {} not anchored: {}", t, x.regex)); }
        let body = &t[1..t.len() - 1];
        if !body.contains(|c: char| "\\+*".contains(c)) { eq(&format!("expression of literal {}", t), x.regex.clone(), format!("^({})", body))?; }
    }
    Ok(lits.len() < alts.iter().map(|a| a.len()).sum::<usize>())
}
fn rand_reg(rng: &mut Rng) -> String {
    let n = if rng.chance(5) { 40 } else { rng.below(9) };
    let mut s = String::from("/");
    for _ in 0..n { let x = rng.dstr(20).unwrap_or(rng.pick(&["\\/", "\\/", "a", "[b/c]", "\\\\", "/", "|", "é", "\\d", "(", ")", "^", "$", " ", "+"]).to_string()); s.push_str(&x); }
    s.push('/');
    s
}
static REGS: [&str; 13] = ["/", "", "//", "/a/", "/a\\/b/", "/[a-z]+/", "/\\\\/", "/\\/\\//", "/é/", "/a|b/", "/\\\\\\//", "/(x)/", "/\\+/"];
pub fn c15(c: &mut Ctx) {
    c.rule = "grammar files with repeated definitions and names shared between tokens and rules; non-trivial: at least one repeated definition".into();
    let names = ["a", "b", "Ab", "P0", "P1", "cd", "_STOP", "AB", "ab", "A", "p0", "a_", "_a", "aa", "P00", "CD", "_START", "_stop", "é", "É"];
    let big = sizes(&[30, 200], 2000);
    let n = if c.thorough { 200000 } else { 10000 };
    for _ in 0..n {
        if !c.time_left() { break; }
        let m = if c.rng.chance(2) { *c.rng.pick(&big) } else { c.rng.below(8) };
        let defs: Vec<Def> = (0..m).map(|i| { let nm = if m > 8 && c.rng.chance(80) { format!("n{}", i) } else { c.rng.dstr(10).unwrap_or(c.rng.pick(&names).to_string()) }; if c.rng.chance(50) { let re = if c.rng.chance(50) { c.rng.pick(&REGS).to_string() } else { rand_reg(&mut c.rng) }; Def::Tok(nm, re) } else { Def::Rule(nm, vec![vec![]]) } }).collect();
        let (pt, pr) = (c.rng.below(3), c.rng.below(3));
        let gap = if c.rng.chance(70) { 0 } else { *c.rng.pick(&[1, 7, 300]) };
        c.case(format!("{} tokens predefined, their rows numbered from {}, rules from {}; {:?}", pt, 2 + gap, pr, defs), || check15(&defs, pt, pr, gap));
        if m < 100 || c.rng.chance(20) {
            let alts: Vec<Vec<String>> = (0..m.min(60)).map(|i| (0..c.rng.below(4)).map(|_| { let q = *c.rng.pick(&["'", "\""]); let b = if m > 8 && c.rng.chance(70) { format!("w{}", i) } else { c.rng.dstr(15).unwrap_or(c.rng.pick(&["a", "b", "if", "", "é", "\\n", "+", "a b", "\\\\", "*", "A", "'", "aa", "x\\'"]).to_string()) }; format!("{}{}{}", q, b, q) }).collect()).collect();
            c.case(format!("literals {:?}", alts), || check15lits(&alts));
        }
    }
}

// ---------------------------------------------------------------- C16
struct M<'a> { by_left: BTreeMap<usize, Vec<Vec<It>>>, named: BTreeMap<&'a str, usize>, toks: BTreeMap<&'a str, usize>, used: std::cell::RefCell<BTreeSet<usize>>, nnamed: usize }
impl<'a> M<'a> {
    fn rights(&self, u: usize) -> Vec<Vec<It>> { self.by_left.get(&u).cloned().unwrap_or_default() }
    fn unnamed(&self, i: &It) -> Option<usize> { match i { It::NonTerminal(u) if *u >= self.nnamed => { self.used.borrow_mut().insert(*u); Some(*u) } _ => None } }
    fn el(&self, e: &El, i: &It) -> bool {
        match e.suf {
            None => self.atom(&e.at, i),
            Some(s) => {
                let u = match self.unnamed(i) { Some(u) => u, None => return false };
                let me = It::NonTerminal(u);
                let rs = self.rights(u);
                let is_eps = |r: &Vec<It>| r.is_empty();
                let one = |r: &Vec<It>| r.len() == 1 && self.atom(&e.at, &r[0]);
                let rec = |r: &Vec<It>| r.len() == 2 && r[1] == me && self.atom(&e.at, &r[0]);
                if rs.len() != 2 { return false; }
                match s {
                    '*' => rs.iter().any(is_eps) && rs.iter().any(|r| rec(r)),
                    '+' => rs.iter().any(|r| one(r)) && rs.iter().any(|r| rec(r)),
                    _ => rs.iter().any(is_eps) && rs.iter().any(|r| one(r)),
                }
            }
        }
    }
    fn atom(&self, a: &At, i: &It) -> bool {
        match a {
            At::Tok(n) => *i == It::Terminal(self.toks[n.as_str()]),
            At::Rule(n) => *i == It::NonTerminal(self.named[n.as_str()]),
            At::Block(b) => match self.unnamed(i) { Some(u) => self.block(b, &self.rights(u)), None => false },
        }
    }
    fn alt(&self, a: &[El], r: &[It]) -> bool { a.len() == r.len() && a.iter().zip(r).all(|(e, i)| self.el(e, i)) }
    fn block(&self, b: &[Vec<El>], rs: &[Vec<It>]) -> bool { b.iter().all(|a| rs.iter().any(|r| self.alt(a, r))) && rs.iter().all(|r| b.iter().any(|a| self.alt(a, r))) }
}
fn check16(defs: &[Def], toks: &[&str], rules: &[&str], pre: &[(usize, Vec<It>)]) -> Result<bool, String> {
    use old::syntaxis_context::RuleListContext;
    let ast = to_rule(&t_file(defs));
    let mut g = Grammar::new("g");
    for (i, t) in toks.iter().enumerate() { g.vocabulary.add_terminal(i + 2, t); }
    for (i, t) in rules.iter().enumerate() { g.vocabulary.add_named_nonterminal(i, t); }
    for (l, r) in pre { g.productions.insert(Production { left: *l, right: r.clone() }); }
    let next = { let mut v = ProductionVisitor::new(&mut g, rules.len()); RuleListContext::accept(&ast, &mut v); v.next_rule_id };
    let mut by_left: BTreeMap<usize, Vec<Vec<It>>> = BTreeMap::new();
    for p in g.productions.iter() { by_left.entry(p.left).or_default().push(p.right.clone()); }
    for (l, r) in pre { if !by_left.get(l).map_or(false, |v| v.contains(r)) { return Err(format!("existing production R{} -> {:?} is lost", l, r)); } }
    let m = M { by_left, named: rules.iter().enumerate().map(|(i, n)| (*n, i)).collect(), toks: toks.iter().enumerate().map(|(i, n)| (*n, i + 2)).collect(), used: Default::default(), nnamed: rules.len() };
    for (i, n) in rules.iter().enumerate() {
        let mut alts: Vec<Vec<El>> = vec![];
        for d in defs { if let Def::Rule(x, a) = d { if x == n { alts.extend(a.iter().cloned()); } } }
        let rs = m.rights(i);
        for a in alts.iter() { if !rs.iter().any(|r| m.alt(a, r)) { return Err(format!("no production of {} is alternative {:?}; productions {:?}", n, a, m.by_left)); } }
        for r in rs.iter() { if !pre.contains(&(i, r.clone())) && !alts.iter().any(|a| m.alt(a, r)) { return Err(format!("production {} -> {:?} is no alternative of {:?}; productions {:?}", n, r, alts, m.by_left)); } }
        // one production per (distinct) alternative
        let mut distinct: Vec<&Vec<El>> = vec![];
        for a in alts.iter() { if !distinct.contains(&a) { distinct.push(a); } }
        if pre.is_empty() && rs.len() > distinct.len() { return Err(format!("{} has {} productions for {} alternatives", n, rs.len(), distinct.len())); }
    }
    let used = m.used.borrow().clone();
    for l in m.by_left.keys() { if *l >= rules.len() && !used.contains(l) { return Err(format!("unnamed rule R{} belongs to no element", l)); } }
    let ids: BTreeSet<usize> = g.vocabulary.get_all_nonterminals().iter().cloned().collect();
    for u in used.iter() {
        if !ids.contains(u) { return Err(format!("unnamed rule R{} is not declared", u)); }
        if g.vocabulary.get_nonterminal_name_by_id(*u).is_some() { return Err(format!("generated rule R{} has a name", u)); }
        if *u >= next { return Err(format!("next_rule_id {} is not fresh", next)); }
    }
    for (i, n) in rules.iter().enumerate() { eq("rule number", g.vocabulary.get_nonterminal_id_by_name(n), Some(i))?; }
    Ok(used.len() > 1)
}
fn rand_el(rng: &mut Rng, depth: usize, toks: &[&str], rules: &[&str]) -> El {
    let at = match rng.below(if depth > 0 { 5 } else { 4 }) { 0 | 1 => At::Tok(rng.pick(toks).to_string()), 2 | 3 => At::Rule(rng.pick(rules).to_string()), _ => At::Block(rand_alts(rng, depth - 1, toks, rules)) };
    let suf = *rng.pick(&[None, None, Some('*'), Some('+'), Some('?')]);
    El { at, suf, lazy: rng.chance(15) }
}
fn rand_alts(rng: &mut Rng, depth: usize, toks: &[&str], rules: &[&str]) -> Vec<Vec<El>> {
    let mut out: Vec<Vec<El>> = (0..1 + rng.below(3)).map(|_| if rng.chance(15) { vec![] } else {
        let n = if rng.chance(10) { 4 + rng.below(8) } else { 1 + rng.below(3) };
        let mut v: Vec<El> = vec![];
        for _ in 0..n { let e = if !v.is_empty() && rng.chance(30) { rng.pick(&v).clone() } else { rand_el(rng, depth, toks, rules) }; v.push(e) }
        v
    }).collect();
    // an alternative that differs from another in one place
    if rng.chance(25) {
        let mut v = rng.pick(&out).clone();
        if !v.is_empty() {
            let i = *rng.pick(&[0, v.len() - 1, v.len() / 2]);
            let e = rand_el(rng, 0, toks, rules);
            match rng.below(4) { 0 => { v.insert(i, e); } 1 => { v.remove(i); } 2 => { let j = v.len() - 1; v.swap(i, j); } _ => v[i] = e }
            out.push(v);
        }
    }
    out
}
pub fn c16(c: &mut Ctx) {
    c.rule = "random EBNF files with nested blocks and suffixes over tokens and rules whose numbers overlap; non-trivial: two or more generated rules".into();
    let toks = ["TA", "TB", "TC", "'TA'", "'x'", "\"TC\""];
    let rules = ["ra", "rb", "rc", "rd"];
    // every ordered pair of suffixed elements over token / rule / block with overlapping numbers
    let mut els = vec![];
    for at in [At::Tok("TA".into()), At::Tok("TB".into()), At::Tok("'TA'".into()), At::Rule("rc".into()), At::Rule("rd".into()), At::Block(vec![vec![El { at: At::Tok("TA".into()), suf: None, lazy: false }]]), At::Block(vec![vec![], vec![El { at: At::Rule("rc".into()), suf: None, lazy: false }]])] {
        for suf in [None, Some('*'), Some('+'), Some('?')] { els.push(El { at: at.clone(), suf, lazy: false }); }
    }
    for a in els.iter() { for b in els.iter() {
        let defs = vec![Def::Rule("ra".into(), vec![vec![a.clone(), b.clone()]]), Def::Rule("rb".into(), vec![vec![b.clone()], vec![]])];
        c.case(format!("{:?}", defs), || check16(&defs, &toks, &rules, &[]));
    } }
    for n in sizes(&[30, 200], 1000) {
        let el = |i: usize| El { at: At::Block(vec![vec![El { at: At::Tok(toks[i % 3].into()), suf: Some(['*', '+', '?'][i / 3 % 3]), lazy: false }]]), suf: None, lazy: false };
        let tk = |i: usize| El { at: At::Tok(toks[i % 3].into()), suf: None, lazy: false };
        // one long alternative; many alternatives; many distinct blocks; deep nesting
        let mut deep = vec![vec![tk(0)]];
        for i in 0..n.min(12) { deep = vec![vec![tk(i), El { at: At::Block(deep), suf: None, lazy: false }]]; }
        let but = |j: usize| (0..n).map(|i| tk(if i == j { i + 1 } else { i })).collect::<Vec<_>>();
        for alts in [vec![but(n), but(0), but(n / 2), but(n.saturating_sub(1))], vec![(0..n).map(tk).collect::<Vec<_>>()], (0..n.min(200)).map(|i| (0..=i).map(tk).collect()).collect(), vec![(0..n.min(200)).map(|i| El { at: At::Block(vec![(0..=i).map(tk).collect()]), suf: None, lazy: false }).collect()], vec![(0..n.min(9)).map(el).collect()], deep] {
            let defs = vec![Def::Rule("ra".into(), alts)];
            c.case(format!("{:?}", defs), || check16(&defs, &toks, &rules, &[]));
        }
    }
    c.exhaustive_note = "all pairs of elements out of 28 (token, literal, rule, block; no suffix, *, +, ?)".into();
    let n = if c.thorough { 200000 } else { 8000 };
    for k in 0..n {
        if !c.time_left() { break; }
        let m = 1 + c.rng.below(5);
        let mut defs: Vec<Def> = (0..m).map(|_| Def::Rule(c.rng.pick(&rules).to_string(), rand_alts(&mut c.rng, k % 3, &toks, &rules))).collect();
        if c.rng.chance(30) { defs.insert(0, Def::Tok("TA".into(), "/a/".into())); }
        let pre: Vec<(usize, Vec<It>)> = if c.rng.chance(20) { vec![(0, vec![It::Terminal(4), It::Terminal(4), It::NonTerminal(3), It::Terminal(2)])] } else { vec![] };
        c.case(format!("existing productions {:?}; {:?}", pre, defs), || check16(&defs, &toks, &rules, &pre));
    }
    let _ = child_of;
}
