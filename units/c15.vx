#![allow(unused_imports, dead_code, unused_variables, unused_mut, non_snake_case, elided_lifetimes_in_paths)]
use vstd::prelude::*;
use std::collections::{HashMap, HashSet};
use vstd::utf8::*;
@include std.vxi
@include strbase.vxi
@include str.vxi
@include strtext.vxi
@include owned.vxi
verus! {
broadcast use {vstd::std_specs::hash::group_hash_axioms, vx::group_vx_str, vxs::ax_len};
@include vocimpl.vxi
@include ast.vxi
@include ctxref.vxi
impl RuleContext {
@source src/runtime/ast/rule_context.rs
@fn RuleContext:ToRule::as_rule
@pub
@ret r
@contract
  ensures *r == *self,
@endfn
}
pub mod old {
use super::*;
@set DIR src/tool/syntaxis
@include acc.vxi
}
use old::SyntaxisParser as OldP;
use old::SyntaxisLexer as OldL;
use old::{SyntaxisParser, SyntaxisLexer};
@set ACC old
@include ctxcall.vxi
@include anybox.vxi
@source src/tool/grammar/mod.rs
@item enum ProductionItem derive=PartialEq,Eq,Hash,Clone,Copy
@item struct Production derive=PartialEq,Eq,Hash,Clone
@item struct Grammar
@source src/tool/visitor/lexer_rule_visitor.rs
@item struct LexerRuleData derive=Debug,Serialize
// ---- the definitions of a grammar file, in order
pub open spec fn is_def(r: RuleContext) -> bool { r.rule_index == OldP::LEXER_RULE || r.rule_index == OldP::PARSER_RULE }
pub open spec fn defs_node(r: RuleContext) -> Seq<RuleContext> decreases r, 2nat, 0int { if is_def(r) { seq![r] } else { defs_below(r) } }
pub open spec fn defs_below(r: RuleContext) -> Seq<RuleContext> decreases r, 1nat, 0int { defs_upto(r, r.children@.len() as int) }
pub open spec fn defs_upto(r: RuleContext, n: int) -> Seq<RuleContext> decreases r, 0nat, n {
  if n <= 0 || n > r.children@.len() { Seq::empty() } else { defs_upto(r, n - 1) + defs_child(r.children@[n - 1]) }
}
pub open spec fn defs_child(c: ASTContext) -> Seq<RuleContext> decreases c, 0nat, 0int { match c { ASTContext::Rule(r) => defs_node(r), _ => Seq::empty() } }
// the parts of a definition
pub open spec fn tok_name(d: RuleContext) -> Seq<char> { terms(d.children@, OldL::TOKEN_REF)[0].symbol.text@ }
pub open spec fn tok_text(d: RuleContext) -> Seq<char> { terms(subs(d.children@, OldP::REGULAR)[0].children@, OldL::REGULAR_LITERAL)[0].symbol.text@ }
pub open spec fn rule_name(d: RuleContext) -> Seq<char> { terms(d.children@, OldL::RULE_REF)[0].symbol.text@ }
// a regular literal as the grammar file's own lexer delivers it: between slashes (a lone slash is refused)
pub open spec fn usable(t: Seq<char>) -> bool { by(t).len() >= 2 }
pub open spec fn slashed(t: Seq<char>) -> bool { usable(t) ==> t.len() >= 2 && t[0] == '/' && t.last() == '/' }
pub open spec fn body_of(t: Seq<char>) -> Seq<char> { t.subrange(1, t.len() - 1) }
pub open spec fn def_ok(d: RuleContext) -> bool {
  &&& d.rule_index == OldP::LEXER_RULE ==> terms(d.children@, OldL::TOKEN_REF).len() > 0 && subs(d.children@, OldP::REGULAR).len() > 0
        && terms(subs(d.children@, OldP::REGULAR)[0].children@, OldL::REGULAR_LITERAL).len() > 0 && slashed(tok_text(d))
  &&& d.rule_index == OldP::PARSER_RULE ==> terms(d.children@, OldL::RULE_REF).len() > 0
}
pub open spec fn all_ok(ds: Seq<RuleContext>) -> bool { forall|i: int| 0 <= i < ds.len() ==> def_ok(#[trigger] ds[i]) }
// the row of the lexical rule table for a definition
pub type Row = (usize, Seq<char>, Seq<char>);
pub open spec fn regex_of(t: Seq<char>) -> Seq<char> { seq!['^', '('] + repl(body_of(t), seq!['\\', '/'], seq!['/']) + seq![')'] }
pub open spec fn row_of(n: int, d: RuleContext) -> Row { (n as usize, tok_name(d), regex_of(tok_text(d))) }
pub open spec fn row(x: LexerRuleData) -> Row { (x.token_type, x.token_name@, x.regex@) }
pub open spec fn rows(q: Seq<LexerRuleData>) -> Seq<Row> { q.map_values(|x: LexerRuleData| row(x)) }

// ---- what reading one definition does, and what reading a file does
pub ghost struct St { pub rows: Seq<Row>, pub voc: VocView, pub nt: int, pub nr: int }
pub open spec fn t_known(v: VocView, name: Seq<char>) -> bool { exists|i: usize| #[trigger] v.t.contains_key(i) && v.t[i] == name }
pub open spec fn n_known(v: VocView, name: Seq<char>) -> bool { exists|i: usize| #[trigger] v.n.contains_key(i) && v.n[i] == name }
pub open spec fn step(s: St, d: RuleContext) -> St {
  if d.rule_index == OldP::LEXER_RULE {
    if t_known(s.voc, tok_name(d)) || !usable(tok_text(d)) { s } else {
      St { rows: s.rows.push(row_of(s.nt, d)), voc: VocView { t: s.voc.t.insert(s.nt as usize, tok_name(d)), ..s.voc }, nt: s.nt + 1, ..s }
    }
  } else {
    if n_known(s.voc, rule_name(d)) { s } else {
      St { voc: VocView { n: s.voc.n.insert(s.nr as usize, rule_name(d)), u: s.voc.u.insert(s.nr as usize), ..s.voc }, nr: s.nr + 1, ..s }
    }
  }
}
pub open spec fn steps(s: St, ds: Seq<RuleContext>) -> St decreases ds.len() { if ds.len() == 0 { s } else { step(steps(s, ds.drop_last()), ds.last()) } }
// the numbers from the next ones on are free
pub open spec fn free(s: St) -> bool {
  &&& forall|i: usize| s.voc.t.contains_key(i) ==> i < s.nt
  &&& forall|i: usize| s.voc.u.contains(i) ==> i < s.nr
}
pub open spec fn room(s: St, ds: Seq<RuleContext>) -> bool { 0 <= s.nt && 0 <= s.nr && s.nt + ds.len() <= usize::MAX && s.nr + ds.len() <= usize::MAX }
pub proof fn lemma_steps_cat(s: St, a: Seq<RuleContext>, b: Seq<RuleContext>)
  ensures steps(s, a + b) == steps(steps(s, a), b),
  decreases b.len()
{
  if b.len() == 0 { assert(a + b =~= a); } else {
    lemma_steps_cat(s, a, b.drop_last());
    assert((a + b).drop_last() =~= a + b.drop_last());
    assert((a + b).last() == b.last());
  }
}
pub proof fn lemma_free(s: St, ds: Seq<RuleContext>)
  requires free(s), room(s, ds),
  ensures free(steps(s, ds)), s.nt <= steps(s, ds).nt <= s.nt + ds.len(), s.nr <= steps(s, ds).nr <= s.nr + ds.len(),
  decreases ds.len()
{ if ds.len() > 0 { lemma_free(s, ds.drop_last()); } }

@source src/tool/visitor/grammar_visitor.rs
@item struct SymbolVisitor
pub type VxSyntaxisVisitor<'a> = SymbolVisitor<'a>;
@include c15sym.vxi
@include c15thm.vxi
fn main() {}
}
