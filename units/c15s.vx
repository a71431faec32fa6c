#![allow(unused_imports, dead_code, unused_variables, unused_mut, non_snake_case, elided_lifetimes_in_paths)]
use vstd::prelude::*;
use std::collections::{HashMap, HashSet};
use vstd::utf8::*;
@include std.vxi
@include strbase.vxi
@include str.vxi
@include strtext.vxi
@include owned.vxi
verus! {
broadcast use {vstd::std_specs::hash::group_hash_axioms, vx::group_vx_str, vxs::ax_len};
@include vocimpl.vxi
@include ast.vxi
@include ctxref.vxi
impl RuleContext {
@source src/runtime/ast/rule_context.rs
@fn RuleContext:ToRule::as_rule
@pub
@ret r
@contract
  ensures *r == *self,
@endfn
}
pub mod old {
use super::*;
@set DIR src/tool/syntaxis
@include acc.vxi
}
use old::SyntaxisParser as OldP;
use old::SyntaxisLexer as OldL;
use old::{SyntaxisParser, SyntaxisLexer};
@set ACC old
@include ctxcall.vxi
@include anybox.vxi
@source src/tool/grammar/mod.rs
@item enum ProductionItem derive=PartialEq,Eq,Hash,Clone,Copy
@item struct Production derive=PartialEq,Eq,Hash,Clone
@item struct Grammar
@source src/tool/visitor/lexer_rule_visitor.rs
@item struct LexerRuleData derive=Debug,Serialize
// ---- the elements of a grammar file; the first pass looks for literals among them
pub open spec fn is_def(r: RuleContext) -> bool { r.rule_index == OldP::ELEMENT }
pub open spec fn def_ok(d: RuleContext) -> bool { terms(d.children@, OldL::STRING_LITERAL).len() == 0 }
pub ghost struct St { pub x: int }
pub open spec fn step(s: St, d: RuleContext) -> St { s }
@include c15defs.vxi
pub proof fn lemma_free(s: St, ds: Seq<RuleContext>) ensures steps(s, ds) == s, decreases ds.len() { if ds.len() > 0 { lemma_free(s, ds.drop_last()); } }
@source src/tool/visitor/grammar_visitor.rs
@item struct StringLiteralToTokenVisitor
pub type VxSyntaxisVisitor<'a> = StringLiteralToTokenVisitor<'a>;
pub open spec fn st(v: StringLiteralToTokenVisitor) -> St { St { x: 0 } }
#[verifier::prophetic] pub open spec fn read(v: StringLiteralToTokenVisitor, ds: Seq<RuleContext>, w: StringLiteralToTokenVisitor) -> bool {
  *v.grammar == *w.grammar && *final(v.grammar) == *final(w.grammar) && v.next_token_id == w.next_token_id && v.data == w.data
}
pub open spec fn ready(v: StringLiteralToTokenVisitor, ds: Seq<RuleContext>) -> bool { all_ok(ds) && v.grammar.vocabulary.wf() }
@opt ctxref ctxarg anybox dynimpl str fmt
@method replace vx_replace
@method to_owned vx_to_owned
impl<'a> StringLiteralToTokenVisitor<'a> {
@set VIS StringLiteralToTokenVisitor
@set DEF RuleContext
// not written yet in the original: never called on a file without literals
#[verifier::external_body] fn escape(_input: &str) -> (r: String) requires false { unimplemented!() }
#[verifier::external_body] fn regular_escape(_input: &str) -> (r: String) requires false { unimplemented!() }
@fn StringLiteralToTokenVisitor::new
@pub
@ret r
@contract
  ensures r.next_token_id == $1$, r.data@.len() == 0, *r.grammar == *old($0$), *final(r.grammar) == *final($0$),
@endfn
@fn StringLiteralToTokenVisitor:SyntaxisVisitor::visit_element
@pub
@ret r
@contract
  requires ready(*old(self), seq![*$0$.0]), $0$.0.rule_index == OldP::ELEMENT,
  ensures read(*old(self), seq![*$0$.0], *final(self)),
  decreases *$0$.0, 1int,
@begin
  proof { assert(def_ok(seq![*$0$.0][0])); }
@endfn
@fn %VIS%:SyntaxisVisitor::visit_parser_rule ?? src/tool/syntaxis/syntaxis_visitor.rs trait SyntaxisVisitor::visit_parser_rule
@pub
@ret r
@contract
  requires ready(*old(self), defs_below(*$0$.0)),
  ensures read(*old(self), defs_below(*$0$.0), *final(self)),
  decreases *$0$.0, 1int,
@endfn
@fn %VIS%:SyntaxisVisitor::visit_lexer_rule ?? src/tool/syntaxis/syntaxis_visitor.rs trait SyntaxisVisitor::visit_lexer_rule
@pub
@ret r
@contract
  requires ready(*old(self), defs_below(*$0$.0)),
  ensures read(*old(self), defs_below(*$0$.0), *final(self)),
  decreases *$0$.0, 1int,
@endfn
@include c15trav.vxi
}
@include c15acc.vxi
fn main() {}
}
