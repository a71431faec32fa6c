#![feature(allocator_api)]
#![allow(unused_imports, dead_code, unused_variables, unused_mut, non_snake_case, elided_lifetimes_in_paths)]
use vstd::prelude::*;
use std::collections::{HashMap, HashSet};
@include std.vxi
@include hash.vxi
@include copies.vxi
verus! {
broadcast use {vstd::std_specs::hash::group_hash_axioms, vx::group_vx_str, ax_prod_key::ax, ax_item_key::ax, ax_rights_key::ax};
@include vocimpl.vxi
@include ast.vxi
@include ctxref.vxi
impl RuleContext {
@source src/runtime/ast/rule_context.rs
@fn RuleContext:ToRule::as_rule
@pub
@ret r
@contract
  ensures *r == *self,
@endfn
}
pub mod old {
use super::*;
@set DIR src/tool/syntaxis
@include acc.vxi
}
use old::SyntaxisParser as OldP;
use old::SyntaxisLexer as OldL;
use old::{SyntaxisParser, SyntaxisLexer};
@set ACC old
@include ctxcall.vxi
@include anybox.vxi
@source src/tool/grammar/mod.rs
@item enum ProductionItem derive=PartialEq,Eq,Hash,Clone,Copy
@item struct Production derive=PartialEq,Eq,Hash,Clone
@item struct Grammar
impl Copy for ProductionItem {}
impl Clone for ProductionItem { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl PartialEq for ProductionItem { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
impl Eq for ProductionItem {}
impl std::hash::Hash for ProductionItem { #[verifier::external_body] fn hash<H: std::hash::Hasher>(&self, h: &mut H) { unimplemented!() } }
impl PartialEq for Production { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
impl Eq for Production {}
impl std::hash::Hash for Production { #[verifier::external_body] fn hash<H: std::hash::Hasher>(&self, h: &mut H) { unimplemented!() } }
// derived Hash and Eq agree with structural equality
pub mod ax_prod_key { use super::*; pub broadcast axiom fn ax() ensures #[trigger] vstd::std_specs::hash::obeys_key_model::<Production>(); }
pub mod ax_item_key { use super::*; pub broadcast axiom fn ax() ensures #[trigger] vstd::std_specs::hash::obeys_key_model::<ProductionItem>(); }
pub mod ax_rights_key { use super::*; pub broadcast axiom fn ax() ensures #[trigger] vstd::std_specs::hash::obeys_key_model::<Vec<Vec<ProductionItem>>>(); }
@include ebnf.vxi
@include c16prod.vxi
@include c16thm.vxi
fn main() {}
}
