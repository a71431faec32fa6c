#![allow(unused_imports, dead_code, unused_variables, unused_mut, non_snake_case)]
use vstd::prelude::*;
@include std.vxi
verus! {
@include treetypes.vxi
impl RuleContext {
@source src/runtime/ast/rule_context.rs
@fn RuleContext::get_rule_index
@pub
@ret r
@contract
  ensures r == self.rule_index,
@endfn
@fn RuleContext:ToRule::as_rule
@pub
@ret r
@contract
  ensures *r == *self,
@endfn
}
// ---- results are opaque boxes
#[verifier::external_body] pub struct AnyBox { x: usize }
pub uninterp spec fn boxed<T>(t: T) -> AnyBox;
impl AnyBox { #[verifier::external_body] pub fn new<T>(t: T) -> (r: AnyBox) ensures r == boxed(t) { unimplemented!() } }
// ---- the calls a visitor body can make, with their results
pub enum Ev {
  Hook(usize, RuleContext, AnyBox), Visit(RuleContext, AnyBox), Children(RuleContext, AnyBox), Term(TerminalContext, AnyBox), Err(ErrorContext, AnyBox),
  Default(AnyBox), Agg(AnyBox, AnyBox, AnyBox), Should(RuleContext, AnyBox, bool),
}
// ---- the hand-written module
pub mod old_vis {
use vstd::prelude::*;
use super::*;
@set DIR src/tool/syntaxis
@include visit.vxi
}
// ---- the bootstrapped module
pub mod v1_vis {
use vstd::prelude::*;
use super::*;
@set DIR src/tool/v1
@include visit.vxi
}
fn main() {}
}
