#![feature(allocator_api)]
#![allow(unused_imports, dead_code, unused_variables, unused_mut, non_snake_case, non_camel_case_types)]
use vstd::prelude::*;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;
@include std.vxi
verus! {
@source src/runtime/vocabulary.rs
@item struct Vocabulary
@source src/tool/grammar/mod.rs
@item enum ProductionItem derive=PartialEq,Eq,Hash,Clone,Copy
@item struct Production derive=PartialEq,Eq,Hash,Clone
@include treetypes.vxi
@include boxes.vxi
@source src/tool/v1/syntaxis_parser.rs
@item struct SyntaxisParser
impl SyntaxisParser {
@consts SyntaxisParser
// proved in C05
#[verifier::external_body]
fn parse_ast(&self, cursor: usize, rule_index: usize) -> (r: (RuleContext, usize)) ensures r.0.rule_index == rule_index { unimplemented!() }
@set MODE c12
@include entries.vxi
}
fn main() {}
}
