#![feature(allocator_api)]
#![allow(unused_imports, dead_code, unused_variables, unused_mut, non_snake_case, non_camel_case_types)]
use vstd::prelude::*;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;
@include std.vxi
@include hash.vxi
verus! {
broadcast use {vstd::std_specs::hash::group_hash_axioms, vx::group_vx_str, vxh::ax_key_of, ax_pair_key::ax};
@include vocnames.vxi
@include halts.vxi
@include gram.vxi
@include treetypes.vxi
@include tree.vxi
pub mod ax_pair_key { use super::*;
// Hash and Eq of a pair of numbers
pub broadcast axiom fn ax() ensures #[trigger] vstd::std_specs::hash::obeys_key_model::<(usize, usize)>();
}
@source src/tool/parser/ll1_parser.rs
@item struct LL1Parser
@set TY LL1Parser
@set VOC grammar.vocabulary
@set FILE src/tool/parser/ll1_parser.rs
@include parsep.vxi
@fn LL1Parser::parse
@attr
  #[verifier::exec_allows_no_decreases_clause]
@pub
@ret r
@contract
  ensures self.runs(0, 0), kids(r) == self.value(0, 0).0, r.rule_index == 0, self.named(0) ==> r.rule_name@ == self.label(0),
@endfn
}
@source src/tool/v1/syntaxis_parser.rs
@item struct SyntaxisParser
@set TY SyntaxisParser
@set VOC vocabulary
@set FILE src/tool/v1/syntaxis_parser.rs
impl SyntaxisParser {
@consts SyntaxisParser
}
@include boxes.vxi
@include parsep.vxi
@fn SyntaxisParser::parse
@attr
  #[verifier::exec_allows_no_decreases_clause]
@pub
@ret r
@contract
  ensures self.runs(SyntaxisParser::RULE_LIST, 0), kids(r) == self.value(SyntaxisParser::RULE_LIST, 0).0, r.rule_index == SyntaxisParser::RULE_LIST, self.named(SyntaxisParser::RULE_LIST) ==> r.rule_name@ == self.label(SyntaxisParser::RULE_LIST),
@endfn
@set MODE c05p
@include entries.vxi
}
// the leaves of a parse are the tokens from the first one on, each once
pub proof fn c05_leaves_ll1(p: LL1Parser, rule: usize)
  requires p.runs(rule, 0),
  ensures yields(p.value(rule, 0).0) == p.tokens@.subrange(0, p.value(rule, 0).1),
{ let n = choose|n: nat| (#[trigger] p.run(n, rule, 0)).is_some(); p.lemma_min(n, rule, 0); p.lemma_yield(p.need(rule, 0), rule, 0); }
pub proof fn c05_leaves_v1(p: SyntaxisParser, rule: usize)
  requires p.runs(rule, 0),
  ensures yields(p.value(rule, 0).0) == p.tokens@.subrange(0, p.value(rule, 0).1),
{ let n = choose|n: nat| (#[trigger] p.run(n, rule, 0)).is_some(); p.lemma_min(n, rule, 0); p.lemma_yield(p.need(rule, 0), rule, 0); }
fn main() {}
}
