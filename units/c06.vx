#![feature(allocator_api)]
#![allow(unused_imports, dead_code, unused_variables, unused_mut, non_snake_case)]
use vstd::prelude::*;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;
@include std.vxi
@include hash.vxi
@include own.vxi
verus! {
broadcast use {vstd::std_specs::hash::group_hash_axioms, vx::group_vx_str, vxh::ax_key_of, vxh::lemma_seen, vxo::lemma_borrowed, vxo::lemma_handed, ax_prod_key::ax, ax_pair_key::ax};
@include vocnames.vxi
@include grambase2.vxi
pub mod ax_pair_key { use super::*;
// Hash and Eq of a pair of numbers
pub broadcast axiom fn ax() ensures #[trigger] vstd::std_specs::hash::obeys_key_model::<(usize, usize)>();
}
@include follow.vxi
@include table.vxi
@include treetypes.vxi
@include tree.vxi
@include dtree.vxi
@source src/tool/grammar/mod.rs
@opt vecslice own
impl Grammar {
@include decl.vxi
@include ffs.vxi
@include first.vxi
@include followset.vxi
@include ll1.vxi
}
@opt -vecslice -own
@source src/tool/parser/ll1_parser.rs
@item struct LL1Parser
@set TY LL1Parser
@set VOC grammar.vocabulary
@set FILE src/tool/parser/ll1_parser.rs
@include parse.vxi
@fn LL1Parser::new
@pub
@ret r
@contract
  ensures r.tokens == $0$, r.table == $1$, r.grammar == $2$,
@endfn
@fn LL1Parser::parse
@pub
@ret r
@contract
  requires self.runs(0, 0),
  ensures kids(r) == self.value(0, 0).0, r.rule_index == 0, self.named(0) ==> r.rule_name@ == self.label(0),
@endfn
@include derive.vxi
}
@include c06.vxi
fn main() {}
}
