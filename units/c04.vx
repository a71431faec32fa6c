#![feature(allocator_api)]
#![allow(unused_imports, dead_code, unused_variables, unused_mut)]
use vstd::prelude::*;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;
@include std.vxi
@include hash.vxi
verus! {
broadcast use {vstd::std_specs::hash::group_hash_axioms, vx::group_vx_str, vxh::ax_key_of, vxh::lemma_seen, ax_prod_key::ax, ax_pair_key::ax};
@include grambase.vxi
pub mod ax_pair_key { use super::*;
// Hash and Eq of a pair of numbers
pub broadcast axiom fn ax() ensures #[trigger] vstd::std_specs::hash::obeys_key_model::<(usize, usize)>();
}
@include table.vxi
@source src/tool/grammar/mod.rs
impl Grammar {
@include ll1.vxi
}
// a grammar without conflicts: the entry is the one predicted production
pub proof fn c04_unique(g: Set<Production>, f: Map<Production, Collection>, fo: Map<usize, HashSet<usize>>, r: Map<(usize, usize), Rc<Production>>, p: Production, t: usize)
  requires
    table_ok(g, f, fo, r), g.contains(p), predicted(f, fo, p, t),
    forall|q: Production| #[trigger] g.contains(q) && q.left == p.left && predicted(f, fo, q, t) ==> q == p,
  ensures r.contains_key((p.left, t)), *r[(p.left, t)] == p,
{
  assert(claims(g, f, fo, p.left, t));
  let e = r[(p.left, t)];
  assert(r.contains_key((p.left, t)));
  assert(g.contains(*e));
}
fn main() {}
}
