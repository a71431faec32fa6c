#![allow(unused_imports, dead_code, unused_variables, unused_mut)]
use vstd::prelude::*;
use std::collections::{HashMap, HashSet};
@include std.vxi
verus! {
broadcast use {vstd::std_specs::hash::group_hash_axioms, vx::group_vx_str};

@include vocimpl.vxi

// one-to-one: the property over the contracts
proof fn c01_one_to_one(v: Vocabulary)
  requires v.wf()
  ensures
    forall|i: usize, j: usize| v.view().t.contains_key(i) && v.view().t.contains_key(j) && v.view().t[i] == v.view().t[j] ==> i == j,
    forall|i: usize, j: usize| v.view().n.contains_key(i) && v.view().n.contains_key(j) && v.view().n[i] == v.view().n[j] ==> i == j,
{
  assert forall|i: usize, j: usize| v.view().t.contains_key(i) && v.view().t.contains_key(j) && v.view().t[i] == v.view().t[j] implies i == j by {
    assert(v.terminal_id_to_name@.contains_key(i) && v.terminal_id_to_name@.contains_key(j));
    assert(str_of(v.terminal_id_to_name@[i]@) == str_of(v.terminal_id_to_name@[j]@));
  }
  assert forall|i: usize, j: usize| v.view().n.contains_key(i) && v.view().n.contains_key(j) && v.view().n[i] == v.view().n[j] implies i == j by {
    assert(v.non_terminal_id_to_name@.contains_key(i) && v.non_terminal_id_to_name@.contains_key(j));
    assert(str_of(v.non_terminal_id_to_name@[i]@) == str_of(v.non_terminal_id_to_name@[j]@));
  }
}
fn main() {}
} // verus!
