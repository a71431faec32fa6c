#![allow(unused_imports, dead_code, unused_variables, unused_mut)]
use vstd::prelude::*;
use std::collections::{HashMap, HashSet};
@include std.vxi
@include strbase.vxi
@include str.vxi
verus! {
@include ast.vxi
@include leaves.vxi

impl RuleContext {
@source src/runtime/ast/rule_context.rs
@opt str
@fn RuleContext::get_start_token
@pub
@ret r
@contract
  ensures
    r.is_some() == (all_leaves(*self).len() > 0),
    r.is_some() ==> r.unwrap() == all_leaves(*self)[0],
  decreases *self
@loop 0
  invariant
    $n0 == self.children@.len(),
    forall|j: int| 0 <= j < $n0 ==> $e0(j) == self.children@[j],
    rleaves(*self, $i0 as int).len() == 0,
@top 0
  proof {
    lemma_rleaves_prefix(*self, $i0 + 1, self.children@.len() as int);
    assert(decreases_to!(*self => self.children@[$i0 as int]));
    let c = leaves(self.children@[$i0 as int]);
    assert(rleaves(*self, $i0 + 1) =~= c);
    if c.len() > 0 { assert(all_leaves(*self).take(c.len() as int)[0] == c[0]); }
  }
@endfn
@fn RuleContext::get_stop_token
@pub
@ret r
@contract
  ensures
    r.is_some() == (all_leaves(*self).len() > 0),
    r.is_some() ==> r.unwrap() == all_leaves(*self).last(),
  decreases *self
@loop 0
  invariant
    $n0 == self.children@.len(),
    forall|j: int| 0 <= j < $n0 ==> $e0(j) == self.children@[self.children@.len() - 1 - j],
    rleaves(*self, self.children@.len() - $i0) == all_leaves(*self),
@top 0
  proof {
    let k = self.children@.len() - 1 - $i0;
    assert(decreases_to!(*self => self.children@[k]));
    assert(all_leaves(*self) == rleaves(*self, k) + leaves(self.children@[k]));
    if leaves(self.children@[k]).len() == 0 { assert(all_leaves(*self) =~= rleaves(*self, k)); }
  }
@endfn
@fn RuleContext::get_text
@pub
@ret r
@contract
  requires
    all_leaves(*self).len() > 0 ==> {
      &&& all_leaves(*self)[0].char_start_index <= all_leaves(*self).last().char_stop_index
      &&& cut(by($0$@), all_leaves(*self)[0].char_start_index as int)
      &&& cut(by($0$@), all_leaves(*self).last().char_stop_index as int)
    },
  ensures
    all_leaves(*self).len() == 0 ==> by(r@).len() == 0,
    all_leaves(*self).len() > 0 ==>
      by(r@) == by($0$@).subrange(all_leaves(*self)[0].char_start_index as int, all_leaves(*self).last().char_stop_index as int),
@begin
  proof { reveal_strlit(""); reveal_with_fuel(vstd::utf8::encode_utf8, 2); assert(by(""@) =~= Seq::<u8>::empty()); }
@endfn
}
fn main() {}
}
