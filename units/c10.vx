#![allow(unused_imports, dead_code, unused_variables, unused_mut)]
use vstd::prelude::*;
use std::collections::{HashMap, HashSet};
@include std.vxi
verus! {
@include ast.vxi

// C10 in one statement: what is listed is exactly the matching direct children, in order
// (position k of the list is the child at a strictly increasing place of the node)
pub proof fn c10_exactly(cs: Seq<ASTContext>, ty: usize)
  ensures
    exists|at: Seq<int>| picks(cs, ty, at),
  decreases cs.len()
{
  if cs.len() == 0 {
    assert(picks(cs, ty, Seq::empty()));
  } else {
    c10_exactly(cs.drop_last(), ty);
    let a = choose|a: Seq<int>| picks(cs.drop_last(), ty, a);
    let hit = match cs.last() { ASTContext::Terminal(t) => t.symbol.token_type == ty, _ => false };
    let b = if hit { a.push(cs.len() - 1) } else { a };
    assert forall|i: int| 0 <= i < cs.len() && (cs[i] matches ASTContext::Terminal(t) && t.symbol.token_type == ty) implies b.contains(i) by {
      if i < cs.len() - 1 {
        assert(cs.drop_last()[i] == cs[i]);
        assert(a.contains(i));
        let k = choose|k: int| 0 <= k < a.len() && a[k] == i;
        assert(b[k] == i);
      } else { assert(b[b.len() - 1] == i); }
    }
    assert forall|k: int| 0 <= k < b.len() implies 0 <= #[trigger] b[k] < cs.len() && cs[b[k]] == ASTContext::Terminal(terms(cs, ty)[k]) by {
      if k < a.len() { assert(a[k] == b[k]); assert(cs.drop_last()[a[k]] == cs[a[k]]); }
    }
    assert(picks(cs, ty, b));
  }
}
pub open spec fn picks(cs: Seq<ASTContext>, ty: usize, at: Seq<int>) -> bool {
  &&& at.len() == terms(cs, ty).len()
  &&& forall|k: int| 0 <= k < at.len() ==> 0 <= #[trigger] at[k] < cs.len() && cs[at[k]] == ASTContext::Terminal(terms(cs, ty)[k])
  &&& forall|j: int, k: int| 0 <= j < k < at.len() ==> #[trigger] at[j] < #[trigger] at[k]
  &&& forall|i: int| 0 <= i < cs.len() && (cs[i] matches ASTContext::Terminal(t) && t.symbol.token_type == ty) ==> at.contains(i)
}
fn main() {}
}
