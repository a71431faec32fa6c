#![allow(unused_imports, dead_code, unused_variables, unused_mut, non_snake_case, elided_lifetimes_in_paths)]
use vstd::prelude::*;
use std::collections::{HashMap, HashSet};
use vstd::utf8::*;
@include std.vxi
@include strbase.vxi
@include str.vxi
@include strtext.vxi
@include owned.vxi
verus! {
broadcast use {vstd::std_specs::hash::group_hash_axioms, vx::group_vx_str, vxs::ax_len, lits::lemma_after_cat, lits::lemma_after_none, lits::lemma_after_one, rp::lemma_repl_none};
@include ast.vxi
@include ctxref.vxi
impl RuleContext {
@source src/runtime/ast/rule_context.rs
@fn RuleContext:ToRule::as_rule
@pub
@ret r
@contract
  ensures *r == *self,
@endfn
}
pub mod old {
use super::*;
@set DIR src/tool/syntaxis
@include acc.vxi
}
use old::SyntaxisParser as OldP;
use old::SyntaxisLexer as OldL;
use old::{SyntaxisParser, SyntaxisLexer};
@set ACC old
@include ctxcall.vxi
@include anybox.vxi
@source src/tool/visitor/lexer_rule_visitor.rs
@item struct LexerRuleData derive=Debug,Serialize
// ---- the string literals of a grammar file, in order
pub open spec fn is_lit(t: TerminalContext) -> bool { t.symbol.token_type == OldL::STRING_LITERAL }
// as the grammar file's own lexer delivers it: between quotes (one byte each)
pub open spec fn def_ok(t: TerminalContext) -> bool { text(t).len() >= 2 && (text(t)[0] as u32) < 0x80 && (text(t).last() as u32) < 0x80 }
pub open spec fn body_of(t: Seq<char>) -> Seq<char> { t.subrange(1, t.len() - 1) }
pub open spec fn defs_node(r: RuleContext) -> Seq<TerminalContext> decreases r, 2nat, 0int { defs_below(r) }
pub open spec fn defs_below(r: RuleContext) -> Seq<TerminalContext> decreases r, 1nat, 0int { defs_upto(r, r.children@.len() as int) }
pub open spec fn defs_upto(r: RuleContext, n: int) -> Seq<TerminalContext> decreases r, 0nat, n {
  if n <= 0 || n > r.children@.len() { Seq::empty() } else { defs_upto(r, n - 1) + defs_child(r.children@[n - 1]) }
}
pub open spec fn defs_child(c: ASTContext) -> Seq<TerminalContext> decreases c, 0nat, 0int {
  match c { ASTContext::Rule(r) => defs_node(r), ASTContext::Terminal(t) => if is_lit(t) { seq![t] } else { Seq::empty() }, _ => Seq::empty() }
}
pub open spec fn all_ok(ds: Seq<TerminalContext>) -> bool { forall|i: int| 0 <= i < ds.len() ==> def_ok(#[trigger] ds[i]) }
pub proof fn lemma_prefix(r: RuleContext, i: int, m: int)
  requires 0 <= i <= m <= r.children@.len(),
  ensures defs_upto(r, i).len() <= defs_upto(r, m).len(), defs_upto(r, m).take(defs_upto(r, i).len() as int) == defs_upto(r, i),
  decreases m
{ if i < m { lemma_prefix(r, i, m - 1); assert(defs_upto(r, m).take(defs_upto(r, i).len() as int) =~= defs_upto(r, i)); } else { assert(defs_upto(r, m).take(defs_upto(r, i).len() as int) =~= defs_upto(r, i)); } }
// the definitions below one child are among those below the node
pub proof fn lemma_part(r: RuleContext, i: int)
  requires 0 <= i < r.children@.len(),
  ensures defs_upto(r, i).len() + defs_child(r.children@[i]).len() <= defs_below(r).len(), all_ok(defs_below(r)) ==> all_ok(defs_child(r.children@[i])),
{
  let p = defs_upto(r, i); let c = defs_child(r.children@[i]); let a = defs_below(r);
  lemma_prefix(r, i + 1, r.children@.len() as int);
  assert(defs_upto(r, i + 1) == p + c);
  assert forall|k: int| 0 <= k < c.len() && all_ok(a) implies def_ok(#[trigger] c[k]) by { assert((p + c)[p.len() + k] == c[k]); assert(a.take((p + c).len() as int)[p.len() + k] == a[p.len() + k]); assert(def_ok(a[p.len() + k])); }
}

// ---- the distinct literals read so far, in order of first occurrence
pub mod lits {
use super::*;
pub open spec fn text(t: TerminalContext) -> Seq<char> { t.symbol.text@ }
pub open spec fn after(l: Seq<Seq<char>>, ds: Seq<TerminalContext>) -> Seq<Seq<char>> decreases ds.len() {
  if ds.len() == 0 { l } else { let m = after(l, ds.drop_last()); let t = text(ds.last()); if m.contains(t) { m } else { m.push(t) } }
}
pub broadcast proof fn lemma_after_cat(l: Seq<Seq<char>>, a: Seq<TerminalContext>, b: Seq<TerminalContext>)
  ensures #[trigger] after(l, a + b) == after(after(l, a), b),
  decreases b.len()
{
  if b.len() == 0 { assert(a + b =~= a); } else {
    lemma_after_cat(l, a, b.drop_last());
    assert((a + b).drop_last() =~= a + b.drop_last());
    assert((a + b).last() == b.last());
  }
}
pub broadcast proof fn lemma_after_none(l: Seq<Seq<char>>, ds: Seq<TerminalContext>) requires ds.len() == 0 ensures #[trigger] after(l, ds) == l {}
pub broadcast proof fn lemma_after_one(l: Seq<Seq<char>>, t: TerminalContext) ensures #[trigger] after(l, seq![t]) == (if l.contains(text(t)) { l } else { l.push(text(t)) }) {
  assert(seq![t].drop_last() =~= Seq::empty()); assert(after(l, Seq::empty()) == l);
}
}
use lits::*;
pub mod rp {
use super::*;
// nothing is replaced in a text without the pattern's first character
pub broadcast proof fn lemma_repl_none(s: Seq<char>, p: Seq<char>, t: Seq<char>)
  requires p.len() > 0, forall|i: int| 0 <= i < s.len() ==> s[i] != p[0],
  ensures #[trigger] repl(s, p, t) == s,
  decreases s.len()
{
  reveal(repl);
  if s.len() > 0 { if s.len() >= p.len() { assert(s.take(p.len() as int)[0] == s[0]); lemma_repl_none(s.skip(1), p, t); assert(seq![s[0]] + s.skip(1) =~= s); } }
}
}
pub proof fn lemma_ascii1(c: char)
  requires (c as u32) < 0x80,
  ensures by(seq![c]) == seq![c as u8],
{ is_ascii_chars_encode_utf8(seq![c]); assert(by(seq![c]) =~= seq![c as u8]); }
pub proof fn lemma_quoted(t: Seq<char>)
  requires t.len() >= 2, (t[0] as u32) < 0x80, (t.last() as u32) < 0x80,
  ensures by(t).len() == by(body_of(t)).len() + 2, by(t).subrange(1, by(t).len() - 1) == by(body_of(t)), cut(by(t), 1), cut(by(t), by(t).len() - 1),
    forall|r: Seq<char>| #[trigger] by(r) == by(body_of(t)) ==> r == body_of(t),
{
  let m = body_of(t); let a = seq![t[0]]; let z = seq![t.last()];
  lemma_ascii1(t[0]); lemma_ascii1(t.last());
  encode_utf8_concat(a, m); encode_utf8_concat(a + m, z);
  assert(t =~= (a + m) + z);
  assert(by(t) =~= (by(a) + by(m)) + by(z));
  assert(by(t).subrange(1, by(t).len() - 1) =~= by(m));
  if m.len() > 0 {
    let h = seq![m[0]]; let k = m.skip(1);
    encode_utf8_concat(h, k); assert(m =~= h + k);
    lemma_head(m[0]);
    assert(by(m)[0] == by(h)[0]); assert(by(t)[1] == by(m)[0]);
  } else { assert(by(m).len() == 0) by { encode_utf8_decode_utf8(m); encode_utf8_concat(m, m); assert(m + m =~= m); } }
  assert forall|r: Seq<char>| #[trigger] by(r) == by(m) implies r == m by { encode_utf8_decode_utf8(r); encode_utf8_decode_utf8(m); }
}
// no character's first byte is a continuation byte
pub proof fn lemma_head(c: char) ensures by(seq![c]).len() > 0, !(0x80 <= by(seq![c])[0] < 0xC0) {
  encode_utf8_valid_utf8(seq![c]); encode_utf8_first_scalar(seq![c]);
}

// a literal without escapes and operators is recognised by exactly itself
pub open spec fn plain(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> s[i] != '\\' && s[i] != '+' && s[i] != '*' }
pub open spec fn anchored(r: Seq<char>) -> bool { r.len() >= 3 && r[0] == '^' && r[1] == '(' && r.last() == ')' }
pub open spec fn row_ok(x: LexerRuleData, n: int, t: Seq<char>) -> bool {
  &&& x.token_type == n && x.token_name@ == seq!['T', '_'] + dec(n)
  &&& anchored(x.regex@) && (plain(body_of(t)) ==> x.regex@ == seq!['^', '('] + body_of(t) + seq![')'])
}
// the table's last rows are those of the literals l, numbered consecutively up to the next free number
pub open spec fn inv(v: StringLiteralVisitor, l: Seq<Seq<char>>) -> bool {
  &&& l.len() <= v.data@.len() && l.len() <= v.next_token_type
  &&& forall|k: int| 0 <= k < l.len() ==> row_ok(#[trigger] v.data@[v.data@.len() - l.len() + k], v.next_token_type - l.len() + k, l[k])
  &&& forall|s: String| #[trigger] v.cache@.contains(s) <==> l.contains(s@)
}
@source src/tool/visitor/lexer_rule_visitor.rs
@item struct StringLiteralVisitor
pub type VxSyntaxisVisitor<'a> = StringLiteralVisitor;
pub open spec fn read(v: StringLiteralVisitor, ds: Seq<TerminalContext>, w: StringLiteralVisitor) -> bool {
  &&& forall|l: Seq<Seq<char>>| #[trigger] inv(v, l) ==> inv(w, after(l, ds))
  &&& v.data@.len() <= w.data@.len() && w.data@.take(v.data@.len() as int) =~= v.data@
  &&& v.next_token_type <= w.next_token_type <= v.next_token_type + ds.len()
}
pub open spec fn ready(v: StringLiteralVisitor, ds: Seq<TerminalContext>) -> bool { all_ok(ds) && v.next_token_type + ds.len() <= usize::MAX }
pub ghost struct St { pub x: int }
pub open spec fn st(v: StringLiteralVisitor) -> St { St { x: 0 } }
pub open spec fn steps(s: St, ds: Seq<TerminalContext>) -> St { s }
pub proof fn lemma_steps_cat(s: St, a: Seq<TerminalContext>, b: Seq<TerminalContext>) {}
pub proof fn lemma_free(s: St, ds: Seq<TerminalContext>) {}
@opt ctxref ctxarg anybox dynimpl str fmt
@method replace vx_replace
@method to_owned vx_to_owned
@method to_string vx_to_owned
impl StringLiteralVisitor {
@set VIS StringLiteralVisitor
@set DEF TerminalContext
@fn StringLiteralVisitor::new
@pub
@ret r
@contract
  ensures inv(r, Seq::empty()), r.data@.len() == 0,
@endfn
@fn StringLiteralVisitor:SyntaxisVisitor::visit_terminal
@pub
@ret r
@contract
  requires ready(*old(self), defs_child(ASTContext::Terminal(*$0$))),
  ensures read(*old(self), defs_child(ASTContext::Terminal(*$0$)), *final(self)),
@begin
  let ghost vx_t = text(*$0$);
  proof { $lits }
  proof { if is_lit(*$0$) { assert(defs_child(ASTContext::Terminal(*$0$))[0] == *$0$); lemma_quoted(vx_t); } }
@end
  proof {
    let v = *old(self); let w = *self; let ds = defs_child(ASTContext::Terminal(*$0$)); let body = body_of(vx_t);
    if !is_lit(*$0$) { assert(ds.len() == 0); }
    else if w.data@.len() == v.data@.len() + 1 {
      assert(ds == seq![*$0$]);
      let x = w.data@.last();
      assert(x.token_name@ =~= seq!['T', '_'] + dec(v.next_token_type as int));
      if plain(body) { assert(x.regex@ =~= seq!['^', '('] + body + seq![')']); }
      assert forall|l: Seq<Seq<char>>| #[trigger] inv(v, l) implies inv(w, after(l, ds)) by {
        let m = after(l, ds);
        assert(!l.contains(vx_t)) by { if l.contains(vx_t) { assert(v.cache@.contains(str_of(vx_t))); } }
        assert(m == l.push(vx_t));
        assert forall|k: int| 0 <= k < m.len() implies row_ok(#[trigger] w.data@[w.data@.len() - m.len() + k], w.next_token_type - m.len() + k, m[k]) by {
          if k < l.len() { assert(w.data@[w.data@.len() - m.len() + k] == v.data@[v.data@.len() - l.len() + k]); assert(m[k] == l[k]); }
          else { assert(w.data@[w.data@.len() - m.len() + k] == x); }
        }
        assert forall|s: String| #[trigger] w.cache@.contains(s) <==> m.contains(s@) by {
          if m.contains(s@) { let i = m.index_of(s@); assert(m[i] == s@); if i < l.len() { assert(l[i] == s@); assert(l.contains(s@)); } }
          if l.contains(s@) { let i = choose|i: int| 0 <= i < l.len() && l[i] == s@; assert(m[i] == s@); }
          assert(m[l.len() as int] == vx_t);
        }
      }
    }
  }
@endfn
@fn %VIS%:SyntaxisVisitor::visit_parser_rule ?? src/tool/syntaxis/syntaxis_visitor.rs trait SyntaxisVisitor::visit_parser_rule
@pub
@ret r
@contract
  requires ready(*old(self), defs_below(*$0$.0)),
  ensures read(*old(self), defs_below(*$0$.0), *final(self)),
  decreases *$0$.0, 1int,
@endfn
@fn %VIS%:SyntaxisVisitor::visit_lexer_rule ?? src/tool/syntaxis/syntaxis_visitor.rs trait SyntaxisVisitor::visit_lexer_rule
@pub
@ret r
@contract
  requires ready(*old(self), defs_below(*$0$.0)),
  ensures read(*old(self), defs_below(*$0$.0), *final(self)),
  decreases *$0$.0, 1int,
@endfn
@fn %VIS%:SyntaxisVisitor::visit_element ?? src/tool/syntaxis/syntaxis_visitor.rs trait SyntaxisVisitor::visit_element
@pub
@ret r
@contract
  requires ready(*old(self), defs_below(*$0$.0)),
  ensures read(*old(self), defs_below(*$0$.0), *final(self)),
  decreases *$0$.0, 1int,
@endfn
@include c15trav.vxi
}
@include c15acc.vxi
// ---- the whole file: one row per distinct literal, none left out
pub proof fn c15_literals(ds: Seq<TerminalContext>)
  ensures ({
    let l = after(Seq::empty(), ds);
    &&& l.no_duplicates()
    &&& forall|i: int| 0 <= i < ds.len() ==> l.contains(text(#[trigger] ds[i]))
    &&& forall|k: int| 0 <= k < l.len() ==> exists|i: int| 0 <= i < ds.len() && text(#[trigger] ds[i]) == #[trigger] l[k]
  }),
  decreases ds.len()
{
  let l = after(Seq::empty(), ds);
  if ds.len() > 0 {
    let d0 = ds.drop_last(); let m = after(Seq::empty(), d0); let t = text(ds.last());
    c15_literals(d0);
    assert forall|i: int| 0 <= i < ds.len() implies l.contains(text(#[trigger] ds[i])) by {
      if i < d0.len() { assert(d0[i] == ds[i]); let k = m.index_of(text(ds[i])); assert(m[k] == text(ds[i])); assert(l[k] == text(ds[i])); }
      else if !m.contains(t) { assert(l[m.len() as int] == t); }
    }
    assert forall|k: int| 0 <= k < l.len() implies exists|i: int| 0 <= i < ds.len() && text(#[trigger] ds[i]) == #[trigger] l[k] by {
      if k < m.len() { let i = choose|i: int| 0 <= i < d0.len() && text(#[trigger] d0[i]) == m[k]; assert(text(ds[i]) == l[k]); }
      else { assert(text(ds[ds.len() - 1]) == l[k]); }
    }
  }
}
fn main() {}
}
