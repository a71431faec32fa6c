#![allow(unused_imports, dead_code, unused_variables, unused_mut, non_snake_case, elided_lifetimes_in_paths)]
use vstd::prelude::*;
use std::collections::{HashMap, HashSet};
use vstd::utf8::*;
@include std.vxi
@include strbase.vxi
@include str.vxi
@include strtext.vxi
@include owned.vxi
verus! {
broadcast use {vstd::std_specs::hash::group_hash_axioms, vx::group_vx_str, vxs::ax_len};
@include ast.vxi
@include ctxref.vxi
impl RuleContext {
@source src/runtime/ast/rule_context.rs
@fn RuleContext:ToRule::as_rule
@pub
@ret r
@contract
  ensures *r == *self,
@endfn
}
pub mod old {
use super::*;
@set DIR src/tool/syntaxis
@include acc.vxi
}
use old::SyntaxisParser as OldP;
use old::SyntaxisLexer as OldL;
use old::{SyntaxisParser, SyntaxisLexer};
@set ACC old
@include ctxcall.vxi
@include anybox.vxi
@source src/tool/visitor/lexer_rule_visitor.rs
@item struct LexerRuleData derive=Debug,Serialize
// the parts of a definition
pub open spec fn tok_name(d: RuleContext) -> Seq<char> { terms(d.children@, OldL::TOKEN_REF)[0].symbol.text@ }
pub open spec fn tok_text(d: RuleContext) -> Seq<char> { terms(subs(d.children@, OldP::REGULAR)[0].children@, OldL::REGULAR_LITERAL)[0].symbol.text@ }
pub open spec fn rule_name(d: RuleContext) -> Seq<char> { terms(d.children@, OldL::RULE_REF)[0].symbol.text@ }
// a regular literal as the grammar file's own lexer delivers it: between slashes (a lone slash is refused)
pub open spec fn usable(t: Seq<char>) -> bool { by(t).len() >= 2 }
pub open spec fn slashed(t: Seq<char>) -> bool { usable(t) ==> t.len() >= 2 && t[0] == '/' && t.last() == '/' }
pub open spec fn body_of(t: Seq<char>) -> Seq<char> { t.subrange(1, t.len() - 1) }
pub open spec fn is_def(r: RuleContext) -> bool { r.rule_index == OldP::LEXER_RULE }
pub open spec fn def_ok(d: RuleContext) -> bool {
  terms(d.children@, OldL::TOKEN_REF).len() > 0 && subs(d.children@, OldP::REGULAR).len() > 0
    && terms(subs(d.children@, OldP::REGULAR)[0].children@, OldL::REGULAR_LITERAL).len() > 0 && slashed(tok_text(d))
}
// the row of the lexical rule table for a definition
pub type Row = (usize, Seq<char>, Seq<char>);
pub open spec fn regex_of(t: Seq<char>) -> Seq<char> { seq!['^', '('] + repl(body_of(t), seq!['\\', '/'], seq!['/']) + seq![')'] }
pub open spec fn row_of(n: int, d: RuleContext) -> Row { (n as usize, tok_name(d), regex_of(tok_text(d))) }
pub open spec fn row(x: LexerRuleData) -> Row { (x.token_type, x.token_name@, x.regex@) }
pub open spec fn rows(q: Seq<LexerRuleData>) -> Seq<Row> { q.map_values(|x: LexerRuleData| row(x)) }

// ---- the table-only reading: same rows, names checked against the table itself
pub open spec fn in_rows(q: Seq<Row>, name: Seq<char>) -> bool { exists|i: int| 0 <= i < q.len() && (#[trigger] q[i]).1 == name }
pub ghost struct St { pub rows: Seq<Row>, pub nt: int }
pub open spec fn step(s: St, d: RuleContext) -> St { if in_rows(s.rows, tok_name(d)) || !usable(tok_text(d)) { s } else { St { rows: s.rows.push(row_of(s.nt, d)), nt: s.nt + 1 } } }
pub open spec fn room(s: St, ds: Seq<RuleContext>) -> bool { 0 <= s.nt && s.nt + ds.len() <= usize::MAX }
@include c15defs.vxi
pub proof fn lemma_free(s: St, ds: Seq<RuleContext>)
  requires room(s, ds),
  ensures s.nt <= steps(s, ds).nt <= s.nt + ds.len(),
  decreases ds.len()
{ if ds.len() > 0 { lemma_free(s, ds.drop_last()); } }
pub proof fn lemma_ascii1(c: char)
  requires (c as u32) < 0x80,
  ensures by(seq![c]) == seq![c as u8],
{ is_ascii_chars_encode_utf8(seq![c]); assert(by(seq![c]) =~= seq![c as u8]); }
pub proof fn lemma_slashed(t: Seq<char>)
  requires slashed(t), usable(t),
  ensures by(t).len() == by(body_of(t)).len() + 2, by(t).subrange(1, by(t).len() - 1) == by(body_of(t)), cut(by(t), 1), cut(by(t), by(t).len() - 1),
    forall|r: Seq<char>| #[trigger] by(r) == by(body_of(t)) ==> r == body_of(t),
{
  let m = body_of(t); let a = seq!['/'];
  lemma_ascii1('/');
  encode_utf8_concat(a, m); encode_utf8_concat(a + m, a);
  assert(t =~= (a + m) + a);
  assert(by(t) =~= (by(a) + by(m)) + by(a));
  assert(by(t).subrange(1, by(t).len() - 1) =~= by(m));
  // the body begins at a character boundary
  if m.len() > 0 {
    let h = seq![m[0]]; let k = m.skip(1);
    encode_utf8_concat(h, k); assert(m =~= h + k);
    lemma_head(m[0]);
    assert(by(m)[0] == by(h)[0]); assert(by(t)[1] == by(m)[0]);
  } else { assert(by(m).len() == 0) by { encode_utf8_decode_utf8(m); encode_utf8_concat(m, m); assert(m + m =~= m); } }
  assert forall|r: Seq<char>| #[trigger] by(r) == by(m) implies r == m by { encode_utf8_decode_utf8(r); encode_utf8_decode_utf8(m); }
}
// no character's first byte is a continuation byte
pub proof fn lemma_head(c: char) ensures by(seq![c]).len() > 0, !(0x80 <= by(seq![c])[0] < 0xC0) {
  encode_utf8_valid_utf8(seq![c]); encode_utf8_first_scalar(seq![c]);
}

@source src/tool/visitor/lexer_rule_visitor.rs
@item struct LexerRuleVisitor
pub type VxSyntaxisVisitor<'a> = LexerRuleVisitor;
pub open spec fn st(v: LexerRuleVisitor) -> St { St { rows: rows(v.data@), nt: v.next_token_type as int } }
pub open spec fn read(v: LexerRuleVisitor, ds: Seq<RuleContext>, w: LexerRuleVisitor) -> bool { st(w) == steps(st(v), ds) }
pub open spec fn ready(v: LexerRuleVisitor, ds: Seq<RuleContext>) -> bool { all_ok(ds) && room(st(v), ds) }
@opt ctxref ctxarg anybox dynimpl str fmt
@method replace vx_replace
@method to_owned vx_to_owned
impl LexerRuleVisitor {
@set VIS LexerRuleVisitor
@set DEF RuleContext
@fn LexerRuleVisitor::new
@pub
@ret r
@contract
  ensures r.data == $0$, r.next_token_type == $1$,
@endfn
@fn LexerRuleVisitor:SyntaxisVisitor::visit_lexer_rule
@pub
@ret r
@contract
  requires ready(*old(self), seq![*$0$.0]), $0$.0.rule_index == OldP::LEXER_RULE,
  ensures read(*old(self), seq![*$0$.0], *final(self)),
  decreases *$0$.0, 1int,
@begin
  let ghost vx_d = *$0$.0;
  proof { lemma_one_def(st(*old(self)), vx_d); assert(seq![vx_d][0] == vx_d); if usable(tok_text(vx_d)) { lemma_slashed(tok_text(vx_d)); } }
  proof { $lits }
@loop 0
  invariant
    vx_d == *$0$.0, *self == *old(self), $n0 == self.data@.len(), ${name}@ == tok_name(vx_d),
    st(*self).rows == rows(self.data@), steps(st(*old(self)), seq![vx_d]) == step(st(*old(self)), vx_d),
    forall|j: int| 0 <= j < $n0 ==> $e0(j) == self.data@[j],
    forall|j: int| 0 <= j < $i0 ==> self.data@[j].token_name@ != tok_name(vx_d),
@top 0
  proof { assert($e0($i0) == self.data@[$i0 as int]); assert(rows(self.data@)[$i0 as int].1 == self.data@[$i0 as int].token_name@); if self.data@[$i0 as int].token_name@ == tok_name(vx_d) { assert(in_rows(rows(self.data@), tok_name(vx_d))); } }
@end
  proof { assert(rows(self.data@) =~= rows(old(self).data@).push(row(self.data@.last()))); }
@endfn
@fn %VIS%:SyntaxisVisitor::visit_parser_rule ?? src/tool/syntaxis/syntaxis_visitor.rs trait SyntaxisVisitor::visit_parser_rule
@pub
@ret r
@contract
  requires ready(*old(self), defs_below(*$0$.0)),
  ensures read(*old(self), defs_below(*$0$.0), *final(self)),
  decreases *$0$.0, 1int,
@endfn
@fn %VIS%:SyntaxisVisitor::visit_element ?? src/tool/syntaxis/syntaxis_visitor.rs trait SyntaxisVisitor::visit_element
@pub
@ret r
@contract
  requires ready(*old(self), defs_below(*$0$.0)),
  ensures read(*old(self), defs_below(*$0$.0), *final(self)),
  decreases *$0$.0, 1int,
@endfn
@include c15trav.vxi
}
@include c15acc.vxi
// ---- the property over the contract: the table after a whole file
pub open spec fn from_def(r: Row, ds: Seq<RuleContext>) -> bool { exists|i: int| 0 <= i < ds.len() && usable(tok_text(#[trigger] ds[i])) && r == row_of(r.0 as int, ds[i]) }
pub proof fn c15_lexical_table(s: St, ds: Seq<RuleContext>)
  requires room(s, ds),
  ensures ({
    let t = steps(s, ds);
    &&& s.rows.len() <= t.rows.len() && t.rows.take(s.rows.len() as int) == s.rows
    // new rows: consecutive numbers, each name once and not among the old ones, the row of a definition of that name
    &&& t.nt == s.nt + (t.rows.len() - s.rows.len())
    &&& forall|k: int| s.rows.len() <= k < t.rows.len() ==> (#[trigger] t.rows[k]).0 == s.nt + (k - s.rows.len())
    &&& forall|k: int, j: int| s.rows.len() <= k < t.rows.len() && 0 <= j < k ==> (#[trigger] t.rows[k]).1 != (#[trigger] t.rows[j]).1
    &&& forall|k: int| s.rows.len() <= k < t.rows.len() ==> from_def(#[trigger] t.rows[k], ds)
    // nothing usable is left out
    &&& forall|i: int| 0 <= i < ds.len() && usable(tok_text(#[trigger] ds[i])) ==> in_rows(t.rows, tok_name(ds[i]))
  }),
  decreases ds.len()
{
  if ds.len() == 0 { assert(s.rows.take(s.rows.len() as int) =~= s.rows); } else {
    let d0 = ds.drop_last(); let d = ds.last(); let u = steps(s, d0); let t = steps(s, ds);
    c15_lexical_table(s, d0); lemma_free(s, d0);
    assert(t == step(u, d));
    assert(forall|i: int| 0 <= i < d0.len() ==> d0[i] == #[trigger] ds[i]);
    if t == u {
      assert forall|i: int| 0 <= i < ds.len() && usable(tok_text(#[trigger] ds[i])) implies in_rows(t.rows, tok_name(ds[i])) by { if i < d0.len() { assert(d0[i] == ds[i]); } }
      assert forall|k: int| s.rows.len() <= k < t.rows.len() implies from_def(#[trigger] t.rows[k], ds) by {
        assert(from_def(u.rows[k], d0)); let i = choose|i: int| 0 <= i < d0.len() && usable(tok_text(#[trigger] d0[i])) && u.rows[k] == row_of(u.rows[k].0 as int, d0[i]); assert(ds[i] == d0[i]); }
    } else {
      let n = u.rows.len() as int;
      assert(t.rows == u.rows.push(row_of(u.nt, d)));
      assert(t.rows.take(s.rows.len() as int) =~= u.rows.take(s.rows.len() as int));
      assert(forall|k: int| 0 <= k < n ==> #[trigger] t.rows[k] == u.rows[k]);
      assert(t.rows[n] == row_of(u.nt, d));
      assert forall|j: int| 0 <= j < n implies t.rows[n].1 != (#[trigger] t.rows[j]).1 by { assert(t.rows[j] == u.rows[j]); if u.rows[j].1 == tok_name(d) { assert(in_rows(u.rows, tok_name(d))); } }
      assert forall|i: int| 0 <= i < ds.len() && usable(tok_text(#[trigger] ds[i])) implies in_rows(t.rows, tok_name(ds[i])) by {
        if i < d0.len() { assert(d0[i] == ds[i]); let k = choose|k: int| 0 <= k < u.rows.len() && (#[trigger] u.rows[k]).1 == tok_name(ds[i]); assert(t.rows[k].1 == tok_name(ds[i])); } else { assert(t.rows[n].1 == tok_name(d)); } }
      assert forall|k: int| s.rows.len() <= k < t.rows.len() implies from_def(#[trigger] t.rows[k], ds) by {
        if k < n { assert(from_def(u.rows[k], d0)); let i = choose|i: int| 0 <= i < d0.len() && usable(tok_text(#[trigger] d0[i])) && u.rows[k] == row_of(u.rows[k].0 as int, d0[i]); assert(ds[i] == d0[i]); } else { assert(ds[ds.len() - 1] == d); } }
    }
  }
}
fn main() {}
}
