#![allow(unused_imports, dead_code, unused_variables, unused_mut, non_snake_case, non_camel_case_types)]
use vstd::prelude::*;
@include std.vxi
verus! {
@include treetypes.vxi
impl RuleContext {
@source src/runtime/ast/rule_context.rs
@fn RuleContext::get_rule_index
@pub
@ret r
@contract
  ensures r == self.rule_index,
@endfn
}
@source src/tool/syntaxis/syntaxis_parser.rs
pub struct SyntaxisParser;
impl SyntaxisParser {
@consts SyntaxisParser
}
// ---- what a listener can observe; `true` is an enter event
pub enum Ev { Every(bool, RuleContext), Rule(bool, usize, RuleContext), Term(bool, TerminalContext), Err(bool, ErrorContext) }
// every rule this grammar numbers
pub open spec fn known_rule(i: usize) -> bool {
  i == SyntaxisParser::RULE_LIST || i == SyntaxisParser::PARSER_RULE || i == SyntaxisParser::BLOCK || i == SyntaxisParser::ALTERNATIVE || i == SyntaxisParser::EPSILON || i == SyntaxisParser::ELEMENT || i == SyntaxisParser::EBNF_SUFFIX || i == SyntaxisParser::LEXER_RULE || i == SyntaxisParser::REGULAR
}
// the rule-specific event of a node: that of its own rule, none for an unknown rule
pub open spec fn specific(b: bool, r: RuleContext) -> Seq<Ev> { if known_rule(r.rule_index) { seq![Ev::Rule(b, r.rule_index, r)] } else { Seq::empty() } }
pub open spec fn events(r: RuleContext) -> Seq<Ev> decreases r, 1nat, 0int {
  seq![Ev::Every(true, r)] + specific(true, r) + inner(r, r.children@.len() as int) + specific(false, r) + seq![Ev::Every(false, r)]
}
// the events of the first n children
pub open spec fn inner(r: RuleContext, n: int) -> Seq<Ev> decreases r, 0nat, n {
  if n <= 0 || n > r.children@.len() { Seq::empty() } else { inner(r, n - 1) + child_events(r.children@[n - 1]) }
}
pub open spec fn child_events(c: ASTContext) -> Seq<Ev> decreases c, 0nat, 0int {
  match c {
    ASTContext::Terminal(t) => seq![Ev::Term(true, t), Ev::Term(false, t)],
    ASTContext::Error(t) => seq![Ev::Err(true, t), Ev::Err(false, t)],
    ASTContext::Rule(r) => events(r),
  }
}
// ---- an arbitrary listener: it may do anything, the ghost trace records which hook was called with which node
pub trait Listener {
  spec fn trace(&self) -> Seq<Ev>;
  fn enter_rule_list(&mut self, ctx: &RuleContext) ensures final(self).trace() == old(self).trace().push(Ev::Rule(true, SyntaxisParser::RULE_LIST, *ctx));
  fn exit_rule_list(&mut self, ctx: &RuleContext) ensures final(self).trace() == old(self).trace().push(Ev::Rule(false, SyntaxisParser::RULE_LIST, *ctx));
  fn enter_parser_rule(&mut self, ctx: &RuleContext) ensures final(self).trace() == old(self).trace().push(Ev::Rule(true, SyntaxisParser::PARSER_RULE, *ctx));
  fn exit_parser_rule(&mut self, ctx: &RuleContext) ensures final(self).trace() == old(self).trace().push(Ev::Rule(false, SyntaxisParser::PARSER_RULE, *ctx));
  fn enter_block(&mut self, ctx: &RuleContext) ensures final(self).trace() == old(self).trace().push(Ev::Rule(true, SyntaxisParser::BLOCK, *ctx));
  fn exit_block(&mut self, ctx: &RuleContext) ensures final(self).trace() == old(self).trace().push(Ev::Rule(false, SyntaxisParser::BLOCK, *ctx));
  fn enter_alternative(&mut self, ctx: &RuleContext) ensures final(self).trace() == old(self).trace().push(Ev::Rule(true, SyntaxisParser::ALTERNATIVE, *ctx));
  fn exit_alternative(&mut self, ctx: &RuleContext) ensures final(self).trace() == old(self).trace().push(Ev::Rule(false, SyntaxisParser::ALTERNATIVE, *ctx));
  fn enter_epsilon(&mut self, ctx: &RuleContext) ensures final(self).trace() == old(self).trace().push(Ev::Rule(true, SyntaxisParser::EPSILON, *ctx));
  fn exit_epsilon(&mut self, ctx: &RuleContext) ensures final(self).trace() == old(self).trace().push(Ev::Rule(false, SyntaxisParser::EPSILON, *ctx));
  fn enter_element(&mut self, ctx: &RuleContext) ensures final(self).trace() == old(self).trace().push(Ev::Rule(true, SyntaxisParser::ELEMENT, *ctx));
  fn exit_element(&mut self, ctx: &RuleContext) ensures final(self).trace() == old(self).trace().push(Ev::Rule(false, SyntaxisParser::ELEMENT, *ctx));
  fn enter_ebnf_suffix(&mut self, ctx: &RuleContext) ensures final(self).trace() == old(self).trace().push(Ev::Rule(true, SyntaxisParser::EBNF_SUFFIX, *ctx));
  fn exit_ebnf_suffix(&mut self, ctx: &RuleContext) ensures final(self).trace() == old(self).trace().push(Ev::Rule(false, SyntaxisParser::EBNF_SUFFIX, *ctx));
  fn enter_lexer_rule(&mut self, ctx: &RuleContext) ensures final(self).trace() == old(self).trace().push(Ev::Rule(true, SyntaxisParser::LEXER_RULE, *ctx));
  fn exit_lexer_rule(&mut self, ctx: &RuleContext) ensures final(self).trace() == old(self).trace().push(Ev::Rule(false, SyntaxisParser::LEXER_RULE, *ctx));
  fn enter_regular(&mut self, ctx: &RuleContext) ensures final(self).trace() == old(self).trace().push(Ev::Rule(true, SyntaxisParser::REGULAR, *ctx));
  fn exit_regular(&mut self, ctx: &RuleContext) ensures final(self).trace() == old(self).trace().push(Ev::Rule(false, SyntaxisParser::REGULAR, *ctx));
  fn enter_every_rule(&mut self, ctx: &RuleContext) ensures final(self).trace() == old(self).trace().push(Ev::Every(true, *ctx));
  fn enter_terminal(&mut self, ctx: &TerminalContext) ensures final(self).trace() == old(self).trace().push(Ev::Term(true, *ctx));
  fn enter_errornode(&mut self, ctx: &ErrorContext) ensures final(self).trace() == old(self).trace().push(Ev::Err(true, *ctx));
  // the dispatchers: the default body in /repo is proved against this contract below
  fn enter(&mut self, ctx: &RuleContext) ensures final(self).trace() == old(self).trace() + specific(true, *ctx);
  fn exit_every_rule(&mut self, ctx: &RuleContext) ensures final(self).trace() == old(self).trace().push(Ev::Every(false, *ctx));
  fn exit_terminal(&mut self, ctx: &TerminalContext) ensures final(self).trace() == old(self).trace().push(Ev::Term(false, *ctx));
  fn exit_errornode(&mut self, ctx: &ErrorContext) ensures final(self).trace() == old(self).trace().push(Ev::Err(false, *ctx));
  // the dispatchers: the default body in /repo is proved against this contract below
  fn exit(&mut self, ctx: &RuleContext) ensures final(self).trace() == old(self).trace() + specific(false, *ctx);
}
@opt ctxplain dynimpl
@source src/tool/syntaxis/syntaxis_listener.rs
@fn trait SyntaxisListener::enter as listener_enter
@selfty &mut L
@generics <L: Listener>
@contract
  ensures final(self_).trace() == old(self_).trace() + specific(true, *$0$),
@end
  proof { assert(self_.trace() =~= old(self_).trace() + specific(true, *$0$)); }
@endfn
@fn trait SyntaxisListener::exit as listener_exit
@selfty &mut L
@generics <L: Listener>
@contract
  ensures final(self_).trace() == old(self_).trace() + specific(false, *$0$),
@end
  proof { assert(self_.trace() =~= old(self_).trace() + specific(false, *$0$)); }
@endfn
@source src/tool/syntaxis/syntaxis_context.rs
@fn RuleContext:RuleListContext::enter as RuleList_enter
@selfty &RuleContext
@generics <VxSyntaxisListener: Listener>
@contract
  ensures final($0$).trace() == old($0$).trace().push(Ev::Rule(true, SyntaxisParser::RULE_LIST, *self_)),
@endfn
@fn RuleContext:RuleListContext::exit as RuleList_exit
@selfty &RuleContext
@generics <VxSyntaxisListener: Listener>
@contract
  ensures final($0$).trace() == old($0$).trace().push(Ev::Rule(false, SyntaxisParser::RULE_LIST, *self_)),
@endfn
@fn RuleContext:ParserRuleContext::enter as ParserRule_enter
@selfty &RuleContext
@generics <VxSyntaxisListener: Listener>
@contract
  ensures final($0$).trace() == old($0$).trace().push(Ev::Rule(true, SyntaxisParser::PARSER_RULE, *self_)),
@endfn
@fn RuleContext:ParserRuleContext::exit as ParserRule_exit
@selfty &RuleContext
@generics <VxSyntaxisListener: Listener>
@contract
  ensures final($0$).trace() == old($0$).trace().push(Ev::Rule(false, SyntaxisParser::PARSER_RULE, *self_)),
@endfn
@fn RuleContext:BlockContext::enter as Block_enter
@selfty &RuleContext
@generics <VxSyntaxisListener: Listener>
@contract
  ensures final($0$).trace() == old($0$).trace().push(Ev::Rule(true, SyntaxisParser::BLOCK, *self_)),
@endfn
@fn RuleContext:BlockContext::exit as Block_exit
@selfty &RuleContext
@generics <VxSyntaxisListener: Listener>
@contract
  ensures final($0$).trace() == old($0$).trace().push(Ev::Rule(false, SyntaxisParser::BLOCK, *self_)),
@endfn
@fn RuleContext:AlternativeContext::enter as Alternative_enter
@selfty &RuleContext
@generics <VxSyntaxisListener: Listener>
@contract
  ensures final($0$).trace() == old($0$).trace().push(Ev::Rule(true, SyntaxisParser::ALTERNATIVE, *self_)),
@endfn
@fn RuleContext:AlternativeContext::exit as Alternative_exit
@selfty &RuleContext
@generics <VxSyntaxisListener: Listener>
@contract
  ensures final($0$).trace() == old($0$).trace().push(Ev::Rule(false, SyntaxisParser::ALTERNATIVE, *self_)),
@endfn
@fn RuleContext:EpsilonContext::enter as Epsilon_enter
@selfty &RuleContext
@generics <VxSyntaxisListener: Listener>
@contract
  ensures final($0$).trace() == old($0$).trace().push(Ev::Rule(true, SyntaxisParser::EPSILON, *self_)),
@endfn
@fn RuleContext:EpsilonContext::exit as Epsilon_exit
@selfty &RuleContext
@generics <VxSyntaxisListener: Listener>
@contract
  ensures final($0$).trace() == old($0$).trace().push(Ev::Rule(false, SyntaxisParser::EPSILON, *self_)),
@endfn
@fn RuleContext:ElementContext::enter as Element_enter
@selfty &RuleContext
@generics <VxSyntaxisListener: Listener>
@contract
  ensures final($0$).trace() == old($0$).trace().push(Ev::Rule(true, SyntaxisParser::ELEMENT, *self_)),
@endfn
@fn RuleContext:ElementContext::exit as Element_exit
@selfty &RuleContext
@generics <VxSyntaxisListener: Listener>
@contract
  ensures final($0$).trace() == old($0$).trace().push(Ev::Rule(false, SyntaxisParser::ELEMENT, *self_)),
@endfn
@fn RuleContext:EbnfSuffixContext::enter as EbnfSuffix_enter
@selfty &RuleContext
@generics <VxSyntaxisListener: Listener>
@contract
  ensures final($0$).trace() == old($0$).trace().push(Ev::Rule(true, SyntaxisParser::EBNF_SUFFIX, *self_)),
@endfn
@fn RuleContext:EbnfSuffixContext::exit as EbnfSuffix_exit
@selfty &RuleContext
@generics <VxSyntaxisListener: Listener>
@contract
  ensures final($0$).trace() == old($0$).trace().push(Ev::Rule(false, SyntaxisParser::EBNF_SUFFIX, *self_)),
@endfn
@fn RuleContext:LexerRuleContext::enter as LexerRule_enter
@selfty &RuleContext
@generics <VxSyntaxisListener: Listener>
@contract
  ensures final($0$).trace() == old($0$).trace().push(Ev::Rule(true, SyntaxisParser::LEXER_RULE, *self_)),
@endfn
@fn RuleContext:LexerRuleContext::exit as LexerRule_exit
@selfty &RuleContext
@generics <VxSyntaxisListener: Listener>
@contract
  ensures final($0$).trace() == old($0$).trace().push(Ev::Rule(false, SyntaxisParser::LEXER_RULE, *self_)),
@endfn
@fn RuleContext:RegularContext::enter as Regular_enter
@selfty &RuleContext
@generics <VxSyntaxisListener: Listener>
@contract
  ensures final($0$).trace() == old($0$).trace().push(Ev::Rule(true, SyntaxisParser::REGULAR, *self_)),
@endfn
@fn RuleContext:RegularContext::exit as Regular_exit
@selfty &RuleContext
@generics <VxSyntaxisListener: Listener>
@contract
  ensures final($0$).trace() == old($0$).trace().push(Ev::Rule(false, SyntaxisParser::REGULAR, *self_)),
@endfn
// ---- the walker; its trait is implemented with the default body only
pub struct Walk<VxSyntaxisListener> { pub unused: Ghost<Option<VxSyntaxisListener>> }
impl<VxSyntaxisListener: Listener> Walk<VxSyntaxisListener> {
@source src/tool/syntaxis/syntaxis_walker.rs
@fn trait SyntaxisWalker::walk
@contract
  ensures final($0$).trace() == old($0$).trace() + events(*$1$),
  decreases *$1$,
@loop 0
  invariant
    $n0 == $1$.children@.len(),
    forall|j: int| 0 <= j < $n0 ==> $e0(j) == $1$.children@[j],
    $0$.trace() == old($0$).trace() + (seq![Ev::Every(true, *$1$)] + specific(true, *$1$) + inner(*$1$, $i0 as int)),
@before 0
  proof { assert($0$.trace() =~= old($0$).trace() + (seq![Ev::Every(true, *$1$)] + specific(true, *$1$) + inner(*$1$, 0))); }
@top 0
  let ghost vx_before = $0$.trace();
  proof { assert($e0($i0) == $1$.children@[$i0 as int]); }
@bottom 0
  proof {
    let c = $1$.children@[$i0 as int];
    assert(inner(*$1$, $i0 + 1) == inner(*$1$, $i0 as int) + child_events(c));
    assert($0$.trace() =~= vx_before + child_events(c));
    assert($0$.trace() =~= old($0$).trace() + (seq![Ev::Every(true, *$1$)] + specific(true, *$1$) + inner(*$1$, $i0 + 1)));
  }
@end
  proof { assert($0$.trace() =~= old($0$).trace() + events(*$1$)); }
@endfn
}
fn main() {}
}
