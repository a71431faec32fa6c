#![allow(unused_imports, dead_code, unused_variables, unused_mut, non_snake_case)]
use vstd::prelude::*;
@include std.vxi
@include json.vxi
verus! {
global size_of usize == 8;
@include treetypes.vxi
impl Token {
@source src/runtime/token.rs
@opt own2
@method to_owned vx_to_owned
@fn Token::new
@pub
@ret r
@contract
  ensures r.token_type == $0$, r.token_name@ == $1$@, r.text@ == $2$@,
@endfn
}
pub trait VxOwned { fn vx_to_owned(&self) -> String; }
impl VxOwned for str { fn vx_to_owned(&self) -> (r: String) ensures r@ == self@ { vx_string_from(self) } }

@include doc.vxi
// ---- the documents that describe a tree, and the tree they describe
pub open spec fn kids(v: Value) -> Seq<Value> { as_array(field(v, "children"@)).unwrap() }
pub open spec fn is_leaf(v: Value) -> bool { field(v, "children"@) == Value::Null }
pub open spec fn leaf_ok(v: Value) -> bool { as_u64(field(v, "token_type"@)).is_some() && as_str(field(v, "token_name"@)).is_some() }
pub open spec fn node_head_ok(v: Value) -> bool {
  as_array(field(v, "children"@)).is_some() && as_u64(field(v, "rule_index"@)).is_some() && as_str(field(v, "rule_name"@)).is_some()
}
pub open spec fn node_ok(v: Value) -> bool decreases v, 1nat, 0int { node_head_ok(v) && kids_ok(v, kids(v).len() as int) }
// the first n children are acceptable
pub open spec fn kids_ok(v: Value, n: int) -> bool decreases v, 0nat, n when node_head_ok(v) via smaller {
  if n <= 0 || n > kids(v).len() { true } else {
    kids_ok(v, n - 1) && (if is_leaf(kids(v)[n - 1]) { leaf_ok(kids(v)[n - 1]) } else { node_ok(kids(v)[n - 1]) })
  }
}
pub open spec fn text_or(v: Value) -> Seq<char> { match as_str(field(v, "text"@)) { Some(s) => s, None => "<no text>"@ } }
pub open spec fn leaf_of(v: Value) -> Doc { Doc::Leaf(as_u64(field(v, "token_type"@)).unwrap() as usize, as_str(field(v, "token_name"@)).unwrap(), text_or(v)) }
pub open spec fn node_of(v: Value) -> Doc decreases v, 1nat, 0int {
  Doc::Node(as_u64(field(v, "rule_index"@)).unwrap() as usize, as_str(field(v, "rule_name"@)).unwrap(), if node_head_ok(v) { kids_of(v, kids(v).len() as int) } else { Seq::empty() })
}
pub open spec fn kids_of(v: Value, n: int) -> Seq<Doc> decreases v, 0nat, n when node_head_ok(v) via smaller2 {
  if n <= 0 || n > kids(v).len() { Seq::empty() } else {
    kids_of(v, n - 1).push(if is_leaf(kids(v)[n - 1]) { leaf_of(kids(v)[n - 1]) } else { node_of(kids(v)[n - 1]) })
  }
}
#[via_fn] proof fn smaller(v: Value, n: int) { lemma_smaller(v); }
#[via_fn] proof fn smaller2(v: Value, n: int) { lemma_smaller(v); }
pub proof fn lemma_smaller(v: Value)
  requires as_array(field(v, "children"@)).is_some(),
  ensures forall|i: int| 0 <= i < kids(v).len() ==> decreases_to!(v => #[trigger] kids(v)[i]),
{
  let k = "children"@;
  match v { Value::Object(o) => {
    let i = choose|i: int| entry(o, k, i);
    assert(entry(o, k, i));
    assert(decreases_to!(v => o));
    assert(decreases_to!(o => o.entries@[i]));
    assert(decreases_to!(o.entries@[i] => o.entries@[i].1));
    let a = o.entries@[i].1;
    assert(a == field(v, k));
    assert forall|j: int| 0 <= j < kids(v).len() implies decreases_to!(v => #[trigger] kids(v)[j]) by { assert(decreases_to!(a => kids(v)[j])); }
  }, _ => {} }
}
pub proof fn lemma_kids_ok(v: Value, n: int, m: int)
  requires node_head_ok(v), 0 <= n <= m <= kids(v).len(),
  ensures kids_ok(v, m) ==> kids_ok(v, n),
  decreases m - n
{ lemma_smaller(v); if n < m { lemma_kids_ok(v, n, m - 1); } }
// the node built at the end
pub proof fn lemma_same(v: Value, q: Seq<ASTContext>)
  requires node_head_ok(v), q.len() == kids(v).len(), list_docs(q, q.len() as int) == kids_of(v, kids(v).len() as int),
  ensures forall|c: ASTContext| c is Rule && c->Rule_0.children@ == q && c->Rule_0.rule_name@ == as_str(field(v, "rule_name"@)).unwrap()
    && c->Rule_0.rule_index == as_u64(field(v, "rule_index"@)).unwrap() as usize ==> #[trigger] doc(c) == node_of(v),
{
  lemma_smaller(v);
  assert forall|c: ASTContext| c is Rule && c->Rule_0.children@ == q && c->Rule_0.rule_name@ == as_str(field(v, "rule_name"@)).unwrap()
    && c->Rule_0.rule_index == as_u64(field(v, "rule_index"@)).unwrap() as usize implies #[trigger] doc(c) == node_of(v) by { lemma_list_docs(c->Rule_0, q.len() as int); }
}
@source src/tool/serde_ast/mod.rs
@item struct Error
@opt jsonidx
@fn parse_terminal
@pub
@ret r
@contract
  ensures
    r.is_ok() == leaf_ok(*$0$),
    r.is_ok() ==> doc(ASTContext::Terminal(r.unwrap())) == leaf_of(*$0$),
@endfn
@fn parse_rule
@pub
@ret r
@contract
  ensures
    r.is_ok() == node_ok(*$0$),
    r.is_ok() ==> doc(ASTContext::Rule(r.unwrap())) == node_of(*$0$),
  decreases *$0$,
@begin
  let ghost vx_v = *$0$;
@before 0
  proof { lemma_smaller(vx_v); }
@loop 0
  invariant
    node_head_ok(vx_v), vx_v == *$0$,
    forall|i: int| 0 <= i < kids(vx_v).len() ==> decreases_to!(vx_v => #[trigger] kids(vx_v)[i]),
    $n0 == kids(vx_v).len(),
    forall|j: int| 0 <= j < $n0 ==> $e0(j) == kids(vx_v)[j],
    kids_ok(vx_v, $i0 as int),
    ${result}@.len() == $i0,
    list_docs(${result}@, $i0 as int) == kids_of(vx_v, $i0 as int),
@top 0
  let ghost vx_r0 = ${result}@;
  proof { assert($e0($i0) == kids(vx_v)[$i0 as int]); lemma_kids_ok(vx_v, $i0 + 1, kids(vx_v).len() as int); }
@bottom 0
  proof {
    lemma_list_push(vx_r0, ${result}@, $i0 as int);
    assert(list_docs(${result}@, $i0 + 1) =~= kids_of(vx_v, $i0 + 1));
  }
@end
  proof { lemma_same(vx_v, ${result}@); }
@endfn
@fn from_str
@pub
@ret r
@contract
  ensures
    r.is_ok() == (json($0$@).is_some() && node_ok(json($0$@).unwrap())),
    r.is_ok() ==> doc(ASTContext::Rule(r.unwrap())) == node_of(json($0$@).unwrap()),
@endfn
@fn from_reader
@pub
@ret r
@contract
  ensures
    r.is_ok() == ($0$.text().is_some() && json($0$.text().unwrap()).is_some() && node_ok(json($0$.text().unwrap()).unwrap())),
    r.is_ok() ==> doc(ASTContext::Rule(r.unwrap())) == node_of(json($0$.text().unwrap()).unwrap()),
@endfn
fn main() {}
}
