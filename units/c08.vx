#![allow(unused_imports, dead_code, unused_variables, unused_mut, non_snake_case)]
use vstd::prelude::*;
@include std.vxi
@include strbase.vxi
@include str.vxi
@include regex.vxi
verus! {
@include lexbase.vxi
pub struct Trace<L> { pub ghost st: Seq<L>, pub ghost toks: Seq<Token>, pub ghost ended: bool }
@set MODE c08
pub mod old_lexer {
use super::*;
broadcast use {ax_len};
@set FILE src/tool/syntaxis/syntaxis_lexer.rs
@set TY SyntaxisLexer
@set STOP no
@set SKIP t.token_type == SyntaxisLexer::LINE_COMMENT || t.token_type == SyntaxisLexer::BLOCK_COMMENT || t.token_type == SyntaxisLexer::WS
@include lex.vxi
@include bulk.vxi
}
pub mod v1_lexer {
use super::*;
broadcast use {ax_len};
@set FILE src/tool/v1/syntaxis_lexer.rs
@set STOP yes
@set SKIP t.token_type == SyntaxisLexer::WHITE_SPACE
@include lex.vxi
@include bulk.vxi
}
pub mod gen_lexer {
use super::*;
broadcast use {ax_len};
@set FILE src/tool/templates/target/rust/lexer.tera
@set TY GenLexer
@set SKIP t.token_type == GenLexer::WHITE_SPACE
@include lex.vxi
@include bulk.vxi
}
fn main() {}
}
