#![allow(unused_imports, dead_code, unused_variables, unused_mut, non_snake_case)]
use vstd::prelude::*;
@include std.vxi
@include strbase.vxi
@include str.vxi
@include regex.vxi
verus! {
@include lexbase.vxi
@set MODE c12
pub mod old_lexer {
use super::*;
broadcast use {ax_len};
@set FILE src/tool/syntaxis/syntaxis_lexer.rs
@set TY SyntaxisLexer
@set STOP no
@include lex.vxi
}
pub mod v1_lexer {
use super::*;
broadcast use {ax_len};
@set FILE src/tool/v1/syntaxis_lexer.rs
@set STOP yes
@include lex.vxi
}
fn main() {}
}
