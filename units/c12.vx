#![allow(unused_imports, dead_code, unused_variables, unused_mut, non_snake_case)]
use vstd::prelude::*;
use std::collections::{HashMap, HashSet};
@include std.vxi
verus! {
@include ast.vxi
@include ctxref.vxi
pub mod old {
use super::*;
@set DIR src/tool/syntaxis
@include acc.vxi
}
pub mod v1 {
use super::*;
@set DIR src/tool/v1
@include acc.vxi
}
fn main() {}
}
