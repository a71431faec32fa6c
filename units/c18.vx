#![allow(unused_imports, dead_code, unused_variables, unused_mut, non_snake_case)]
use vstd::prelude::*;
@include std.vxi
@include strbase.vxi
@include strtext.vxi
@include page.vxi
verus! {
global size_of usize == 8;
@include treetypes.vxi
@include doc.vxi
@include draw.vxi
fn main() {}
}
