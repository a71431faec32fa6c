#![feature(allocator_api)]
#![allow(unused_imports, dead_code, unused_variables, unused_mut)]
use vstd::prelude::*;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;
@include std.vxi
@include hash.vxi
verus! {
broadcast use {vstd::std_specs::hash::group_hash_axioms, vx::group_vx_str, vxh::ax_key_of, vxh::lemma_seen, ax_prod_key::ax};
@include grambase.vxi
@source src/tool/grammar/mod.rs
impl Grammar {
@include decl.vxi
@include first.vxi
}
fn main() {}
}
