// C23: executing proof operations. merk/src/proofs/tree.rs, merk/src/tree/hash.rs
use vstd::prelude::*;
use std::cmp::Ordering;
verus! {
global size_of usize == 8;
#[derive(Debug)] #[verifier::external_body] pub struct Error { x: u8 }
#[verifier::external_body] pub fn err() -> (r: Error) { unimplemented!() }
//@ include query_order.inc
//@ include merk_tree.inc
//@ include merk_exec.inc
} // verus!
fn main() {}
