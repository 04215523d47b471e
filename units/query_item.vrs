// C18, C19, C20: query items are intervals over byte-string keys. grovedb-query/src
use vstd::prelude::*;
use core::cmp::Ordering;
verus! {
global size_of usize == 8;
//@ include query_item.inc
} // verus!
fn main() {}
