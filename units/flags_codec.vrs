// C12: the byte encoding of epoch based storage flags. grovedb-epoch-based-storage-flags/src/lib.rs
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@ include maps.inc
//@ include emap.inc
//@ include flags_types.inc
//@ include flags_codec.inc
} // verus!
fn main() {}
