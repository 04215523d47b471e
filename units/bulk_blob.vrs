// C09: chunk blobs. grovedb-bulk-append-tree/src/chunk.rs
use vstd::prelude::*;
verus! {
global size_of usize == 8;

//@ include bulk_blob.inc
} // verus!
fn main() {}
