// C13, C14 (and sizes of C12): epoch based storage flags. grovedb-epoch-based-storage-flags/src
use vstd::prelude::*;
use std::cmp::Ordering;
verus! {
//@ include maps.inc
//@ include emap.inc
//@ include flags_types.inc
//@ include flags_combine.inc
impl StorageFlags {
//@ fn grovedb-epoch-based-storage-flags/src/lib.rs StorageFlags::type_byte
//@ ret r
//@ spec
    ensures r == (if fmap(*self).is_some() { 1int } else { 0 }) + (if fown(*self).is_some() { 2int } else { 0 })
//@ end
//@ fn grovedb-epoch-based-storage-flags/src/lib.rs StorageFlags::maybe_owner_id_size
//@ ret r
//@ spec
    ensures r == (if fown(*self).is_some() { 32int } else { 0 })
//@ end
}
} // verus!
fn main() {}
