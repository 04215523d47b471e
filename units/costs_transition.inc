// how a storage cost is classified
pub open spec fn sec(m: Map<Identifier, Map<u16, u32>>, i: Identifier, e: u16) -> int {
    if m.dom().contains(i) && m[i].dom().contains(e) { m[i][e] as int } else { 0 }
}
// bytes a removal record holds for identity i and epoch e
pub open spec fn rem(r: StorageRemovedBytes, i: Identifier, e: u16) -> int {
    match r {
        StorageRemovedBytes::NoStorageRemoval => 0,
        StorageRemovedBytes::BasicStorageRemoval(n) => if i == zero_id() && e == UNKNOWN_EPOCH { n as int } else { 0 },
        StorageRemovedBytes::SectionedStorageRemoval(m) => sec(m@, i, e),
    }
}
//@ type costs/src/storage_cost/mod.rs StorageCost
//@ type costs/src/storage_cost/transition.rs OperationStorageTransitionType
use OperationStorageTransitionType::*;
impl StorageCost {
//@ fn costs/src/storage_cost/transition.rs StorageCost::transition_type
//@ ret r
//@ spec
    ensures ({ let removed = exists|i: Identifier, e: u16| #[trigger] rem(self.removed_bytes, i, e) != 0; let added = self.added_bytes > 0; let replaced = self.replaced_bytes > 0;
      match r {
        OperationInsertNew => added && !removed && !replaced,
        OperationUpdateBiggerSize => added && !removed && replaced,
        OperationUpdateSmallerSize => !added && removed && replaced,
        OperationUpdateSameSize => !added && !removed && replaced,
        OperationReplace => added && removed,
        OperationDelete => !added && removed && !replaced,
        OperationNone => !added && !removed && !replaced,
      } })
//@ end
}
