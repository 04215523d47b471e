// the flags types of grovedb-epoch-based-storage-flags, shared by its units
//@ rules
BTreeMap<EpochIndex, BytesAddedInEpoch>> ==> EMap >
BTreeMap<EpochIndex, BytesAddedInEpoch> ==> EMap
BTreeMap<u16, u32> ==> EMap
BTreeMap::default() ==> EMap::new()
StorageFlagsError::$v($x..) ==> StorageFlagsError::new()
//@ end
//@ type grovedb-epoch-based-storage-flags/src/lib.rs EpochIndex
//@ type grovedb-epoch-based-storage-flags/src/lib.rs BaseEpoch
//@ type grovedb-epoch-based-storage-flags/src/lib.rs BytesAddedInEpoch
//@ type grovedb-epoch-based-storage-flags/src/lib.rs OwnerId
//@ type grovedb-epoch-based-storage-flags/src/lib.rs StorageFlags
//@ const grovedb-epoch-based-storage-flags/src/lib.rs DEFAULT_HASH_SIZE_U32
use StorageFlags::*;
#[verifier::external_body] pub struct StorageFlagsError { x: usize }
impl StorageFlagsError { #[verifier::external_body] pub fn new() -> (r: Self) { unimplemented!() } }
pub open spec fn fbase(f: StorageFlags) -> u16 { match f { SingleEpoch(b) => b, MultiEpoch(b, _) => b, SingleEpochOwned(b, _) => b, MultiEpochOwned(b, _, _) => b } }
