//! In-memory storage context with injectable failures (adapted from the crate's own test utilities).
#![allow(dead_code)]
use std::{cell::{Cell, RefCell}, collections::BTreeMap, rc::Rc};

use grovedb_costs::{
    storage_cost::key_value_cost::KeyValueStorageCost, ChildrenSizesWithIsSumTree, CostContext,
    CostResult, CostsExt, OperationCost,
};
use grovedb_storage::{Batch, RawIterator, StorageContext};

#[derive(Default)]
pub struct State {
    pub data: RefCell<BTreeMap<Vec<u8>, Vec<u8>>>,
    /// Some(n): the n-th operation from now fails (0: the next one)
    pub fail_get: Cell<Option<u32>>,
    pub fail_put: Cell<Option<u32>>,
    /// what is read where nothing was stored
    pub virt: RefCell<Option<Rc<dyn Fn(&[u8]) -> Option<Vec<u8>>>>>,
}
impl State {
    fn trip(&self, c: &Cell<Option<u32>>) -> bool {
        match c.get() { Some(0) => { c.set(None); true } Some(n) => { c.set(Some(n - 1)); false } None => false }
    }
}
#[derive(Default, Clone)]
pub struct MemCtx(pub Rc<State>);

impl<'db> StorageContext<'db> for MemCtx {
    type Batch = MemBatch;
    type RawIterator = MemRawIterator;

    fn get<K: AsRef<[u8]>>(&self, key: K) -> CostResult<Option<Vec<u8>>, grovedb_storage::Error> {
        if self.0.trip(&self.0.fail_get) { return Err(grovedb_storage::Error::StorageError("injected get failure".into())).wrap_with_cost(OperationCost::default()); }
        let v = self.0.data.borrow().get(key.as_ref()).cloned().or_else(|| self.0.virt.borrow().as_ref().and_then(|f| f(key.as_ref())));
        Ok(v).wrap_with_cost(OperationCost { seek_count: 1, ..Default::default() })
    }
    fn put<K: AsRef<[u8]>>(&self, key: K, value: &[u8], _c: ChildrenSizesWithIsSumTree, _k: Option<KeyValueStorageCost>) -> CostResult<(), grovedb_storage::Error> {
        if self.0.trip(&self.0.fail_put) { return Err(grovedb_storage::Error::StorageError("injected put failure".into())).wrap_with_cost(OperationCost::default()); }
        self.0.data.borrow_mut().insert(key.as_ref().to_vec(), value.to_vec());
        Ok(()).wrap_with_cost(OperationCost { seek_count: 1, ..Default::default() })
    }

    fn put_aux<K: AsRef<[u8]>>(
        &self,
        _key: K,
        _value: &[u8],
        _cost_info: Option<KeyValueStorageCost>,
    ) -> CostResult<(), grovedb_storage::Error> {
        unimplemented!()
    }

    fn put_root<K: AsRef<[u8]>>(
        &self,
        _key: K,
        _value: &[u8],
        _cost_info: Option<KeyValueStorageCost>,
    ) -> CostResult<(), grovedb_storage::Error> {
        unimplemented!()
    }

    fn put_meta<K: AsRef<[u8]>>(
        &self,
        _key: K,
        _value: &[u8],
        _cost_info: Option<KeyValueStorageCost>,
    ) -> CostResult<(), grovedb_storage::Error> {
        unimplemented!()
    }

    fn delete<K: AsRef<[u8]>>(
        &self,
        _key: K,
        _cost_info: Option<KeyValueStorageCost>,
    ) -> CostResult<(), grovedb_storage::Error> {
        unimplemented!()
    }

    fn delete_aux<K: AsRef<[u8]>>(
        &self,
        _key: K,
        _cost_info: Option<KeyValueStorageCost>,
    ) -> CostResult<(), grovedb_storage::Error> {
        unimplemented!()
    }

    fn delete_root<K: AsRef<[u8]>>(
        &self,
        _key: K,
        _cost_info: Option<KeyValueStorageCost>,
    ) -> CostResult<(), grovedb_storage::Error> {
        unimplemented!()
    }

    fn delete_meta<K: AsRef<[u8]>>(
        &self,
        _key: K,
        _cost_info: Option<KeyValueStorageCost>,
    ) -> CostResult<(), grovedb_storage::Error> {
        unimplemented!()
    }

    fn get_aux<K: AsRef<[u8]>>(
        &self,
        _key: K,
    ) -> CostResult<Option<Vec<u8>>, grovedb_storage::Error> {
        unimplemented!()
    }

    fn get_root<K: AsRef<[u8]>>(
        &self,
        _key: K,
    ) -> CostResult<Option<Vec<u8>>, grovedb_storage::Error> {
        unimplemented!()
    }

    fn get_meta<K: AsRef<[u8]>>(
        &self,
        _key: K,
    ) -> CostResult<Option<Vec<u8>>, grovedb_storage::Error> {
        unimplemented!()
    }

    fn new_batch(&self) -> Self::Batch {
        MemBatch
    }

    fn commit_batch(&self, _batch: Self::Batch) -> CostResult<(), grovedb_storage::Error> {
        Ok(()).wrap_with_cost(OperationCost::default())
    }

    fn raw_iter(&self) -> Self::RawIterator {
        unimplemented!()
    }
}

// ── Batch and RawIterator stubs ───────────────────────────────────────

/// No-op batch (never used — MemStorageContext does immediate writes).
pub struct MemBatch;

impl Batch for MemBatch {
    fn put<K: AsRef<[u8]>>(
        &mut self,
        _key: K,
        _value: &[u8],
        _children_sizes: ChildrenSizesWithIsSumTree,
        _cost_info: Option<KeyValueStorageCost>,
    ) -> Result<(), grovedb_costs::error::Error> {
        unimplemented!("MemBatch::put")
    }

    fn put_aux<K: AsRef<[u8]>>(
        &mut self,
        _key: K,
        _value: &[u8],
        _cost_info: Option<KeyValueStorageCost>,
    ) -> Result<(), grovedb_costs::error::Error> {
        unimplemented!("MemBatch::put_aux")
    }

    fn put_root<K: AsRef<[u8]>>(
        &mut self,
        _key: K,
        _value: &[u8],
        _cost_info: Option<KeyValueStorageCost>,
    ) -> Result<(), grovedb_costs::error::Error> {
        unimplemented!("MemBatch::put_root")
    }

    fn delete<K: AsRef<[u8]>>(&mut self, _key: K, _cost_info: Option<KeyValueStorageCost>) {
        unimplemented!("MemBatch::delete")
    }

    fn delete_aux<K: AsRef<[u8]>>(&mut self, _key: K, _cost_info: Option<KeyValueStorageCost>) {
        unimplemented!("MemBatch::delete_aux")
    }

    fn delete_root<K: AsRef<[u8]>>(&mut self, _key: K, _cost_info: Option<KeyValueStorageCost>) {
        unimplemented!("MemBatch::delete_root")
    }
}

/// Stub iterator (never used by the dense tree).
pub struct MemRawIterator;

impl RawIterator for MemRawIterator {
    fn seek_to_first(&mut self) -> CostContext<()> {
        unimplemented!()
    }

    fn seek_to_last(&mut self) -> CostContext<()> {
        unimplemented!()
    }

    fn seek<K: AsRef<[u8]>>(&mut self, _key: K) -> CostContext<()> {
        unimplemented!()
    }

    fn seek_for_prev<K: AsRef<[u8]>>(&mut self, _key: K) -> CostContext<()> {
        unimplemented!()
    }

    fn next(&mut self) -> CostContext<()> {
        unimplemented!()
    }

    fn prev(&mut self) -> CostContext<()> {
        unimplemented!()
    }

    fn value(&self) -> CostContext<Option<&[u8]>> {
        unimplemented!()
    }

    fn key(&self) -> CostContext<Option<&[u8]>> {
        unimplemented!()
    }

    fn valid(&self) -> CostContext<bool> {
        unimplemented!()
    }
}
