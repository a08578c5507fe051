//! An in-memory storage behind the crates' own StorageContext trait; handles share the data,
//! and the harness may let the k-th operation from now fail.
use grovedb_costs::{
    storage_cost::key_value_cost::KeyValueStorageCost, ChildrenSizesWithIsSumTree, CostContext, CostResult, CostsExt,
    OperationCost,
};
use grovedb_storage::{Batch, Error, RawIterator, StorageContext};
use std::{cell::{Cell, RefCell}, rc::Rc};

#[derive(Default)]
pub struct Inner {
    pub data: RefCell<Vec<(Vec<u8>, Vec<u8>)>>,
    /// 0: no fault; n: the n-th operation from now fails
    pub fail_in: Cell<u64>,
    pub failed: Cell<bool>,
}
#[derive(Default, Clone)]
pub struct Store(pub Rc<Inner>);

impl Store {
    fn fault(&self) -> bool {
        let n = self.0.fail_in.get();
        if n > 0 {
            self.0.fail_in.set(n - 1);
            if n == 1 {
                self.0.failed.set(true);
                return true;
            }
        }
        false
    }
}
fn broken<T>() -> CostResult<T, Error> {
    Err(Error::StorageError("fault".into())).wrap_with_cost(OperationCost::default())
}

impl<'db> StorageContext<'db> for Store {
    type Batch = NoBatch;
    type RawIterator = NoIter;

    fn get<K: AsRef<[u8]>>(&self, key: K) -> CostResult<Option<Vec<u8>>, Error> {
        if self.fault() {
            return broken();
        }
        let d = self.0.data.borrow();
        Ok(d.iter().find(|e| e.0 == key.as_ref()).map(|e| e.1.clone())).wrap_with_cost(OperationCost::default())
    }
    fn put<K: AsRef<[u8]>>(&self, key: K, value: &[u8], _: ChildrenSizesWithIsSumTree, _: Option<KeyValueStorageCost>) -> CostResult<(), Error> {
        if self.fault() {
            return broken();
        }
        let mut d = self.0.data.borrow_mut();
        match d.iter_mut().find(|e| e.0 == key.as_ref()) {
            Some(e) => e.1 = value.to_vec(),
            None => d.push((key.as_ref().to_vec(), value.to_vec())),
        }
        Ok(()).wrap_with_cost(OperationCost::default())
    }
    fn put_aux<K: AsRef<[u8]>>(&self, _: K, _: &[u8], _: Option<KeyValueStorageCost>) -> CostResult<(), Error> {
        unimplemented!()
    }
    fn put_root<K: AsRef<[u8]>>(&self, _: K, _: &[u8], _: Option<KeyValueStorageCost>) -> CostResult<(), Error> {
        unimplemented!()
    }
    fn put_meta<K: AsRef<[u8]>>(&self, _: K, _: &[u8], _: Option<KeyValueStorageCost>) -> CostResult<(), Error> {
        unimplemented!()
    }
    fn delete<K: AsRef<[u8]>>(&self, _: K, _: Option<KeyValueStorageCost>) -> CostResult<(), Error> {
        unimplemented!()
    }
    fn delete_aux<K: AsRef<[u8]>>(&self, _: K, _: Option<KeyValueStorageCost>) -> CostResult<(), Error> {
        unimplemented!()
    }
    fn delete_root<K: AsRef<[u8]>>(&self, _: K, _: Option<KeyValueStorageCost>) -> CostResult<(), Error> {
        unimplemented!()
    }
    fn delete_meta<K: AsRef<[u8]>>(&self, _: K, _: Option<KeyValueStorageCost>) -> CostResult<(), Error> {
        unimplemented!()
    }
    fn get_aux<K: AsRef<[u8]>>(&self, _: K) -> CostResult<Option<Vec<u8>>, Error> {
        unimplemented!()
    }
    fn get_root<K: AsRef<[u8]>>(&self, _: K) -> CostResult<Option<Vec<u8>>, Error> {
        unimplemented!()
    }
    fn get_meta<K: AsRef<[u8]>>(&self, _: K) -> CostResult<Option<Vec<u8>>, Error> {
        unimplemented!()
    }
    fn new_batch(&self) -> NoBatch {
        NoBatch
    }
    fn commit_batch(&self, _: NoBatch) -> CostResult<(), Error> {
        unimplemented!()
    }
    fn raw_iter(&self) -> NoIter {
        unimplemented!()
    }
}
pub struct NoBatch;
impl Batch for NoBatch {
    fn put<K: AsRef<[u8]>>(&mut self, _: K, _: &[u8], _: ChildrenSizesWithIsSumTree, _: Option<KeyValueStorageCost>) -> Result<(), grovedb_costs::error::Error> {
        unimplemented!()
    }
    fn put_aux<K: AsRef<[u8]>>(&mut self, _: K, _: &[u8], _: Option<KeyValueStorageCost>) -> Result<(), grovedb_costs::error::Error> {
        unimplemented!()
    }
    fn put_root<K: AsRef<[u8]>>(&mut self, _: K, _: &[u8], _: Option<KeyValueStorageCost>) -> Result<(), grovedb_costs::error::Error> {
        unimplemented!()
    }
    fn delete<K: AsRef<[u8]>>(&mut self, _: K, _: Option<KeyValueStorageCost>) {
        unimplemented!()
    }
    fn delete_aux<K: AsRef<[u8]>>(&mut self, _: K, _: Option<KeyValueStorageCost>) {
        unimplemented!()
    }
    fn delete_root<K: AsRef<[u8]>>(&mut self, _: K, _: Option<KeyValueStorageCost>) {
        unimplemented!()
    }
}
pub struct NoIter;
impl RawIterator for NoIter {
    fn seek_to_first(&mut self) -> CostContext<()> {
        unimplemented!()
    }
    fn seek_to_last(&mut self) -> CostContext<()> {
        unimplemented!()
    }
    fn seek<K: AsRef<[u8]>>(&mut self, _: K) -> CostContext<()> {
        unimplemented!()
    }
    fn seek_for_prev<K: AsRef<[u8]>>(&mut self, _: K) -> CostContext<()> {
        unimplemented!()
    }
    fn next(&mut self) -> CostContext<()> {
        unimplemented!()
    }
    fn prev(&mut self) -> CostContext<()> {
        unimplemented!()
    }
    fn value(&self) -> CostContext<Option<&[u8]>> {
        unimplemented!()
    }
    fn key(&self) -> CostContext<Option<&[u8]>> {
        unimplemented!()
    }
    fn valid(&self) -> CostContext<bool> {
        unimplemented!()
    }
}
