//! Stand-in for the parts of the `rocksdb` crate grovedb uses (the crate itself is not
//! available offline): an ordered in-memory map per column family behind the same API.
//! Databases outlive their handles (opening a path again gives the committed contents), and
//! the harness may let the k-th operation from now fail.
use std::cell::{Cell, RefCell};
use std::fmt;
use std::path::Path;
use std::rc::Rc;

pub const DEFAULT_COLUMN_FAMILY_NAME: &str = "default";
const CFS: [&str; 4] = [DEFAULT_COLUMN_FAMILY_NAME, "aux", "roots", "meta"];

#[derive(Clone, PartialEq, Eq)]
pub struct Error(String);
impl Error {
    pub fn into_string(self) -> String {
        self.0
    }
}
impl fmt::Debug for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}

/// faults: 0 none, n the n-th operation from now fails
pub struct Faults {
    pub fail_in: Cell<u64>,
    pub ops: Cell<u64>,
}
struct Shared<T>(T);
// the harnesses run in one thread
unsafe impl<T> Sync for Shared<T> {}
unsafe impl<T> Send for Shared<T> {}
static FAULTS: Shared<Faults> = Shared(Faults { fail_in: Cell::new(0), ops: Cell::new(0) });
pub fn faults() -> &'static Faults {
    &FAULTS.0
}
fn op() -> Result<(), Error> {
    let f = faults();
    f.ops.set(f.ops.get() + 1);
    match f.fail_in.get() {
        0 => Ok(()),
        1 => {
            f.fail_in.set(0);
            Err(Error("injected fault".to_string()))
        }
        n => {
            f.fail_in.set(n - 1);
            Ok(())
        }
    }
}

type Key = Vec<u8>;
type Map<V> = Vec<(Key, V)>;
fn find<V>(m: &Map<V>, k: &[u8]) -> Result<usize, usize> {
    m.binary_search_by(|e| e.0.as_slice().cmp(k))
}
fn set<V>(m: &mut Map<V>, k: &[u8], v: V) {
    match find(m, k) {
        Ok(i) => m[i].1 = v,
        Err(i) => m.insert(i, (k.to_vec(), v)),
    }
}

#[derive(Default)]
struct Data {
    cfs: [Map<Vec<u8>>; 4],
}
static DBS: Shared<RefCell<Vec<(String, Rc<RefCell<Data>>)>>> = Shared(RefCell::new(Vec::new()));
/// everything is forgotten
pub fn forget_all() {
    DBS.0.borrow_mut().clear();
}

#[derive(Clone, Default)]
pub struct Options;
impl Options {
    pub fn create_if_missing(&mut self, _: bool) {}
    pub fn increase_parallelism(&mut self, _: i32) {}
    pub fn set_allow_mmap_writes(&mut self, _: bool) {}
    pub fn set_allow_mmap_reads(&mut self, _: bool) {}
    pub fn create_missing_column_families(&mut self, _: bool) {}
    pub fn set_atomic_flush(&mut self, _: bool) {}
    pub fn set_disable_auto_compactions(&mut self, _: bool) {}
}

pub struct ColumnFamily(usize);
pub struct ColumnFamilyDescriptor;
impl ColumnFamilyDescriptor {
    pub fn new<S: Into<String>>(_: S, _: Options) -> Self {
        ColumnFamilyDescriptor
    }
}
static HANDLES: [ColumnFamily; 4] = [ColumnFamily(0), ColumnFamily(1), ColumnFamily(2), ColumnFamily(3)];

pub struct OptimisticTransactionDB {
    data: Rc<RefCell<Data>>,
}
unsafe impl Send for OptimisticTransactionDB {}
unsafe impl Sync for OptimisticTransactionDB {}

impl OptimisticTransactionDB {
    pub fn open_cf_descriptors<P, I>(_: &Options, path: P, _: I) -> Result<Self, Error>
    where
        P: AsRef<Path>,
        I: IntoIterator<Item = ColumnFamilyDescriptor>,
    {
        let name = path.as_ref().to_string_lossy().into_owned();
        let mut dbs = DBS.0.borrow_mut();
        if let Some((_, data)) = dbs.iter().find(|d| d.0 == name) {
            return Ok(OptimisticTransactionDB { data: data.clone() });
        }
        let data = Rc::new(RefCell::new(Data::default()));
        dbs.push((name, data.clone()));
        Ok(OptimisticTransactionDB { data })
    }
    pub fn cf_handle(&self, name: &str) -> Option<&ColumnFamily> {
        CFS.iter().position(|n| *n == name).map(|i| &HANDLES[i])
    }
    fn read(&self, cf: usize, k: &[u8]) -> Option<Vec<u8>> {
        let d = self.data.borrow();
        find(&d.cfs[cf], k).ok().map(|i| d.cfs[cf][i].1.clone())
    }
    pub fn get<K: AsRef<[u8]>>(&self, k: K) -> Result<Option<Vec<u8>>, Error> {
        op()?;
        Ok(self.read(0, k.as_ref()))
    }
    pub fn get_cf<K: AsRef<[u8]>>(&self, cf: &ColumnFamily, k: K) -> Result<Option<Vec<u8>>, Error> {
        op()?;
        Ok(self.read(cf.0, k.as_ref()))
    }
    fn apply(&self, ops: &[(usize, Key, Option<Vec<u8>>)]) {
        let mut d = self.data.borrow_mut();
        for (cf, k, v) in ops {
            match v {
                Some(v) => set(&mut d.cfs[*cf], k, v.clone()),
                None => {
                    if let Ok(i) = find(&d.cfs[*cf], k) {
                        d.cfs[*cf].remove(i);
                    }
                }
            }
        }
    }
    pub fn write(&self, b: WriteBatchWithTransaction<true>) -> Result<(), Error> {
        op()?;
        self.apply(&b.ops);
        Ok(())
    }
    pub fn delete_range_cf<K: AsRef<[u8]>>(&self, cf: &ColumnFamily, from: K, to: K) -> Result<(), Error> {
        op()?;
        self.data.borrow_mut().cfs[cf.0].retain(|(k, _)| k.as_slice() < from.as_ref() || k.as_slice() >= to.as_ref());
        Ok(())
    }
    pub fn flush(&self) -> Result<(), Error> {
        op()
    }
    pub fn transaction(&self) -> Transaction<'_, Self> {
        Transaction { db: self, over: RefCell::new(Default::default()) }
    }
    pub fn raw_iterator_cf<'a>(&'a self, cf: &ColumnFamily) -> DBRawIteratorWithThreadMode<'a, Self> {
        DBRawIteratorWithThreadMode { src: self, cf: cf.0, cur: None }
    }
    pub fn raw_iterator(&self) -> DBRawIteratorWithThreadMode<'_, Self> {
        DBRawIteratorWithThreadMode { src: self, cf: 0, cur: None }
    }
    /// the committed records of a column family
    pub fn dump(&self, cf: usize) -> Vec<(Vec<u8>, Vec<u8>)> {
        self.data.borrow().cfs[cf].clone()
    }
}

pub struct Transaction<'db, D> {
    db: &'db D,
    over: RefCell<[Map<Option<Vec<u8>>>; 4]>,
}
unsafe impl<D> Send for Transaction<'_, D> {}

impl<'db> Transaction<'db, OptimisticTransactionDB> {
    fn read(&self, cf: usize, k: &[u8]) -> Option<Vec<u8>> {
        let o = self.over.borrow();
        match find(&o[cf], k) {
            Ok(i) => o[cf][i].1.clone(),
            Err(_) => self.db.read(cf, k),
        }
    }
    pub fn get<K: AsRef<[u8]>>(&self, k: K) -> Result<Option<Vec<u8>>, Error> {
        op()?;
        Ok(self.read(0, k.as_ref()))
    }
    pub fn get_cf<K: AsRef<[u8]>>(&self, cf: &ColumnFamily, k: K) -> Result<Option<Vec<u8>>, Error> {
        op()?;
        Ok(self.read(cf.0, k.as_ref()))
    }
    fn store(&self, cf: usize, k: &[u8], v: Option<Vec<u8>>) -> Result<(), Error> {
        op()?;
        set(&mut self.over.borrow_mut()[cf], k, v);
        Ok(())
    }
    pub fn put<K: AsRef<[u8]>, V: AsRef<[u8]>>(&self, k: K, v: V) -> Result<(), Error> {
        self.store(0, k.as_ref(), Some(v.as_ref().to_vec()))
    }
    pub fn put_cf<K: AsRef<[u8]>, V: AsRef<[u8]>>(&self, cf: &ColumnFamily, k: K, v: V) -> Result<(), Error> {
        self.store(cf.0, k.as_ref(), Some(v.as_ref().to_vec()))
    }
    pub fn delete<K: AsRef<[u8]>>(&self, k: K) -> Result<(), Error> {
        self.store(0, k.as_ref(), None)
    }
    pub fn delete_cf<K: AsRef<[u8]>>(&self, cf: &ColumnFamily, k: K) -> Result<(), Error> {
        self.store(cf.0, k.as_ref(), None)
    }
    pub fn rebuild_from_writebatch(&self, b: &WriteBatchWithTransaction<true>) -> Result<(), Error> {
        op()?;
        let mut o = self.over.borrow_mut();
        for (cf, k, v) in &b.ops {
            set(&mut o[*cf], k, v.clone());
        }
        Ok(())
    }
    pub fn commit(self) -> Result<(), Error> {
        op()?;
        let o = self.over.into_inner();
        for (cf, m) in o.into_iter().enumerate() {
            let ops: Vec<_> = m.into_iter().map(|(k, v)| (cf, k, v)).collect();
            self.db.apply(&ops);
        }
        Ok(())
    }
    pub fn rollback(&self) -> Result<(), Error> {
        op()?;
        *self.over.borrow_mut() = Default::default();
        Ok(())
    }
    pub fn raw_iterator<'a>(&'a self) -> DBRawIteratorWithThreadMode<'a, Self>
    where
        'db: 'a,
    {
        DBRawIteratorWithThreadMode { src: self, cf: 0, cur: None }
    }
}

/// the nearest record from a key on: at or after / after / at or before / before it
#[derive(Clone, Copy, PartialEq)]
pub enum Way {
    From,
    After,
    UpTo,
    Before,
}
fn nearest<V>(m: &Map<V>, k: Option<&[u8]>, way: Way) -> Option<usize> {
    let n = match (k, way) {
        (None, Way::From | Way::After) => 0,
        (None, _) => return m.len().checked_sub(1),
        (Some(k), _) => match (find(m, k), way) {
            (Ok(i) | Err(i), Way::From) => i,
            (Ok(i), Way::After) => i + 1,
            (Err(i), Way::After) => i,
            (Ok(i), Way::UpTo) => return Some(i),
            (Ok(i), Way::Before) | (Err(i), Way::UpTo | Way::Before) => return i.checked_sub(1),
        },
    };
    (n < m.len()).then_some(n)
}
pub trait Source {
    fn step(&self, cf: usize, k: Option<&[u8]>, way: Way) -> Option<(Key, Vec<u8>)>;
}
impl Source for OptimisticTransactionDB {
    fn step(&self, cf: usize, k: Option<&[u8]>, way: Way) -> Option<(Key, Vec<u8>)> {
        let d = self.data.borrow();
        nearest(&d.cfs[cf], k, way).map(|i| d.cfs[cf][i].clone())
    }
}
impl Source for Transaction<'_, OptimisticTransactionDB> {
    fn step(&self, cf: usize, k: Option<&[u8]>, way: Way) -> Option<(Key, Vec<u8>)> {
        let o = &self.over.borrow()[cf];
        let d = &self.db.data.borrow().cfs[cf];
        let (mut k, mut way) = (k.map(|k| k.to_vec()), way);
        let fwd = matches!(way, Way::From | Way::After);
        loop {
            let i = nearest(d, k.as_deref(), way);
            let j = nearest(o, k.as_deref(), way);
            let over = match (i, j) {
                (None, None) => return None,
                (Some(_), None) => false,
                (None, Some(_)) => true,
                (Some(i), Some(j)) => {
                    if fwd {
                        o[j].0 <= d[i].0
                    } else {
                        o[j].0 >= d[i].0
                    }
                }
            };
            if !over {
                return Some(d[i.unwrap()].clone());
            }
            match &o[j.unwrap()] {
                (k, Some(v)) => return Some((k.clone(), v.clone())),
                (gone, None) => {
                    k = Some(gone.clone());
                    way = if fwd { Way::After } else { Way::Before };
                }
            }
        }
    }
}

pub struct DBRawIteratorWithThreadMode<'a, S> {
    src: &'a S,
    cf: usize,
    cur: Option<(Key, Vec<u8>)>,
}
impl<S: Source> DBRawIteratorWithThreadMode<'_, S> {
    pub fn seek<K: AsRef<[u8]>>(&mut self, k: K) {
        self.cur = self.src.step(self.cf, Some(k.as_ref()), Way::From);
    }
    pub fn seek_for_prev<K: AsRef<[u8]>>(&mut self, k: K) {
        self.cur = self.src.step(self.cf, Some(k.as_ref()), Way::UpTo);
    }
    pub fn seek_to_first(&mut self) {
        self.cur = self.src.step(self.cf, None, Way::From);
    }
    pub fn seek_to_last(&mut self) {
        self.cur = self.src.step(self.cf, None, Way::UpTo);
    }
    pub fn next(&mut self) {
        if let Some((k, _)) = self.cur.take() {
            self.cur = self.src.step(self.cf, Some(&k), Way::After);
        }
    }
    pub fn prev(&mut self) {
        if let Some((k, _)) = self.cur.take() {
            self.cur = self.src.step(self.cf, Some(&k), Way::Before);
        }
    }
    pub fn valid(&self) -> bool {
        self.cur.is_some()
    }
    pub fn key(&self) -> Option<&[u8]> {
        self.cur.as_ref().map(|c| c.0.as_slice())
    }
    pub fn value(&self) -> Option<&[u8]> {
        self.cur.as_ref().map(|c| c.1.as_slice())
    }
    pub fn status(&self) -> Result<(), Error> {
        Ok(())
    }
}

#[derive(Default, Clone)]
pub struct WriteBatchWithTransaction<const T: bool> {
    ops: Vec<(usize, Key, Option<Vec<u8>>)>,
}
impl<const T: bool> WriteBatchWithTransaction<T> {
    pub fn put<K: AsRef<[u8]>, V: AsRef<[u8]>>(&mut self, k: K, v: V) {
        self.ops.push((0, k.as_ref().to_vec(), Some(v.as_ref().to_vec())));
    }
    pub fn put_cf<K: AsRef<[u8]>, V: AsRef<[u8]>>(&mut self, cf: &ColumnFamily, k: K, v: V) {
        self.ops.push((cf.0, k.as_ref().to_vec(), Some(v.as_ref().to_vec())));
    }
    pub fn delete<K: AsRef<[u8]>>(&mut self, k: K) {
        self.ops.push((0, k.as_ref().to_vec(), None));
    }
    pub fn delete_cf<K: AsRef<[u8]>>(&mut self, cf: &ColumnFamily, k: K) {
        self.ops.push((cf.0, k.as_ref().to_vec(), None));
    }
    pub fn len(&self) -> usize {
        self.ops.len()
    }
    pub fn is_empty(&self) -> bool {
        self.ops.is_empty()
    }
}

pub mod checkpoint {
    use super::*;
    pub struct Checkpoint<'a>(&'a OptimisticTransactionDB);
    impl<'a> Checkpoint<'a> {
        pub fn new(db: &'a OptimisticTransactionDB) -> Result<Self, Error> {
            Ok(Checkpoint(db))
        }
        pub fn create_checkpoint_with_log_size<P: AsRef<Path>>(&self, path: P, _: u64) -> Result<(), Error> {
            op()?;
            let data = Data { cfs: self.0.data.borrow().cfs.clone() };
            DBS.0.borrow_mut().push((path.as_ref().to_string_lossy().into_owned(), Rc::new(RefCell::new(data))));
            Ok(())
        }
    }
}
/// the committed records of a column family of the database at a path
pub fn records(name: &str, cf: usize) -> Vec<(Vec<u8>, Vec<u8>)> {
    DBS.0.borrow().iter().find(|d| d.0 == name).map(|d| d.1.borrow().cfs[cf].clone()).unwrap_or_default()
}
