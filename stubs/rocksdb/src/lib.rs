//! In-memory stand-in for the subset of the `rocksdb` crate's API that
//! grovedb-storage uses. It exists so that the type checker can see the whole
//! of grovedb offline; the analyses treat every item of this crate as opaque.
use std::{
    collections::{BTreeMap, HashMap},
    fmt,
    marker::PhantomData,
    ops::Bound,
    path::{Path, PathBuf},
    sync::{Arc, Mutex, OnceLock, RwLock},
};

pub const DEFAULT_COLUMN_FAMILY_NAME: &str = "default";

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Error {
    message: String,
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.message)
    }
}
impl std::error::Error for Error {}

#[derive(Clone, Default)]
pub struct Options {
    create: bool,
}
impl Options {
    pub fn create_if_missing(&mut self, v: bool) {
        self.create = v;
    }
    pub fn increase_parallelism(&mut self, _: i32) {}
    pub fn set_allow_mmap_writes(&mut self, _: bool) {}
    pub fn set_allow_mmap_reads(&mut self, _: bool) {}
    pub fn create_missing_column_families(&mut self, _: bool) {}
    pub fn set_atomic_flush(&mut self, _: bool) {}
    pub fn set_disable_auto_compactions(&mut self, _: bool) {}
}

pub struct ColumnFamily {
    id: usize,
}
pub trait AsColumnFamilyRef {
    fn cf_id(&self) -> usize;
}
impl AsColumnFamilyRef for ColumnFamily {
    fn cf_id(&self) -> usize {
        self.id
    }
}
impl<T: AsColumnFamilyRef> AsColumnFamilyRef for &T {
    fn cf_id(&self) -> usize {
        (**self).cf_id()
    }
}

pub struct ColumnFamilyDescriptor {
    name: String,
}
impl ColumnFamilyDescriptor {
    pub fn new<S: Into<String>>(name: S, _: Options) -> Self {
        Self { name: name.into() }
    }
}

type Key = (usize, Vec<u8>);
type Map = BTreeMap<Key, Vec<u8>>;
type Shared = Arc<RwLock<Map>>;

fn registry() -> &'static Mutex<HashMap<PathBuf, Shared>> {
    static R: OnceLock<Mutex<HashMap<PathBuf, Shared>>> = OnceLock::new();
    R.get_or_init(Default::default)
}

pub struct OptimisticTransactionDB {
    data: Shared,
    cfs: Vec<(String, ColumnFamily)>,
}

impl OptimisticTransactionDB {
    pub fn open_cf_descriptors<P: AsRef<Path>, I: IntoIterator<Item = ColumnFamilyDescriptor>>(
        opts: &Options,
        path: P,
        cfs: I,
    ) -> Result<Self, Error> {
        let path = path.as_ref().to_path_buf();
        let mut reg = registry().lock().unwrap();
        if !reg.contains_key(&path) {
            if !opts.create {
                return Err(Error {
                    message: "no such database".into(),
                });
            }
            std::fs::create_dir_all(&path).map_err(|e| Error {
                message: e.to_string(),
            })?;
        }
        let data = reg.entry(path).or_default().clone();
        let mut v = vec![(DEFAULT_COLUMN_FAMILY_NAME.to_string(), ColumnFamily { id: 0 })];
        for cf in cfs {
            let id = v.len();
            v.push((cf.name, ColumnFamily { id }));
        }
        Ok(Self { data, cfs: v })
    }
    pub fn cf_handle(&self, name: &str) -> Option<&ColumnFamily> {
        self.cfs.iter().find(|(n, _)| n == name).map(|(_, c)| c)
    }
    fn read(&self, cf: usize, key: &[u8]) -> Option<Vec<u8>> {
        self.data.read().unwrap().get(&(cf, key.to_vec())).cloned()
    }
    pub fn get<K: AsRef<[u8]>>(&self, key: K) -> Result<Option<Vec<u8>>, Error> {
        Ok(self.read(0, key.as_ref()))
    }
    pub fn get_cf<K: AsRef<[u8]>>(
        &self,
        cf: &impl AsColumnFamilyRef,
        key: K,
    ) -> Result<Option<Vec<u8>>, Error> {
        Ok(self.read(cf.cf_id(), key.as_ref()))
    }
    pub fn put<K: AsRef<[u8]>, V: AsRef<[u8]>>(&self, key: K, value: V) -> Result<(), Error> {
        self.data
            .write()
            .unwrap()
            .insert((0, key.as_ref().to_vec()), value.as_ref().to_vec());
        Ok(())
    }
    pub fn put_cf<K: AsRef<[u8]>, V: AsRef<[u8]>>(
        &self,
        cf: &impl AsColumnFamilyRef,
        key: K,
        value: V,
    ) -> Result<(), Error> {
        self.data
            .write()
            .unwrap()
            .insert((cf.cf_id(), key.as_ref().to_vec()), value.as_ref().to_vec());
        Ok(())
    }
    pub fn delete<K: AsRef<[u8]>>(&self, key: K) -> Result<(), Error> {
        self.data.write().unwrap().remove(&(0, key.as_ref().to_vec()));
        Ok(())
    }
    pub fn delete_cf<K: AsRef<[u8]>>(
        &self,
        cf: &impl AsColumnFamilyRef,
        key: K,
    ) -> Result<(), Error> {
        self.data
            .write()
            .unwrap()
            .remove(&(cf.cf_id(), key.as_ref().to_vec()));
        Ok(())
    }
    pub fn delete_range_cf<K: AsRef<[u8]>>(
        &self,
        cf: &impl AsColumnFamilyRef,
        from: K,
        to: K,
    ) -> Result<(), Error> {
        let lo = (cf.cf_id(), from.as_ref().to_vec());
        let hi = (cf.cf_id(), to.as_ref().to_vec());
        self.data
            .write()
            .unwrap()
            .retain(|k, _| !(*k >= lo && *k < hi));
        Ok(())
    }
    pub fn write(&self, batch: WriteBatchWithTransaction<true>) -> Result<(), Error> {
        let mut d = self.data.write().unwrap();
        for (k, v) in batch.ops {
            match v {
                Some(v) => {
                    d.insert(k, v);
                }
                None => {
                    d.remove(&k);
                }
            }
        }
        Ok(())
    }
    pub fn flush(&self) -> Result<(), Error> {
        Ok(())
    }
    pub fn transaction(&self) -> Transaction<'_, Self> {
        Transaction {
            db: self,
            overlay: Default::default(),
            _p: PhantomData,
        }
    }
    pub fn raw_iterator(&self) -> DBRawIteratorWithThreadMode<'_, Self> {
        DBRawIteratorWithThreadMode {
            src: self,
            cf: 0,
            cur: None,
        }
    }
    pub fn raw_iterator_cf<'a: 'b, 'b>(
        &'a self,
        cf: &impl AsColumnFamilyRef,
    ) -> DBRawIteratorWithThreadMode<'b, Self> {
        DBRawIteratorWithThreadMode {
            src: self,
            cf: cf.cf_id(),
            cur: None,
        }
    }
}

pub struct WriteBatchWithTransaction<const TRANSACTION: bool> {
    ops: Vec<(Key, Option<Vec<u8>>)>,
}
impl<const T: bool> Default for WriteBatchWithTransaction<T> {
    fn default() -> Self {
        Self { ops: Vec::new() }
    }
}
impl<const T: bool> WriteBatchWithTransaction<T> {
    pub fn put<K: AsRef<[u8]>, V: AsRef<[u8]>>(&mut self, key: K, value: V) {
        self.ops
            .push(((0, key.as_ref().to_vec()), Some(value.as_ref().to_vec())));
    }
    pub fn put_cf<K: AsRef<[u8]>, V: AsRef<[u8]>>(
        &mut self,
        cf: &impl AsColumnFamilyRef,
        key: K,
        value: V,
    ) {
        self.ops.push((
            (cf.cf_id(), key.as_ref().to_vec()),
            Some(value.as_ref().to_vec()),
        ));
    }
    pub fn delete<K: AsRef<[u8]>>(&mut self, key: K) {
        self.ops.push(((0, key.as_ref().to_vec()), None));
    }
    pub fn delete_cf<K: AsRef<[u8]>>(&mut self, cf: &impl AsColumnFamilyRef, key: K) {
        self.ops.push(((cf.cf_id(), key.as_ref().to_vec()), None));
    }
}

pub struct Transaction<'db, DB> {
    db: &'db OptimisticTransactionDB,
    overlay: RwLock<BTreeMap<Key, Option<Vec<u8>>>>,
    _p: PhantomData<DB>,
}
impl<'db> Transaction<'db, OptimisticTransactionDB> {
    pub fn commit(self) -> Result<(), Error> {
        let mut d = self.db.data.write().unwrap();
        for (k, v) in self.overlay.into_inner().unwrap() {
            match v {
                Some(v) => {
                    d.insert(k, v);
                }
                None => {
                    d.remove(&k);
                }
            }
        }
        Ok(())
    }
    pub fn rollback(&self) -> Result<(), Error> {
        self.overlay.write().unwrap().clear();
        Ok(())
    }
    fn read(&self, cf: usize, key: &[u8]) -> Option<Vec<u8>> {
        let k = (cf, key.to_vec());
        match self.overlay.read().unwrap().get(&k) {
            Some(v) => v.clone(),
            None => self.db.read(cf, key),
        }
    }
    pub fn get<K: AsRef<[u8]>>(&self, key: K) -> Result<Option<Vec<u8>>, Error> {
        Ok(self.read(0, key.as_ref()))
    }
    pub fn get_cf<K: AsRef<[u8]>>(
        &self,
        cf: &impl AsColumnFamilyRef,
        key: K,
    ) -> Result<Option<Vec<u8>>, Error> {
        Ok(self.read(cf.cf_id(), key.as_ref()))
    }
    pub fn put<K: AsRef<[u8]>, V: AsRef<[u8]>>(&self, key: K, value: V) -> Result<(), Error> {
        self.overlay
            .write()
            .unwrap()
            .insert((0, key.as_ref().to_vec()), Some(value.as_ref().to_vec()));
        Ok(())
    }
    pub fn put_cf<K: AsRef<[u8]>, V: AsRef<[u8]>>(
        &self,
        cf: &impl AsColumnFamilyRef,
        key: K,
        value: V,
    ) -> Result<(), Error> {
        self.overlay.write().unwrap().insert(
            (cf.cf_id(), key.as_ref().to_vec()),
            Some(value.as_ref().to_vec()),
        );
        Ok(())
    }
    pub fn delete<K: AsRef<[u8]>>(&self, key: K) -> Result<(), Error> {
        self.overlay
            .write()
            .unwrap()
            .insert((0, key.as_ref().to_vec()), None);
        Ok(())
    }
    pub fn delete_cf<K: AsRef<[u8]>>(
        &self,
        cf: &impl AsColumnFamilyRef,
        key: K,
    ) -> Result<(), Error> {
        self.overlay
            .write()
            .unwrap()
            .insert((cf.cf_id(), key.as_ref().to_vec()), None);
        Ok(())
    }
    pub fn rebuild_from_writebatch(
        &self,
        batch: &WriteBatchWithTransaction<true>,
    ) -> Result<(), Error> {
        let mut o = self.overlay.write().unwrap();
        for (k, v) in &batch.ops {
            o.insert(k.clone(), v.clone());
        }
        Ok(())
    }
    pub fn raw_iterator(&self) -> DBRawIteratorWithThreadMode<'_, Self> {
        DBRawIteratorWithThreadMode {
            src: self,
            cf: 0,
            cur: None,
        }
    }
}

#[doc(hidden)]
pub trait Source {
    fn merged(&self) -> Map;
}
impl Source for OptimisticTransactionDB {
    fn merged(&self) -> Map {
        self.data.read().unwrap().clone()
    }
}
impl<'db> Source for Transaction<'db, OptimisticTransactionDB> {
    fn merged(&self) -> Map {
        let mut m = self.db.data.read().unwrap().clone();
        for (k, v) in self.overlay.read().unwrap().iter() {
            match v {
                Some(v) => {
                    m.insert(k.clone(), v.clone());
                }
                None => {
                    m.remove(k);
                }
            }
        }
        m
    }
}

pub struct DBRawIteratorWithThreadMode<'a, D> {
    src: &'a D,
    cf: usize,
    cur: Option<(Vec<u8>, Vec<u8>)>,
}
impl<'a, D: Source> DBRawIteratorWithThreadMode<'a, D> {
    fn fwd(&mut self, lo: Bound<Key>) {
        let m = self.src.merged();
        let cf = self.cf;
        self.cur = m
            .range((lo, Bound::Unbounded))
            .next()
            .filter(|(k, _)| k.0 == cf)
            .map(|(k, v)| (k.1.clone(), v.clone()));
    }
    fn back(&mut self, hi: Bound<Key>) {
        let m = self.src.merged();
        let cf = self.cf;
        self.cur = m
            .range((Bound::Unbounded, hi))
            .next_back()
            .filter(|(k, _)| k.0 == cf)
            .map(|(k, v)| (k.1.clone(), v.clone()));
    }
    pub fn seek_to_first(&mut self) {
        self.fwd(Bound::Included((self.cf, vec![])));
    }
    pub fn seek_to_last(&mut self) {
        self.back(Bound::Excluded((self.cf + 1, vec![])));
    }
    pub fn seek<K: AsRef<[u8]>>(&mut self, key: K) {
        self.fwd(Bound::Included((self.cf, key.as_ref().to_vec())));
    }
    pub fn seek_for_prev<K: AsRef<[u8]>>(&mut self, key: K) {
        self.back(Bound::Included((self.cf, key.as_ref().to_vec())));
    }
    pub fn next(&mut self) {
        if let Some((k, _)) = self.cur.take() {
            self.fwd(Bound::Excluded((self.cf, k)));
        }
    }
    pub fn prev(&mut self) {
        if let Some((k, _)) = self.cur.take() {
            self.back(Bound::Excluded((self.cf, k)));
        }
    }
    pub fn valid(&self) -> bool {
        self.cur.is_some()
    }
    pub fn key(&self) -> Option<&[u8]> {
        self.cur.as_ref().map(|(k, _)| k.as_slice())
    }
    pub fn value(&self) -> Option<&[u8]> {
        self.cur.as_ref().map(|(_, v)| v.as_slice())
    }
    pub fn status(&self) -> Result<(), Error> {
        Ok(())
    }
}

pub mod checkpoint {
    use super::*;
    pub struct Checkpoint<'db> {
        db: &'db OptimisticTransactionDB,
    }
    impl<'db> Checkpoint<'db> {
        pub fn new(db: &'db OptimisticTransactionDB) -> Result<Self, Error> {
            Ok(Self { db })
        }
        pub fn create_checkpoint_with_log_size<P: AsRef<Path>>(
            &self,
            path: P,
            _: u64,
        ) -> Result<(), Error> {
            let p = path.as_ref().to_path_buf();
            std::fs::create_dir(&p).map_err(|e| Error {
                message: e.to_string(),
            })?;
            let copy = self.db.data.read().unwrap().clone();
            registry()
                .lock()
                .unwrap()
                .insert(p, Arc::new(RwLock::new(copy)));
            Ok(())
        }
    }
}
