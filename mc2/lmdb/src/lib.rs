//! The interface of the lmdb-rkv fork the repository uses, over the model in lmdb_sys.
use lmdb_sys as ffi;
use std::marker::PhantomData;
use std::os::raw::{c_int, c_uint};
use std::path::Path;
use std::ptr;

#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub enum Error {
    KeyExist,
    NotFound,
    MapFull,
    DbsFull,
    Incompatible,
    BadTxn,
    BadValSize,
    Other(c_int),
}
impl Error {
    pub fn from_err_code(c: c_int) -> Error {
        match c {
            ffi::MDB_KEYEXIST => Error::KeyExist,
            ffi::MDB_NOTFOUND => Error::NotFound,
            ffi::MDB_MAP_FULL => Error::MapFull,
            ffi::MDB_DBS_FULL => Error::DbsFull,
            ffi::MDB_INCOMPATIBLE => Error::Incompatible,
            ffi::MDB_BAD_TXN => Error::BadTxn,
            ffi::MDB_BAD_VALSIZE => Error::BadValSize,
            o => Error::Other(o),
        }
    }
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;
pub fn lmdb_result(c: c_int) -> Result<()> {
    if c == ffi::MDB_SUCCESS {
        Ok(())
    } else {
        Err(Error::from_err_code(c))
    }
}

bitflags::bitflags! {
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Default)]
    pub struct EnvironmentFlags: c_uint {
        const NO_SYNC = ffi::MDB_NOSYNC;
        const READ_ONLY = ffi::MDB_RDONLY;
        const NO_META_SYNC = ffi::MDB_NOMETASYNC;
        const WRITE_MAP = ffi::MDB_WRITEMAP;
        const MAP_ASYNC = ffi::MDB_MAPASYNC;
        const NO_TLS = ffi::MDB_NOTLS;
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Default)]
    pub struct DatabaseFlags: c_uint {
        const REVERSE_KEY = ffi::MDB_REVERSEKEY;
        const DUP_SORT = ffi::MDB_DUPSORT;
        const INTEGER_KEY = ffi::MDB_INTEGERKEY;
        const DUP_FIXED = ffi::MDB_DUPFIXED;
        const INTEGER_DUP = ffi::MDB_INTEGERDUP;
        const REVERSE_DUP = ffi::MDB_REVERSEDUP;
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Default)]
    pub struct WriteFlags: c_uint {
        const NO_OVERWRITE = ffi::MDB_NOOVERWRITE;
        const NO_DUP_DATA = ffi::MDB_NODUPDATA;
        const CURRENT = ffi::MDB_CURRENT;
        const APPEND = ffi::MDB_APPEND;
        const APPEND_DUP = ffi::MDB_APPENDDUP;
    }
}

#[derive(Debug, Clone, Copy)]
pub struct Database(ffi::MDB_dbi);
impl Database {
    pub fn dbi(&self) -> ffi::MDB_dbi {
        self.0
    }
}
pub struct Environment {
    env: *mut ffi::MDB_env,
}
unsafe impl Send for Environment {}
unsafe impl Sync for Environment {}
#[derive(Default)]
pub struct EnvironmentBuilder {
    flags: EnvironmentFlags,
    max_dbs: c_uint,
    size: usize,
}
impl EnvironmentBuilder {
    pub fn set_max_dbs(&mut self, n: c_uint) -> &mut Self {
        self.max_dbs = n;
        self
    }
    pub fn set_flags(&mut self, f: EnvironmentFlags) -> &mut Self {
        self.flags = f;
        self
    }
    pub fn set_map_size(&mut self, n: usize) -> &mut Self {
        self.size = n;
        self
    }
    pub fn open(&self, path: &Path) -> Result<Environment> {
        // commits are durable in the model: options that give that up are not modelled
        assert!(!self.flags.intersects(EnvironmentFlags::NO_SYNC | EnvironmentFlags::NO_META_SYNC | EnvironmentFlags::MAP_ASYNC));
        let env = unsafe { ffi::open(path, self.max_dbs as usize) }.map_err(Error::from_err_code)?;
        Ok(Environment { env })
    }
}
impl Environment {
    #[allow(clippy::new_ret_no_self)]
    pub fn new() -> EnvironmentBuilder {
        EnvironmentBuilder::default()
    }
    pub fn env(&self) -> *mut ffi::MDB_env {
        self.env
    }
    pub fn create_db(&self, name: Option<&str>, flags: DatabaseFlags) -> Result<Database> {
        let txn = self.begin_rw_txn()?;
        let db = unsafe { ffi::mdb_dbi_open(txn.0, name.expect("named"), flags.bits() | ffi::MDB_CREATE) }.map_err(Error::from_err_code)?;
        txn.commit()?;
        Ok(Database(db))
    }
    pub fn begin_ro_txn(&self) -> Result<RoTransaction<'_>> {
        unsafe { ffi::mdb_txn_begin(self.env, false) }.map(|t| RoTransaction(t, PhantomData)).map_err(Error::from_err_code)
    }
    pub fn begin_rw_txn(&self) -> Result<RwTransaction<'_>> {
        unsafe { ffi::mdb_txn_begin(self.env, true) }.map(|t| RwTransaction(t, PhantomData)).map_err(Error::from_err_code)
    }
}
impl Drop for Environment {
    fn drop(&mut self) {
        unsafe { ffi::mdb_env_close(self.env) }
    }
}
pub trait Transaction: Sized {
    fn txn(&self) -> *mut ffi::MDB_txn;
    fn commit(self) -> Result<()> {
        let me = std::mem::ManuallyDrop::new(self);
        lmdb_result(unsafe { ffi::mdb_txn_commit(me.txn()) })
    }
    fn abort(self) {}
    fn open_ro_cursor<'t>(&'t self, db: Database) -> Result<RoCursor<'t>> {
        RoCursor::open(self.txn(), db)
    }
}
pub struct RoTransaction<'e>(*mut ffi::MDB_txn, PhantomData<&'e ()>);
pub struct InactiveTransaction<'e>(*mut ffi::MDB_txn, PhantomData<&'e ()>);
pub struct RwTransaction<'e>(*mut ffi::MDB_txn, PhantomData<&'e ()>);
impl<'e> Transaction for RoTransaction<'e> {
    fn txn(&self) -> *mut ffi::MDB_txn {
        self.0
    }
}
impl<'e> Transaction for RwTransaction<'e> {
    fn txn(&self) -> *mut ffi::MDB_txn {
        self.0
    }
}
impl<'e> RoTransaction<'e> {
    pub fn reset(self) -> InactiveTransaction<'e> {
        let t = self.0;
        std::mem::forget(self);
        unsafe { ffi::mdb_txn_reset(t) };
        InactiveTransaction(t, PhantomData)
    }
}
impl<'e> InactiveTransaction<'e> {
    pub fn renew(self) -> Result<RoTransaction<'e>> {
        let t = self.0;
        lmdb_result(unsafe { ffi::mdb_txn_renew(t) })?;
        std::mem::forget(self);
        Ok(RoTransaction(t, PhantomData))
    }
}
impl<'e> Drop for RoTransaction<'e> {
    fn drop(&mut self) {
        unsafe { ffi::mdb_txn_abort(self.0) }
    }
}
impl<'e> Drop for InactiveTransaction<'e> {
    fn drop(&mut self) {
        unsafe { ffi::mdb_txn_abort(self.0) }
    }
}
impl<'e> Drop for RwTransaction<'e> {
    fn drop(&mut self) {
        unsafe { ffi::mdb_txn_abort(self.0) }
    }
}
pub struct RoCursor<'t>(*mut ffi::MDB_cursor, PhantomData<&'t ()>);
pub struct RwCursor<'t>(RoCursor<'t>);
impl<'t> Drop for RoCursor<'t> {
    fn drop(&mut self) {
        unsafe { ffi::mdb_cursor_close(self.0) }
    }
}
fn to_val(b: Option<&[u8]>) -> ffi::MDB_val {
    match b {
        Some(b) => ffi::MDB_val { mv_size: b.len(), mv_data: b.as_ptr() as *mut _ },
        None => ffi::MDB_val { mv_size: 0, mv_data: ptr::null_mut() },
    }
}
unsafe fn to_slice<'a>(v: ffi::MDB_val) -> &'a [u8] {
    std::slice::from_raw_parts(v.mv_data as *const u8, v.mv_size)
}
impl<'t> RoCursor<'t> {
    fn open(txn: *mut ffi::MDB_txn, db: Database) -> Result<Self> {
        unsafe { ffi::mdb_cursor_open(txn, db.0) }.map(|c| RoCursor(c, PhantomData)).map_err(Error::from_err_code)
    }
    pub fn cursor(&self) -> *mut ffi::MDB_cursor {
        self.0
    }
    #[allow(clippy::type_complexity)]
    pub fn get(&self, key: Option<&[u8]>, data: Option<&[u8]>, op: c_uint) -> Result<(Option<&'t [u8]>, &'t [u8])> {
        let (mut k, mut d) = (to_val(key), to_val(data));
        let was = k.mv_data;
        unsafe {
            lmdb_result(ffi::mdb_cursor_get(self.0, &mut k, &mut d, op))?;
            let k = if ptr::eq(was, k.mv_data) { None } else { Some(to_slice(k)) };
            Ok((k, to_slice(d)))
        }
    }
    pub fn iter_from<K: AsRef<[u8]>>(self, key: K) -> Iter<'t> {
        match self.get(Some(key.as_ref()), None, ffi::MDB_SET_RANGE) {
            Ok(_) | Err(Error::NotFound) => Iter::Ok { cursor: self, op: ffi::MDB_GET_CURRENT, next_op: ffi::MDB_NEXT },
            Err(e) => Iter::Err(e),
        }
    }
}
impl<'t> RwCursor<'t> {
    pub fn new<T: Transaction>(txn: &'t T, db: Database) -> Result<Self> {
        RoCursor::open(txn.txn(), db).map(RwCursor)
    }
    pub fn ro(&self) -> &RoCursor<'t> {
        &self.0
    }
    pub fn put<K: AsRef<[u8]>, D: AsRef<[u8]>>(&mut self, key: &K, data: &D, flags: WriteFlags) -> Result<()> {
        let (mut k, mut d) = (to_val(Some(key.as_ref())), to_val(Some(data.as_ref())));
        lmdb_result(unsafe { ffi::mdb_cursor_put(self.0 .0, &mut k, &mut d, flags.bits()) })
    }
}
pub enum Iter<'t> {
    Err(Error),
    Ok { cursor: RoCursor<'t>, op: c_uint, next_op: c_uint },
}
impl<'t> Iterator for Iter<'t> {
    type Item = Result<(&'t [u8], &'t [u8])>;
    fn next(&mut self) -> Option<Self::Item> {
        match self {
            Iter::Err(e) => Some(Err(*e)),
            Iter::Ok { cursor, op, next_op } => {
                let (mut k, mut d) = (to_val(None), to_val(None));
                let op = std::mem::replace(op, *next_op);
                match unsafe { ffi::mdb_cursor_get(cursor.0, &mut k, &mut d, op) } {
                    ffi::MDB_SUCCESS => unsafe { Some(Ok((to_slice(k), to_slice(d)))) },
                    ffi::MDB_NOTFOUND | libc::EINVAL => None,
                    e => Some(Err(Error::from_err_code(e))),
                }
            }
        }
    }
}
