//! A model of LMDB 0.9 with its C interface, as far as the repository uses it.
//!
//! Documented behaviour that is modelled: multiversion snapshots for readers, one writer at a time, atomic
//! and durable commits, sorted keys (memcmp, or native integers), sorted duplicates of a fixed size,
//! cursors with their positioning rules, `MDB_RESERVE`d space that is valid until the next update of the
//! transaction and holds garbage until written, limits on the size of keys, and error codes.
//!
//! Added for exploration: every update, commit and open of a transaction is a numbered step (`sim`), at
//! which the harness can make the call fail or the process die, or run something else (another process).
#![allow(non_camel_case_types, non_snake_case, clippy::missing_safety_doc)]
use std::cell::UnsafeCell;
use std::collections::{BTreeMap, HashMap};
use std::os::raw::{c_char, c_int, c_uint, c_void};
use std::path::{Path, PathBuf};
use std::sync::{Arc, Condvar, Mutex};

pub const MDB_FIRST: c_uint = 0;
pub const MDB_FIRST_DUP: c_uint = 1;
pub const MDB_GET_BOTH: c_uint = 2;
pub const MDB_GET_BOTH_RANGE: c_uint = 3;
pub const MDB_GET_CURRENT: c_uint = 4;
pub const MDB_GET_MULTIPLE: c_uint = 5;
pub const MDB_LAST: c_uint = 6;
pub const MDB_LAST_DUP: c_uint = 7;
pub const MDB_NEXT: c_uint = 8;
pub const MDB_NEXT_DUP: c_uint = 9;
pub const MDB_NEXT_MULTIPLE: c_uint = 10;
pub const MDB_NEXT_NODUP: c_uint = 11;
pub const MDB_PREV: c_uint = 12;
pub const MDB_PREV_DUP: c_uint = 13;
pub const MDB_PREV_NODUP: c_uint = 14;
pub const MDB_SET: c_uint = 15;
pub const MDB_SET_KEY: c_uint = 16;
pub const MDB_SET_RANGE: c_uint = 17;

pub const MDB_REVERSEKEY: c_uint = 0x02;
pub const MDB_DUPSORT: c_uint = 0x04;
pub const MDB_INTEGERKEY: c_uint = 0x08;
pub const MDB_DUPFIXED: c_uint = 0x10;
pub const MDB_INTEGERDUP: c_uint = 0x20;
pub const MDB_REVERSEDUP: c_uint = 0x40;
pub const MDB_CREATE: c_uint = 0x40000;

pub const MDB_NOOVERWRITE: c_uint = 0x10;
pub const MDB_NODUPDATA: c_uint = 0x20;
pub const MDB_CURRENT: c_uint = 0x40;
pub const MDB_RESERVE: c_uint = 0x10000;
pub const MDB_APPEND: c_uint = 0x20000;
pub const MDB_APPENDDUP: c_uint = 0x40000;

pub const MDB_NOSYNC: c_uint = 0x10000;
pub const MDB_RDONLY: c_uint = 0x20000;
pub const MDB_NOMETASYNC: c_uint = 0x40000;
pub const MDB_WRITEMAP: c_uint = 0x80000;
pub const MDB_MAPASYNC: c_uint = 0x100000;
pub const MDB_NOTLS: c_uint = 0x200000;

pub const MDB_SUCCESS: c_int = 0;
pub const MDB_KEYEXIST: c_int = -30799;
pub const MDB_NOTFOUND: c_int = -30798;
pub const MDB_MAP_FULL: c_int = -30792;
pub const MDB_DBS_FULL: c_int = -30791;
pub const MDB_INCOMPATIBLE: c_int = -30784;
pub const MDB_BAD_TXN: c_int = -30782;
pub const MDB_BAD_VALSIZE: c_int = -30781;

#[repr(C)]
#[derive(Debug, Clone, Copy)]
pub struct MDB_val {
    pub mv_size: usize,
    pub mv_data: *mut c_void,
}
#[repr(C)]
#[derive(Debug, Clone, Copy, Default)]
pub struct MDB_stat {
    pub ms_psize: c_uint,
    pub ms_depth: c_uint,
    pub ms_branch_pages: usize,
    pub ms_leaf_pages: usize,
    pub ms_overflow_pages: usize,
    pub ms_entries: usize,
}
#[repr(C)]
#[derive(Debug, Clone, Copy)]
pub struct MDB_envinfo {
    pub me_mapaddr: *mut c_void,
    pub me_mapsize: usize,
    pub me_last_pgno: usize,
    pub me_last_txnid: usize,
    pub me_maxreaders: c_uint,
    pub me_numreaders: c_uint,
}
pub type MDB_dbi = c_uint;
pub type mdb_filehandle_t = c_int;

/// 8-aligned bytes; written in place only while it is a reservation
pub struct Buf {
    words: UnsafeCell<Box<[u64]>>,
    len: usize,
}
unsafe impl Send for Buf {}
unsafe impl Sync for Buf {}
impl Buf {
    fn garbage(len: usize) -> Buf {
        Buf { words: UnsafeCell::new(vec![0xA5A5_A5A5_A5A5_A5A5; len / 8 + 1].into()), len }
    }
    fn copy(b: &[u8]) -> Buf {
        let s = Buf::garbage(b.len());
        unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), s.ptr(), b.len()) };
        s
    }
    fn ptr(&self) -> *mut u8 {
        unsafe { (*self.words.get()).as_mut_ptr().cast() }
    }
    pub fn bytes(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.ptr(), self.len) }
    }
}
type B = Arc<Buf>;

#[derive(Clone, Default)]
pub struct Table {
    flags: c_uint,
    rows: Arc<Vec<(B, Vec<B>)>>,
}
#[derive(Clone, Default)]
pub struct Image {
    txnid: usize,
    names: BTreeMap<String, MDB_dbi>,
    tables: Vec<Table>,
}
#[derive(Default)]
struct Disk {
    head: Mutex<Arc<Image>>,
    writing: Mutex<bool>,
    free: Condvar,
}
static DISKS: Mutex<Option<HashMap<PathBuf, Arc<Disk>>>> = Mutex::new(None);

/// control by the harness
pub mod sim {
    use super::*;
    use std::cell::{Cell, RefCell};
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum Step {
        Begin,
        Update,
        Commit,
        Committed,
        Snapshot,
    }
    /// what happens at a step
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum Act {
        Go,
        Fail(c_int),
        /// unwinds with [`Died`]
        Die,
    }
    pub struct Died;
    thread_local! {
        static HOOK: RefCell<Option<Box<dyn FnMut(Step) -> Act>>> = const { RefCell::new(None) };
        static DEAD: Cell<bool> = const { Cell::new(false) };
    }
    /// installs what happens at the steps of this thread; returns the previous hook
    pub fn hook(h: Option<Box<dyn FnMut(Step) -> Act>>) {
        DEAD.with(|d| d.set(false));
        HOOK.with(|c| *c.borrow_mut() = h);
    }
    pub(super) fn step(s: Step) -> c_int {
        if DEAD.with(|d| d.get()) {
            return MDB_BAD_TXN;
        }
        // the hook may use the database itself: its own steps are not announced
        let h = HOOK.with(|c| c.borrow_mut().take());
        let Some(mut h) = h else { return 0 };
        let a = h(s);
        HOOK.with(|c| *c.borrow_mut() = Some(h));
        match a {
            Act::Go => 0,
            Act::Fail(c) => c,
            Act::Die => {
                DEAD.with(|d| d.set(true));
                std::panic::resume_unwind(Box::new(Died))
            }
        }
    }
    /// forget the environment at `path`
    pub fn remove(path: &Path) {
        if let Some(m) = DISKS.lock().unwrap().as_mut() {
            m.remove(path);
        }
    }
    /// the committed rows of a table
    pub fn rows(path: &Path, table: &str) -> Vec<(Vec<u8>, Vec<u8>)> {
        let d = DISKS.lock().unwrap().as_ref().and_then(|m| m.get(path).cloned());
        let Some(d) = d else { return vec![] };
        let img = d.head.lock().unwrap().clone();
        let Some(i) = img.names.get(table) else { return vec![] };
        img.tables[*i as usize]
            .rows
            .iter()
            .flat_map(|(k, vs)| vs.iter().map(|v| (k.bytes().to_vec(), v.bytes().to_vec())))
            .collect()
    }
    /// whether a write transaction is open
    pub fn writing(path: &Path) -> bool {
        let d = DISKS.lock().unwrap().as_ref().and_then(|m| m.get(path).cloned());
        d.map(|d| *d.writing.lock().unwrap()).unwrap_or(false)
    }
    /// number of committed write transactions
    pub fn txnid(path: &Path) -> usize {
        let d = DISKS.lock().unwrap().as_ref().and_then(|m| m.get(path).cloned());
        d.map(|d| d.head.lock().unwrap().txnid).unwrap_or(0)
    }
}
use sim::Step;

pub struct MDB_env {
    disk: Arc<Disk>,
    maxdbs: usize,
    fd: c_int,
}
pub struct MDB_txn {
    env: *const MDB_env,
    img: Option<Image>,
    write: bool,
    failed: bool,
    /// table, row and value of reservations not yet settled
    reserved: Vec<(MDB_dbi, B)>,
    keep: Vec<Image>,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Pos {
    None,
    At(usize, usize),
    End,
}
pub struct MDB_cursor {
    txn: *mut MDB_txn,
    dbi: MDB_dbi,
    pos: Pos,
}

pub unsafe fn open(path: &Path, maxdbs: usize) -> Result<*mut MDB_env, c_int> {
    if !path.is_dir() {
        return Err(libc::ENOENT);
    }
    let file = std::fs::OpenOptions::new()
        .create(true)
        .read(true)
        .write(true)
        .open(path.join("data.mdb"))
        .map_err(|e| e.raw_os_error().unwrap_or(libc::EIO))?;
    let key = path.canonicalize().map_err(|_| libc::ENOENT)?;
    let disk = DISKS.lock().unwrap().get_or_insert_with(HashMap::new).entry(key).or_default().clone();
    use std::os::fd::IntoRawFd;
    Ok(Box::into_raw(Box::new(MDB_env { disk, maxdbs, fd: file.into_raw_fd() })))
}
pub unsafe fn mdb_env_close(env: *mut MDB_env) {
    let e = Box::from_raw(env);
    libc::close(e.fd);
}
pub unsafe fn mdb_env_get_fd(env: *mut MDB_env, fd: *mut mdb_filehandle_t) -> c_int {
    *fd = (*env).fd;
    0
}
pub unsafe fn mdb_env_info(env: *mut MDB_env, info: *mut MDB_envinfo) -> c_int {
    *info = MDB_envinfo {
        me_mapaddr: std::ptr::null_mut(),
        me_mapsize: 1 << 30,
        me_last_pgno: 1,
        me_last_txnid: (*env).disk.head.lock().unwrap().txnid,
        me_maxreaders: 126,
        me_numreaders: 0,
    };
    0
}
pub unsafe fn mdb_version(a: *mut c_int, b: *mut c_int, c: *mut c_int) -> *const c_char {
    (*a, *b, *c) = (0, 9, 24);
    b"model\0".as_ptr().cast()
}
pub unsafe fn mdb_txn_begin(env: *mut MDB_env, write: bool) -> Result<*mut MDB_txn, c_int> {
    let e = &*env;
    let r = sim::step(if write { Step::Begin } else { Step::Snapshot });
    if r != 0 {
        return Err(r);
    }
    if write {
        let mut w = e.disk.writing.lock().unwrap();
        while *w {
            w = e.disk.free.wait(w).unwrap();
        }
        *w = true;
    }
    let img = (**e.disk.head.lock().unwrap()).clone();
    Ok(Box::into_raw(Box::new(MDB_txn { env, img: Some(img), write, failed: false, reserved: vec![], keep: vec![] })))
}
unsafe fn release(t: &MDB_txn) {
    if t.write {
        let d = &(*t.env).disk;
        *d.writing.lock().unwrap() = false;
        d.free.notify_one();
    }
}
pub unsafe fn mdb_txn_abort(txn: *mut MDB_txn) {
    let t = Box::from_raw(txn);
    release(&t);
}
/// frees the transaction in every case
pub unsafe fn mdb_txn_commit(txn: *mut MDB_txn) -> c_int {
    if !(*txn).write {
        mdb_txn_abort(txn);
        return 0;
    }
    struct Abort(*mut MDB_txn);
    impl Drop for Abort {
        fn drop(&mut self) {
            unsafe { mdb_txn_abort(self.0) }
        }
    }
    let guard = Abort(txn);
    let t = &mut *txn;
    if t.failed {
        return MDB_BAD_TXN;
    }
    let r = sim::step(Step::Commit);
    if r != 0 {
        return r;
    }
    t.settle();
    let mut img = t.img.take().unwrap();
    img.txnid += 1;
    *(*t.env).disk.head.lock().unwrap() = Arc::new(img);
    drop(guard);
    // the commit is durable; the process may die before it hears of it
    let _ = sim::step(Step::Committed);
    0
}
pub unsafe fn mdb_txn_reset(txn: *mut MDB_txn) {
    assert!(!(*txn).write);
    // slices handed out stay readable: what they may still be used for is up to the program
    let old = (*txn).img.take();
    (*txn).keep.extend(old);
}
pub unsafe fn mdb_txn_renew(txn: *mut MDB_txn) -> c_int {
    if (*txn).img.is_some() || (*txn).write {
        return libc::EINVAL;
    }
    let r = sim::step(Step::Snapshot);
    if r != 0 {
        return r;
    }
    (*txn).img = Some((**(*(*txn).env).disk.head.lock().unwrap()).clone());
    0
}
pub unsafe fn mdb_dbi_open(txn: *mut MDB_txn, name: &str, flags: c_uint) -> Result<MDB_dbi, c_int> {
    let t = &mut *txn;
    let img = t.img.as_mut().unwrap();
    if let Some(i) = img.names.get(name) {
        return if img.tables[*i as usize].flags == flags & 0xffff { Ok(*i) } else { Err(MDB_INCOMPATIBLE) };
    }
    if flags & MDB_CREATE == 0 || !t.write {
        return Err(MDB_NOTFOUND);
    }
    if img.tables.len() >= (*t.env).maxdbs {
        return Err(MDB_DBS_FULL);
    }
    let i = img.tables.len() as MDB_dbi;
    img.tables.push(Table { flags: flags & 0xffff, rows: Default::default() });
    img.names.insert(name.into(), i);
    Ok(i)
}
pub unsafe fn mdb_stat(txn: *mut MDB_txn, dbi: MDB_dbi, stat: *mut MDB_stat) -> c_int {
    let t = &(*txn).img.as_ref().unwrap().tables[dbi as usize];
    *stat = MDB_stat { ms_psize: 4096, ms_depth: 1, ms_entries: t.rows.iter().map(|r| r.1.len()).sum(), ..Default::default() };
    0
}
pub unsafe fn mdb_cursor_open(txn: *mut MDB_txn, dbi: MDB_dbi) -> Result<*mut MDB_cursor, c_int> {
    Ok(Box::into_raw(Box::new(MDB_cursor { txn, dbi, pos: Pos::None })))
}
pub unsafe fn mdb_cursor_close(c: *mut MDB_cursor) {
    drop(Box::from_raw(c));
}
fn order(flags: c_uint, a: &[u8], b: &[u8]) -> std::cmp::Ordering {
    if flags & MDB_INTEGERKEY != 0 {
        u64::from_ne_bytes(a.try_into().unwrap()).cmp(&u64::from_ne_bytes(b.try_into().unwrap()))
    } else {
        a.cmp(b)
    }
}
unsafe fn val<'a>(v: &MDB_val) -> &'a [u8] {
    if v.mv_size == 0 {
        &[]
    } else {
        std::slice::from_raw_parts(v.mv_data as *const u8, v.mv_size)
    }
}
fn out(b: &Buf) -> MDB_val {
    MDB_val { mv_size: b.len, mv_data: b.ptr().cast() }
}
impl MDB_txn {
    /// what was written to reserved space so far is what stays: the space is given up
    fn settle(&mut self) {
        for (dbi, b) in std::mem::take(&mut self.reserved) {
            let t = &mut self.img.as_mut().unwrap().tables[dbi as usize];
            for (_, vs) in Arc::make_mut(&mut t.rows).iter_mut() {
                for v in vs.iter_mut() {
                    if Arc::ptr_eq(v, &b) {
                        *v = Arc::new(Buf::copy(b.bytes()));
                    }
                }
            }
            // stays allocated: a late write is lost, it does not corrupt memory of ours
            std::mem::forget(b);
        }
    }
}
fn search(t: &Table, key: &[u8]) -> Result<usize, usize> {
    t.rows.binary_search_by(|r| order(t.flags, r.0.bytes(), key))
}
fn bad_key(t: &Table, key: &[u8]) -> bool {
    key.is_empty() || key.len() > 511 || (t.flags & MDB_INTEGERKEY != 0 && key.len() != 8)
}
pub unsafe fn mdb_cursor_get(c: *mut MDB_cursor, key: *mut MDB_val, data: *mut MDB_val, op: c_uint) -> c_int {
    let c = &mut *c;
    let Some(img) = (*c.txn).img.as_ref() else { return MDB_BAD_TXN };
    let t = &img.tables[c.dbi as usize];
    let rows = &t.rows;
    let dup = t.flags & MDB_DUPSORT != 0;
    let put = |c: &mut MDB_cursor, r: usize, d: usize, set_key: bool| {
        c.pos = Pos::At(r, d);
        if set_key {
            *key = out(&rows[r].0);
        }
        *data = out(&rows[r].1[d]);
        0
    };
    let n = rows.len();
    match op {
        MDB_FIRST if n == 0 => {
            c.pos = Pos::End;
            MDB_NOTFOUND
        }
        MDB_FIRST => put(c, 0, 0, true),
        MDB_LAST if n == 0 => {
            c.pos = Pos::End;
            MDB_NOTFOUND
        }
        MDB_LAST => put(c, n - 1, rows[n - 1].1.len() - 1, true),
        MDB_SET | MDB_SET_KEY => {
            let k = val(&*key);
            if bad_key(t, k) {
                return MDB_BAD_VALSIZE;
            }
            match search(t, k) {
                Ok(r) => put(c, r, 0, op == MDB_SET_KEY),
                Err(_) => {
                    c.pos = Pos::None;
                    MDB_NOTFOUND
                }
            }
        }
        MDB_SET_RANGE => {
            let k = val(&*key);
            if k.is_empty() || (t.flags & MDB_INTEGERKEY != 0 && k.len() != 8) {
                return MDB_BAD_VALSIZE;
            }
            let (Ok(r) | Err(r)) = search(t, k);
            if r == n {
                c.pos = Pos::End;
                return MDB_NOTFOUND;
            }
            put(c, r, 0, true)
        }
        MDB_GET_CURRENT => match c.pos {
            Pos::None => libc::EINVAL,
            Pos::End => MDB_NOTFOUND,
            Pos::At(r, d) => put(c, r, d, true),
        },
        MDB_FIRST_DUP | MDB_LAST_DUP if !dup => MDB_INCOMPATIBLE,
        MDB_FIRST_DUP | MDB_LAST_DUP => match c.pos {
            Pos::At(r, _) => {
                let single = rows[r].1.len() == 1;
                put(c, r, if op == MDB_LAST_DUP { rows[r].1.len() - 1 } else { 0 }, single)
            }
            _ => libc::EINVAL,
        },
        MDB_NEXT | MDB_NEXT_DUP | MDB_NEXT_NODUP => match c.pos {
            Pos::None if n == 0 => MDB_NOTFOUND,
            Pos::None => put(c, 0, 0, true),
            Pos::End => MDB_NOTFOUND,
            Pos::At(r, d) => {
                if op != MDB_NEXT_NODUP && d + 1 < rows[r].1.len() {
                    return put(c, r, d + 1, true);
                }
                if op == MDB_NEXT_DUP {
                    return MDB_NOTFOUND;
                }
                if r + 1 < n {
                    put(c, r + 1, 0, true)
                } else {
                    // the cursor stays; asking again finds nothing again
                    c.pos = Pos::End;
                    MDB_NOTFOUND
                }
            }
        },
        MDB_PREV | MDB_PREV_DUP | MDB_PREV_NODUP => {
            let (r, d) = match c.pos {
                Pos::None | Pos::End if n == 0 => return MDB_NOTFOUND,
                Pos::None | Pos::End => return put(c, n - 1, rows[n - 1].1.len() - 1, true),
                Pos::At(r, d) => (r, d),
            };
            if op != MDB_PREV_NODUP && d > 0 {
                return put(c, r, d - 1, true);
            }
            if op == MDB_PREV_DUP || r == 0 {
                return MDB_NOTFOUND;
            }
            put(c, r - 1, rows[r - 1].1.len() - 1, true)
        }
        op => unimplemented!("cursor op {op}"),
    }
}
pub unsafe fn mdb_cursor_put(c: *mut MDB_cursor, key: *mut MDB_val, data: *mut MDB_val, flags: c_uint) -> c_int {
    let c = &mut *c;
    let txn = &mut *c.txn;
    if !txn.write {
        return libc::EACCES;
    }
    if txn.failed {
        return MDB_BAD_TXN;
    }
    let r = sim::step(Step::Update);
    if r != 0 {
        txn.failed = true;
        return r;
    }
    txn.settle();
    let dbi = c.dbi;
    let t = &mut txn.img.as_mut().unwrap().tables[dbi as usize];
    let k = val(&*key);
    let dup = t.flags & MDB_DUPSORT != 0;
    if bad_key(t, k) {
        return MDB_BAD_VALSIZE;
    }
    let size = (*data).mv_size;
    if dup && (size == 0 || size > 511 || flags & MDB_RESERVE != 0) {
        return MDB_BAD_VALSIZE;
    }
    let found = search(t, k);
    if flags & MDB_APPEND != 0 && found != Err(t.rows.len()) {
        return MDB_KEYEXIST;
    }
    let new = |data: *mut MDB_val| {
        if flags & MDB_RESERVE != 0 {
            let b = Arc::new(Buf::garbage(size));
            (*data).mv_data = b.ptr().cast();
            b
        } else {
            Arc::new(Buf::copy(val(&*data)))
        }
    };
    let b;
    match found {
        Ok(i) => {
            if flags & MDB_NOOVERWRITE != 0 {
                *data = out(&t.rows[i].1[0]);
                return MDB_KEYEXIST;
            }
            if !dup {
                b = new(data);
                Arc::make_mut(&mut t.rows)[i].1[0] = b.clone();
            } else {
                let v = val(&*data);
                if t.flags & MDB_DUPFIXED != 0 && t.rows[i].1[0].len != v.len() {
                    return MDB_BAD_VALSIZE;
                }
                match t.rows[i].1.binary_search_by(|r| r.bytes().cmp(v)) {
                    Ok(_) => return if flags & MDB_NODUPDATA != 0 { MDB_KEYEXIST } else { 0 },
                    Err(at) => {
                        b = new(data);
                        Arc::make_mut(&mut t.rows)[i].1.insert(at, b.clone());
                    }
                }
            }
            c.pos = Pos::At(i, 0);
        }
        Err(i) => {
            b = new(data);
            let kb = Arc::new(Buf::copy(k));
            Arc::make_mut(&mut t.rows).insert(i, (kb, vec![b.clone()]));
            c.pos = Pos::At(i, 0);
        }
    }
    if flags & MDB_RESERVE != 0 {
        txn.reserved.push((dbi, b));
    }
    0
}
