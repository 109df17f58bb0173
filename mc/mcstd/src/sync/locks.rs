use ::std::cell::UnsafeCell;
use ::std::ops::{Deref, DerefMut};
use ::std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::SeqCst};
use ::std::sync::{Arc, LockResult, PoisonError, TryLockError, TryLockResult};
use ::std::time::{Duration, Instant};
use sched::{leave, point, wait_for, write};

fn acquire(at: u64, what: &'static str, mut free: impl FnMut() -> bool + Send + 'static) {
    if sched::current().is_some() {
        leave(wait_for(write(at), what, free))
    } else {
        while !free() {
            ::std::thread::yield_now()
        }
    }
}
/// The flags live behind an Arc, so that a waiting thread's condition may outlive a borrow of the lock
pub struct Mutex<T: ?Sized> {
    flags: ::std::sync::OnceLock<Arc<(AtomicI64, AtomicBool)>>,
    v: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
impl<T> Mutex<T> {
    pub const fn new(v: T) -> Self {
        Mutex { flags: ::std::sync::OnceLock::new(), v: UnsafeCell::new(v) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        Ok(self.v.into_inner())
    }
}
impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Mutex::new(T::default())
    }
}
impl<T: ?Sized> ::std::fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
        f.write_str("Mutex")
    }
}
pub struct MutexGuard<'a, T: ?Sized>(&'a Mutex<T>);
impl<T: ?Sized> Mutex<T> {
    fn flags(&self) -> &Arc<(AtomicI64, AtomicBool)> {
        self.flags.get_or_init(Default::default)
    }
    fn at(&self) -> u64 {
        Arc::as_ptr(self.flags()) as u64
    }
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        let f = self.flags().clone();
        acquire(self.at(), "lock", move || f.0.load(SeqCst) == 0);
        self.flags().0.store(1, SeqCst);
        if self.flags().1.load(SeqCst) {
            return Err(PoisonError::new(MutexGuard(self)));
        }
        Ok(MutexGuard(self))
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        leave(point(write(self.at()), "try_lock"));
        if self.flags().0.compare_exchange(0, 1, SeqCst, SeqCst).is_err() {
            return Err(TryLockError::WouldBlock);
        }
        Ok(MutexGuard(self))
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        Ok(self.v.get_mut())
    }
}
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        if ::std::thread::panicking() && !sched::gone() {
            self.0.flags().1.store(true, SeqCst)
        }
        let _ = point(write(self.0.at()), "unlock");
        self.0.flags().0.store(0, SeqCst);
    }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.0.v.get() }
    }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.0.v.get() }
    }
}
pub struct RwLock<T: ?Sized> {
    flags: ::std::sync::OnceLock<Arc<AtomicI64>>,
    v: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}
pub struct RwLockReadGuard<'a, T: ?Sized>(&'a RwLock<T>);
pub struct RwLockWriteGuard<'a, T: ?Sized>(&'a RwLock<T>);
impl<T> RwLock<T> {
    pub const fn new(v: T) -> Self {
        RwLock { flags: ::std::sync::OnceLock::new(), v: UnsafeCell::new(v) }
    }
}
impl<T: Default> Default for RwLock<T> {
    fn default() -> Self {
        RwLock::new(T::default())
    }
}
impl<T: ?Sized> RwLock<T> {
    fn flags(&self) -> &Arc<AtomicI64> {
        self.flags.get_or_init(Default::default)
    }
    fn at(&self) -> u64 {
        Arc::as_ptr(self.flags()) as u64
    }
    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        let f = self.flags().clone();
        acquire(self.at(), "read lock", move || f.load(SeqCst) >= 0);
        self.flags().fetch_add(1, SeqCst);
        Ok(RwLockReadGuard(self))
    }
    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        let f = self.flags().clone();
        acquire(self.at(), "write lock", move || f.load(SeqCst) == 0);
        self.flags().store(-1, SeqCst);
        Ok(RwLockWriteGuard(self))
    }
}
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
    fn drop(&mut self) {
        let _ = point(write(self.0.at()), "unlock");
        self.0.flags().fetch_sub(1, SeqCst);
    }
}
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
    fn drop(&mut self) {
        let _ = point(write(self.0.at()), "unlock");
        self.0.flags().store(0, SeqCst);
    }
}
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.0.v.get() }
    }
}
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.0.v.get() }
    }
}
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.0.v.get() }
    }
}
#[derive(Default)]
pub struct Condvar {
    st: ::std::sync::OnceLock<Arc<(AtomicU64, ::std::sync::Mutex<(u64, Vec<u64>)>)>>,
}
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult {
    pub fn timed_out(&self) -> bool {
        self.0
    }
}
impl Condvar {
    pub const fn new() -> Self {
        Condvar { st: ::std::sync::OnceLock::new() }
    }
    // waiting: list of tickets that are not woken yet
    fn st(&self) -> &Arc<(AtomicU64, ::std::sync::Mutex<(u64, Vec<u64>)>)> {
        self.st.get_or_init(Default::default)
    }
    fn at(&self) -> u64 {
        Arc::as_ptr(self.st()) as u64
    }
    fn wait_inner<'a, T>(&self, g: MutexGuard<'a, T>, timeout: bool) -> (MutexGuard<'a, T>, bool) {
        let m = g.0;
        let s = self.st().clone();
        let ticket = {
            let mut l = s.1.lock().unwrap();
            l.0 += 1;
            let t = l.0;
            l.1.push(t);
            t
        };
        // releasing the lock and starting to wait is one step
        m.flags().0.store(0, SeqCst);
        ::std::mem::forget(g);
        let s2 = s.clone();
        acquire(self.at(), "wait", move || timeout || !s2.1.lock().unwrap().1.contains(&ticket));
        let mut l = s.1.lock().unwrap();
        let late = l.1.contains(&ticket);
        l.1.retain(|t| *t != ticket);
        drop(l);
        (m.lock().unwrap_or_else(|e| e.into_inner()), late)
    }
    pub fn wait<'a, T>(&self, g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
        Ok(self.wait_inner(g, false).0)
    }
    pub fn wait_while<'a, T, F: FnMut(&mut T) -> bool>(&self, mut g: MutexGuard<'a, T>, mut f: F) -> LockResult<MutexGuard<'a, T>> {
        while f(&mut *g) {
            g = self.wait_inner(g, false).0
        }
        Ok(g)
    }
    pub fn wait_timeout<'a, T>(&self, g: MutexGuard<'a, T>, _: Duration) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
        let (g, l) = self.wait_inner(g, true);
        Ok((g, WaitTimeoutResult(l)))
    }
    pub fn wait_timeout_while<'a, T, F: FnMut(&mut T) -> bool>(&self, mut g: MutexGuard<'a, T>, d: Duration, mut f: F) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
        let _ = Instant::now() + d;
        loop {
            if !f(&mut *g) {
                return Ok((g, WaitTimeoutResult(false)));
            }
            let (h, l) = self.wait_inner(g, true);
            g = h;
            if l {
                return Ok((g, WaitTimeoutResult(true)));
            }
        }
    }
    pub fn notify_one(&self) {
        leave(point(write(self.at()), "notify"));
        let mut l = self.st().1.lock().unwrap();
        if !l.1.is_empty() {
            l.1.remove(0);
        }
    }
    pub fn notify_all(&self) {
        leave(point(write(self.at()), "notify"));
        self.st().1.lock().unwrap().1.clear();
    }
}
pub struct OnceLock<T> {
    // 0 empty, 1 being set, 2 set
    flags: ::std::sync::OnceLock<Arc<AtomicI64>>,
    v: ::std::sync::OnceLock<T>,
}
impl<T> Default for OnceLock<T> {
    fn default() -> Self {
        Self::new()
    }
}
impl<T> OnceLock<T> {
    pub const fn new() -> Self {
        OnceLock { flags: ::std::sync::OnceLock::new(), v: ::std::sync::OnceLock::new() }
    }
    fn flags(&self) -> &Arc<AtomicI64> {
        self.flags.get_or_init(Default::default)
    }
    fn at(&self) -> u64 {
        Arc::as_ptr(self.flags()) as u64
    }
    pub fn get(&self) -> Option<&T> {
        leave(point(sched::read(self.at()), "OnceLock get"));
        self.v.get()
    }
    pub fn set(&self, v: T) -> Result<(), T> {
        let mut v = Some(v);
        self.get_or_init(|| v.take().unwrap());
        match v {
            None => Ok(()),
            Some(v) => Err(v),
        }
    }
    pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
        let s = self.flags().clone();
        acquire(self.at(), "OnceLock", move || s.load(SeqCst) != 1);
        if self.flags().load(SeqCst) == 2 {
            return self.v.get().unwrap();
        }
        self.flags().store(1, SeqCst);
        struct Undo<'a>(&'a AtomicI64);
        impl Drop for Undo<'_> {
            fn drop(&mut self) {
                self.0.store(0, SeqCst)
            }
        }
        let u = Undo(self.flags());
        let v = f();
        ::std::mem::forget(u);
        let _ = self.v.set(v);
        let _ = point(write(self.at()), "OnceLock set");
        self.flags().store(2, SeqCst);
        self.v.get().unwrap()
    }
}
