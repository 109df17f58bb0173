//! The standard library with its shared memory operations announced to the scheduler. Crates under test
//! get it under the name `std`. Outside an execution everything behaves as usual.
pub use ::std::*;
pub mod sync {
    pub use ::std::sync::*;
    pub mod atomic;
    mod locks;
    pub use locks::{Condvar, Mutex, MutexGuard, OnceLock, RwLock, RwLockReadGuard, RwLockWriteGuard, WaitTimeoutResult};
}
pub mod thread;
