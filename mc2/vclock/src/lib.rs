//! The clock of the thread under test: `clock_gettime` of the C library is replaced in the check's binary.
//! Threads that did not freeze their clock get the real one.
use std::cell::Cell;
thread_local! { static US: Cell<Option<u64>> = const { Cell::new(None) }; }
/// all clocks of this thread stand at `us` microseconds since the epoch
pub fn set(us: u64) {
    US.with(|c| c.set(Some(us)))
}
pub fn real() {
    US.with(|c| c.set(None))
}
pub fn get() -> Option<u64> {
    US.with(|c| c.get())
}
pub struct Frozen(());
pub fn freeze(us: u64) -> Frozen {
    set(us);
    Frozen(())
}
impl Drop for Frozen {
    fn drop(&mut self) {
        real()
    }
}
/// # Safety
/// as the C function
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    match US.try_with(|c| c.get()).ok().flatten() {
        Some(us) => {
            (*ts).tv_sec = (us / 1_000_000) as _;
            (*ts).tv_nsec = (us % 1_000_000 * 1000) as _;
            0
        }
        None => libc::syscall(libc::SYS_clock_gettime, id, ts) as libc::c_int,
    }
}
