pub use ::std::sync::atomic::*;
use sched::{leave, point, read, write};
use Ordering::SeqCst;
fn at<T>(t: &T) -> u64 {
    t as *const T as u64
}
// the scheduler runs one thread at a time: every order is explored as sequentially consistent
macro_rules! common {
    ($n:ident, $t:ty $(, $g:ident)?) => {
        impl$(<$g>)? $n$(<$g>)? {
            pub const fn new(v: $t) -> Self { Self(::std::sync::atomic::$n::new(v)) }
            pub fn load(&self, _: Ordering) -> $t { leave(point(read(at(self)), concat!(stringify!($n), " load"))); self.0.load(SeqCst) }
            pub fn store(&self, v: $t, _: Ordering) { leave(point(write(at(self)), concat!(stringify!($n), " store"))); self.0.store(v, SeqCst) }
            pub fn swap(&self, v: $t, _: Ordering) -> $t { leave(point(write(at(self)), concat!(stringify!($n), " swap"))); self.0.swap(v, SeqCst) }
            pub fn compare_exchange(&self, a: $t, b: $t, _: Ordering, _: Ordering) -> Result<$t, $t> { leave(point(write(at(self)), concat!(stringify!($n), " compare_exchange"))); self.0.compare_exchange(a, b, SeqCst, SeqCst) }
            pub fn compare_exchange_weak(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> { self.compare_exchange(a, b, s, f) }
            pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, s: Ordering, l: Ordering, mut f: F) -> Result<$t, $t> {
                let mut prev = self.load(l);
                while let Some(next) = f(prev) {
                    match self.compare_exchange_weak(prev, next, s, l) { Ok(v) => return Ok(v), Err(v) => prev = v }
                }
                Err(prev)
            }
            pub fn get_mut(&mut self) -> &mut $t { self.0.get_mut() }
            pub fn into_inner(self) -> $t { self.0.into_inner() }
        }
        impl$(<$g>)? ::std::fmt::Debug for $n$(<$g>)? { fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { self.0.fmt(f) } }
    };
}
macro_rules! ints {
    ($($n:ident $t:ty;)*) => { $(
        #[derive(Default)]
        #[repr(transparent)]
        pub struct $n(::std::sync::atomic::$n);
        common!($n, $t);
        impl From<$t> for $n { fn from(v: $t) -> Self { Self::new(v) } }
        ints!(@ $n $t: fetch_add fetch_sub fetch_max fetch_min fetch_and fetch_or fetch_xor);
    )* };
    (@ $n:ident $t:ty: $($f:ident)*) => { impl $n { $( pub fn $f(&self, v: $t, _: Ordering) -> $t { leave(point(write(at(self)), concat!(stringify!($n), " ", stringify!($f)))); self.0.$f(v, SeqCst) } )* } };
}
ints! { AtomicU8 u8; AtomicU16 u16; AtomicU32 u32; AtomicU64 u64; AtomicUsize usize; AtomicI8 i8; AtomicI16 i16; AtomicI32 i32; AtomicI64 i64; AtomicIsize isize; }
#[derive(Default)]
#[repr(transparent)]
pub struct AtomicBool(::std::sync::atomic::AtomicBool);
common!(AtomicBool, bool);
impl AtomicBool {
    pub fn fetch_or(&self, v: bool, _: Ordering) -> bool {
        leave(point(write(at(self)), "AtomicBool fetch_or"));
        self.0.fetch_or(v, SeqCst)
    }
    pub fn fetch_and(&self, v: bool, _: Ordering) -> bool {
        leave(point(write(at(self)), "AtomicBool fetch_and"));
        self.0.fetch_and(v, SeqCst)
    }
    pub fn fetch_xor(&self, v: bool, _: Ordering) -> bool {
        leave(point(write(at(self)), "AtomicBool fetch_xor"));
        self.0.fetch_xor(v, SeqCst)
    }
}
impl From<bool> for AtomicBool {
    fn from(v: bool) -> Self {
        Self::new(v)
    }
}
#[repr(transparent)]
pub struct AtomicPtr<T>(::std::sync::atomic::AtomicPtr<T>);
common!(AtomicPtr, *mut T, T);
