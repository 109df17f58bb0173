//! Stand-in for the fork of triomphe that the packet crate uses (a git dependency that is not available
//! here): a reference counted header and slice behind one pointer, same layout.
#![feature(ptr_metadata)]
use std::alloc::{alloc, dealloc, handle_alloc_error, Layout};
use std::marker::PhantomData;
use std::ops::Deref;
use std::ptr::NonNull;
use std::sync::atomic::{AtomicUsize, Ordering::*};

#[derive(Debug, PartialEq, Eq, Hash)]
#[repr(C)]
pub struct HeaderSlice<H, T: ?Sized> {
    pub header: H,
    pub slice: T,
}
#[repr(C)]
struct ArcInner<T: ?Sized> {
    count: AtomicUsize,
    data: T,
}
#[repr(transparent)]
pub struct Arc<T: ?Sized> {
    p: NonNull<ArcInner<T>>,
    phantom: PhantomData<T>,
}
unsafe impl<T: ?Sized + Sync + Send> Send for Arc<T> {}
unsafe impl<T: ?Sized + Sync + Send> Sync for Arc<T> {}
impl<H, T: Copy + Default> Arc<HeaderSlice<H, [T]>> {
    pub fn from_header_and_fn(header: H, len: usize, f: impl FnOnce(&mut [T])) -> Self {
        unsafe {
            let (l, at) = Layout::new::<AtomicUsize>().extend(Layout::new::<H>()).unwrap();
            let (l, sl) = l.extend(Layout::array::<T>(len).unwrap()).unwrap();
            let l = l.pad_to_align();
            let p = alloc(l);
            if p.is_null() {
                handle_alloc_error(l)
            }
            (p as *mut AtomicUsize).write(AtomicUsize::new(1));
            (p.add(at) as *mut H).write(header);
            let s = p.add(sl) as *mut T;
            for i in 0..len {
                s.add(i).write(T::default())
            }
            f(std::slice::from_raw_parts_mut(s, len));
            let fat: *mut ArcInner<HeaderSlice<H, [T]>> = std::ptr::from_raw_parts_mut(p as *mut (), len);
            Arc { p: NonNull::new_unchecked(fat), phantom: PhantomData }
        }
    }
}
impl<T: ?Sized> Arc<T> {
    pub fn count(a: &Self) -> usize {
        unsafe { a.p.as_ref() }.count.load(Acquire)
    }
    pub fn heap_ptr(&self) -> *const std::ffi::c_void {
        self.p.as_ptr() as *const _
    }
    pub fn ptr_eq(a: &Self, b: &Self) -> bool {
        a.heap_ptr() == b.heap_ptr()
    }
    /// the data, not the counter before it
    pub fn into_raw(a: Self) -> *const T {
        let r: *const T = unsafe { std::ptr::addr_of!((*a.p.as_ptr()).data) };
        std::mem::forget(a);
        r
    }
}
impl<T: ?Sized> Clone for Arc<T> {
    fn clone(&self) -> Self {
        unsafe { self.p.as_ref() }.count.fetch_add(1, Relaxed);
        Arc { p: self.p, phantom: PhantomData }
    }
}
impl<T: ?Sized> Deref for Arc<T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &self.p.as_ref().data }
    }
}
impl<T: ?Sized> Drop for Arc<T> {
    fn drop(&mut self) {
        unsafe {
            if self.p.as_ref().count.fetch_sub(1, AcqRel) == 1 {
                let l = Layout::for_value(self.p.as_ref());
                std::ptr::drop_in_place(std::ptr::addr_of_mut!((*self.p.as_ptr()).data));
                dealloc(self.p.as_ptr() as *mut u8, l)
            }
        }
    }
}
