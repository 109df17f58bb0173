pub use ::std::thread::*;
use ::std::sync::{Arc, Mutex};
use sched::{leave, point, wait_for, write, NONE};

pub enum JoinHandle<T> {
    Real(::std::thread::JoinHandle<T>),
    Virtual(Arc<Mutex<Option<Result<T>>>>),
}
fn virt<T: Send + 'static, F: FnOnce() -> T + Send + 'static>(f: F) -> JoinHandle<T> {
    let (w, _) = sched::current().unwrap();
    let slot: Arc<Mutex<Option<Result<T>>>> = Default::default();
    let s = slot.clone();
    let at = Arc::as_ptr(&s) as u64;
    w.spawn(sched::proc_id().unwrap(), move || {
        let v = f();
        let _ = point(write(at), "thread ends");
        *s.lock().unwrap() = Some(Ok(v));
    });
    JoinHandle::Virtual(slot)
}
pub fn spawn<F, T>(f: F) -> JoinHandle<T>
where
    F: FnOnce() -> T + Send + 'static,
    T: Send + 'static,
{
    if sched::current().is_some() {
        virt(f)
    } else {
        JoinHandle::Real(::std::thread::spawn(f))
    }
}
impl<T: Send + 'static> JoinHandle<T> {
    pub fn join(self) -> Result<T> {
        match self {
            JoinHandle::Real(h) => h.join(),
            JoinHandle::Virtual(s) => {
                let s2 = s.clone();
                leave(wait_for(write(Arc::as_ptr(&s) as u64), "join", move || s2.lock().unwrap().is_some()));
                let v = s.lock().unwrap().take().unwrap();
                v
            }
        }
    }
    pub fn is_finished(&self) -> bool {
        match self {
            JoinHandle::Real(h) => h.is_finished(),
            JoinHandle::Virtual(s) => {
                leave(point(write(Arc::as_ptr(s) as u64), "is_finished"));
                s.lock().unwrap().is_some()
            }
        }
    }
}
#[derive(Debug, Default)]
pub struct Builder(Option<String>);
impl Builder {
    pub fn new() -> Self {
        Builder(None)
    }
    pub fn name(mut self, n: String) -> Self {
        self.0 = Some(n);
        self
    }
    pub fn stack_size(self, _: usize) -> Self {
        self
    }
    pub fn spawn<F, T>(self, f: F) -> ::std::io::Result<JoinHandle<T>>
    where
        F: FnOnce() -> T + Send + 'static,
        T: Send + 'static,
    {
        if sched::current().is_some() {
            Ok(virt(f))
        } else {
            ::std::thread::Builder::new().spawn(f).map(JoinHandle::Real)
        }
    }
}
pub fn yield_now() {
    leave(point(NONE, "yield"))
}
pub fn sleep(d: ::std::time::Duration) {
    if sched::current().is_some() {
        leave(point(NONE, "sleep"))
    } else {
        ::std::thread::sleep(d)
    }
}
