//! The parts of `futures` that linkspace uses, with a pool of tasks that tells the harness when nothing can go on.
pub use std::future::Future;
pub use stream::StreamExt;

pub mod future {
    use std::future::Future;
    use std::pin::Pin;
    pub type BoxFuture<'a, T> = Pin<Box<dyn Future<Output = T> + Send + 'a>>;
    pub type LocalBoxFuture<'a, T> = Pin<Box<dyn Future<Output = T> + 'a>>;
    pub struct LocalFutureObj<'a, T>(pub(crate) LocalBoxFuture<'a, T>);
    impl<'a, T, F: Future<Output = T> + 'a> From<Pin<Box<F>>> for LocalFutureObj<'a, T> {
        fn from(f: Pin<Box<F>>) -> Self {
            LocalFutureObj(f)
        }
    }
    impl<'a, T, F: Future<Output = T> + 'a> From<Box<F>> for LocalFutureObj<'a, T> {
        fn from(f: Box<F>) -> Self {
            LocalFutureObj(Box::into_pin(f))
        }
    }
}
pub mod task {
    pub use super::future::LocalFutureObj;
    use std::future::Future;
    pub struct SpawnError(());
    impl std::fmt::Debug for SpawnError {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            f.write_str("SpawnError(shutdown)")
        }
    }
    impl std::fmt::Display for SpawnError {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            f.write_str("Executor is shutdown")
        }
    }
    impl std::error::Error for SpawnError {}
    impl SpawnError {
        pub fn shutdown() -> Self {
            SpawnError(())
        }
    }
    pub trait LocalSpawn {
        fn spawn_local_obj(&self, future: LocalFutureObj<'static, ()>) -> Result<(), SpawnError>;
        fn status_local(&self) -> Result<(), SpawnError> {
            Ok(())
        }
    }
    impl<S: LocalSpawn + ?Sized> LocalSpawn for std::rc::Rc<S> {
        fn spawn_local_obj(&self, future: LocalFutureObj<'static, ()>) -> Result<(), SpawnError> {
            (**self).spawn_local_obj(future)
        }
    }
    pub trait LocalSpawnExt: LocalSpawn {
        fn spawn_local<F: Future<Output = ()> + 'static>(&self, f: F) -> Result<(), SpawnError> {
            self.spawn_local_obj(Box::pin(f).into())
        }
    }
    impl<S: LocalSpawn + ?Sized> LocalSpawnExt for S {}
}
pub mod stream {
    use std::future::Future;
    use std::pin::Pin;
    use std::task::{Context, Poll};
    pub trait Stream {
        type Item;
        fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>>;
    }
    pub struct Next<'a, S: ?Sized>(&'a mut S);
    impl<S: Stream + Unpin + ?Sized> Future for Next<'_, S> {
        type Output = Option<S::Item>;
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
            Pin::new(&mut *self.0).poll_next(cx)
        }
    }
    pub trait StreamExt: Stream {
        fn next(&mut self) -> Next<'_, Self>
        where
            Self: Unpin,
        {
            Next(self)
        }
    }
    impl<S: Stream + ?Sized> StreamExt for S {}
}
pub mod channel {
    pub mod mpsc {
        use crate::stream::Stream;
        use std::collections::VecDeque;
        use std::pin::Pin;
        use std::sync::{Arc, Mutex};
        use std::task::{Context, Poll, Waker};
        struct Q<T> {
            q: VecDeque<T>,
            senders: usize,
            gone: bool,
            waker: Option<Waker>,
        }
        pub struct UnboundedSender<T>(Arc<Mutex<Q<T>>>);
        pub struct UnboundedReceiver<T>(Arc<Mutex<Q<T>>>);
        pub struct TrySendError<T>(pub T);
        impl<T> std::fmt::Debug for TrySendError<T> {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                write!(f, "TrySendError")
            }
        }
        impl<T> std::fmt::Display for TrySendError<T> {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                write!(f, "send failed because receiver is gone")
            }
        }
        impl<T> std::error::Error for TrySendError<T> {}
        pub fn unbounded<T>() -> (UnboundedSender<T>, UnboundedReceiver<T>) {
            let q = Arc::new(Mutex::new(Q { q: VecDeque::new(), senders: 1, gone: false, waker: None }));
            (UnboundedSender(q.clone()), UnboundedReceiver(q))
        }
        impl<T> UnboundedSender<T> {
            pub fn unbounded_send(&self, t: T) -> Result<(), TrySendError<T>> {
                let mut q = self.0.lock().unwrap();
                if q.gone {
                    return Err(TrySendError(t));
                }
                q.q.push_back(t);
                if let Some(w) = q.waker.take() {
                    w.wake()
                }
                Ok(())
            }
        }
        impl<T> Clone for UnboundedSender<T> {
            fn clone(&self) -> Self {
                self.0.lock().unwrap().senders += 1;
                UnboundedSender(self.0.clone())
            }
        }
        impl<T> Drop for UnboundedSender<T> {
            fn drop(&mut self) {
                let mut q = self.0.lock().unwrap();
                q.senders -= 1;
                if q.senders == 0 {
                    if let Some(w) = q.waker.take() {
                        w.wake()
                    }
                }
            }
        }
        impl<T> Drop for UnboundedReceiver<T> {
            fn drop(&mut self) {
                let mut q = self.0.lock().unwrap();
                q.gone = true;
                let left = std::mem::take(&mut q.q);
                drop(q);
                drop(left)
            }
        }
        impl<T> Stream for UnboundedReceiver<T> {
            type Item = T;
            fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<T>> {
                let mut q = self.0.lock().unwrap();
                match q.q.pop_front() {
                    Some(t) => Poll::Ready(Some(t)),
                    None if q.senders == 0 => Poll::Ready(None),
                    None => {
                        q.waker = Some(cx.waker().clone());
                        Poll::Pending
                    }
                }
            }
        }
    }
}
pub mod executor {
    use crate::future::LocalFutureObj;
    use crate::task::{LocalSpawn, SpawnError};
    use std::cell::RefCell;
    use std::future::Future;
    use std::pin::pin;
    use std::rc::{Rc, Weak};
    use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
    use std::sync::Arc;
    use std::task::{Context, Poll, Wake, Waker};

    thread_local! { static IDLE: RefCell<Option<Box<dyn FnMut() -> bool>>> = const { RefCell::new(None) }; }
    /// Called when no task of a pool can go on; answers false when nothing more will happen.
    pub fn on_idle(f: Option<Box<dyn FnMut() -> bool>>) {
        IDLE.with(|i| *i.borrow_mut() = f)
    }
    fn idle() -> bool {
        let Some(mut f) = IDLE.with(|i| i.borrow_mut().take()) else { return false };
        let r = f();
        IDLE.with(|i| {
            i.borrow_mut().get_or_insert(f);
        });
        r
    }
    struct Flag(AtomicBool);
    impl Wake for Flag {
        fn wake(self: Arc<Self>) {
            self.0.store(true, SeqCst)
        }
    }
    type Incoming = RefCell<Vec<LocalFutureObj<'static, ()>>>;
    #[derive(Default)]
    pub struct LocalPool {
        tasks: Vec<(LocalFutureObj<'static, ()>, Arc<Flag>)>,
        incoming: Rc<Incoming>,
    }
    #[derive(Clone)]
    pub struct LocalSpawner(Weak<Incoming>);
    impl LocalSpawn for LocalSpawner {
        fn spawn_local_obj(&self, f: LocalFutureObj<'static, ()>) -> Result<(), SpawnError> {
            self.0.upgrade().ok_or_else(SpawnError::shutdown)?.borrow_mut().push(f);
            Ok(())
        }
    }
    impl LocalPool {
        pub fn new() -> Self {
            Self::default()
        }
        pub fn spawner(&self) -> LocalSpawner {
            LocalSpawner(Rc::downgrade(&self.incoming))
        }
        fn take_incoming(&mut self) {
            let new: Vec<_> = self.incoming.borrow_mut().drain(..).collect();
            self.tasks.extend(new.into_iter().map(|f| (f, Arc::new(Flag(AtomicBool::new(true))))));
        }
        /// One pass over the tasks that were woken; true when there was one.
        fn pass(&mut self) -> bool {
            self.take_incoming();
            let mut any = false;
            let mut i = 0;
            while i < self.tasks.len() {
                let (f, flag) = &mut self.tasks[i];
                if flag.0.swap(false, SeqCst) {
                    any = true;
                    let w = Waker::from(flag.clone());
                    if f.0.as_mut().poll(&mut Context::from_waker(&w)).is_ready() {
                        drop(self.tasks.remove(i));
                        continue;
                    }
                }
                i += 1;
            }
            any
        }
        pub fn run_until<F: Future>(&mut self, f: F) -> F::Output {
            let mut f = pin!(f);
            let flag = Arc::new(Flag(AtomicBool::new(true)));
            let w = Waker::from(flag.clone());
            loop {
                let mut any = false;
                if flag.0.swap(false, SeqCst) {
                    any = true;
                    if let Poll::Ready(v) = f.as_mut().poll(&mut Context::from_waker(&w)) {
                        return v;
                    }
                }
                any |= self.pass();
                if !any && !idle() {
                    panic!("every task waits for ever")
                }
            }
        }
    }
}
