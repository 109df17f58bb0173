//! A model of the ipcbus interface for checks of the packages above it (ipcbus itself is checked in mc/).
//! An emitted value reaches every bus of the same directory at once; waiting hands control to the harness,
//! which plays what other threads and processes do in the meantime.
use std::cell::RefCell;
use std::collections::HashMap;
use std::future::Future;
use std::path::{Path, PathBuf};
use std::pin::Pin;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex, Weak};
use std::task::{Context, Poll, Waker};
use std::time::Instant;

static ALL: Mutex<Option<HashMap<PathBuf, Vec<Weak<Inner>>>>> = Mutex::new(None);
pub struct Inner {
    path: PathBuf,
    val: AtomicU64,
    /// number of notifications
    count: AtomicU64,
    wakers: Mutex<Vec<Waker>>,
}
pub struct ProcBus(Arc<Inner>);

/// What happens at a wait: `Wait` gives the moment, and the answer says whether the deadline passes.
pub type Hook = Box<dyn FnMut(Moment) -> ()>;
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Moment {
    /// the caller decided to wait but is not listening yet
    BeforeListen,
    /// the caller sleeps
    Asleep(Option<Instant>),
}
thread_local! { static HOOK: RefCell<Option<Hook>> = const { RefCell::new(None) }; }
pub fn hook(h: Option<Hook>) {
    HOOK.with(|c| *c.borrow_mut() = h);
}
fn moment(m: Moment) {
    let h = HOOK.with(|c| c.borrow_mut().take());
    if let Some(mut h) = h {
        h(m);
        HOOK.with(|c| {
            let mut c = c.borrow_mut();
            if c.is_none() {
                *c = Some(h)
            }
        });
    }
}
impl ProcBus {
    pub fn new(path: &Path) -> std::io::Result<ProcBus> {
        let _id: [u8; 8] = std::fs::read(path.join("id"))?.try_into().expect("bad id file");
        let i = Arc::new(Inner { path: path.into(), val: Default::default(), count: Default::default(), wakers: Default::default() });
        let mut all = ALL.lock().unwrap();
        let l = all.get_or_insert_with(HashMap::new).entry(path.into()).or_default();
        l.retain(|w| w.strong_count() > 0);
        l.push(Arc::downgrade(&i));
        Ok(ProcBus(i))
    }
    pub fn init(&self) {}
    pub fn emit(&self, val: u64) -> u64 {
        let all = ALL.lock().unwrap();
        for b in all.as_ref().unwrap()[&self.0.path].iter().filter_map(|w| w.upgrade()) {
            if b.val.fetch_max(val, Ordering::SeqCst) <= val {
                b.count.fetch_add(1, Ordering::SeqCst);
                b.wakers.lock().unwrap().drain(..).for_each(Waker::wake);
            }
        }
        val
    }
    pub fn val(&self) -> u64 {
        self.0.val.load(Ordering::SeqCst)
    }
    pub fn next_deadline(&self, deadline: Option<Instant>) -> Option<u64> {
        self.next_deadline_after(u64::MAX, deadline)
    }
    pub fn next_deadline_after(&self, seen: u64, deadline: Option<Instant>) -> Option<u64> {
        moment(Moment::BeforeListen);
        if self.val() > seen {
            return Some(self.val());
        }
        self.sleep(deadline)
    }
    fn sleep(&self, deadline: Option<Instant>) -> Option<u64> {
        let c = self.0.count.load(Ordering::SeqCst);
        moment(Moment::Asleep(deadline));
        (c != self.0.count.load(Ordering::SeqCst)).then(|| self.val())
    }
    pub async fn next_async(&self) -> u64 {
        self.next_async_after(u64::MAX).await
    }
    pub async fn next_async_after(&self, seen: u64) -> u64 {
        moment(Moment::BeforeListen);
        if self.val() <= seen {
            Wait(self.0.clone(), self.0.count.load(Ordering::SeqCst)).await;
        }
        self.val()
    }
}
/// ends when a value was announced since
struct Wait(Arc<Inner>, u64);
impl Future for Wait {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0.count.load(Ordering::SeqCst) != self.1 {
            return Poll::Ready(());
        }
        self.0.wakers.lock().unwrap().push(cx.waker().clone());
        Poll::Pending
    }
}
pub fn forget(path: &Path) {
    if let Some(m) = ALL.lock().unwrap().as_mut() {
        m.remove(path);
    }
}
