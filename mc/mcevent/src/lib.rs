//! event-listener 3 as documented, every operation one step of the scheduler.
use sched::{current, leave, point, wait_for, write};
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Condvar, Mutex};
use std::task::{Context, Poll, Waker};
use std::time::{Duration, Instant};

#[derive(Default)]
struct List {
    // in order of listening; (ticket, notified, additional)
    l: Vec<(u64, bool, bool)>,
    wakers: Vec<(u64, Waker)>,
    next: u64,
}
#[derive(Default)]
struct Inner {
    m: Mutex<List>,
    cv: Condvar,
}
#[derive(Default)]
pub struct Event(Arc<Inner>);
impl std::fmt::Debug for Event {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Event")
    }
}
pub trait IntoNotification {
    fn parts(self) -> (usize, bool);
    fn additional(self) -> Additional
    where
        Self: Sized,
    {
        Additional(self.parts().0)
    }
    fn relaxed(self) -> Relaxed
    where
        Self: Sized,
    {
        let p = self.parts();
        Relaxed(p.0, p.1)
    }
}
pub struct Additional(usize);
pub struct Relaxed(usize, bool);
impl IntoNotification for Additional {
    fn parts(self) -> (usize, bool) {
        (self.0, true)
    }
}
impl IntoNotification for Relaxed {
    fn parts(self) -> (usize, bool) {
        (self.0, self.1)
    }
}
macro_rules! ints { ($($t:ty)*) => { $( impl IntoNotification for $t { fn parts(self) -> (usize, bool) { (self.try_into().expect("a number of listeners"), false) } } )* } }
ints!(usize u8 u16 u32 u64 u128 isize i8 i16 i32 i64 i128);
impl Event {
    pub fn new() -> Event {
        Event::default()
    }
    fn at(&self) -> u64 {
        Arc::as_ptr(&self.0) as u64
    }
    pub fn is_notified(&self) -> bool {
        leave(point(write(self.at()), "is_notified"));
        self.0.m.lock().unwrap().l.iter().any(|l| l.1)
    }
    pub fn listen(&self) -> Pin<Box<EventListener>> {
        let mut l = Box::pin(EventListener::new(self));
        l.as_mut().listen();
        l
    }
    pub fn notify(&self, n: impl IntoNotification) -> usize {
        let (mut n, additional) = n.parts();
        leave(point(write(self.at()), "notify"));
        let mut g = self.0.m.lock().unwrap();
        let g = &mut *g;
        if !additional {
            n = n.saturating_sub(g.l.iter().filter(|l| l.1).count())
        }
        let mut done = 0;
        for l in g.l.iter_mut().filter(|l| !l.1).take(n) {
            l.1 = true;
            l.2 = additional;
            done += 1;
            g.wakers.retain(|(t, w)| {
                if *t == l.0 {
                    w.wake_by_ref()
                }
                *t != l.0
            });
        }
        self.0.cv.notify_all();
        done
    }
    pub fn notify_relaxed(&self, n: usize) -> usize {
        self.notify(n)
    }
    pub fn notify_additional(&self, n: usize) -> usize {
        self.notify(n.additional())
    }
    pub fn notify_additional_relaxed(&self, n: usize) -> usize {
        self.notify(n.additional())
    }
}
pub struct EventListener {
    ev: Arc<Inner>,
    ticket: Option<u64>,
}
impl EventListener {
    pub fn new(e: &Event) -> EventListener {
        EventListener { ev: e.0.clone(), ticket: None }
    }
    fn at(&self) -> u64 {
        Arc::as_ptr(&self.ev) as u64
    }
    pub fn listen(mut self: Pin<&mut Self>) {
        leave(point(write(self.at()), "listen"));
        if self.ticket.is_some() {
            return;
        }
        let ev = self.ev.clone();
        let mut g = ev.m.lock().unwrap();
        g.next += 1;
        let t = g.next;
        g.l.push((t, false, false));
        self.ticket = Some(t);
    }
    pub fn is_listening(&self) -> bool {
        self.ticket.is_some()
    }
    pub fn listens_to(&self, e: &Event) -> bool {
        Arc::ptr_eq(&self.ev, &e.0)
    }
    pub fn same_event(&self, o: &EventListener) -> bool {
        Arc::ptr_eq(&self.ev, &o.ev)
    }
    fn wait_inner(mut self: Pin<&mut Self>, timeout: Option<Option<Instant>>) -> bool {
        let t = self.ticket.expect("listener was never inserted into the list");
        let ev = self.ev.clone();
        if current().is_some() {
            let e2 = ev.clone();
            // a near deadline may pass at any moment, one hours away never does
            let late = timeout.is_some_and(|d| d.is_some_and(|d| d < Instant::now() + Duration::from_secs(3600)));
            leave(wait_for(write(self.at()), "wait", move || late || e2.m.lock().unwrap().l.iter().any(|l| l.0 == t && l.1)));
        } else {
            let mut g = ev.m.lock().unwrap();
            while !g.l.iter().any(|l| l.0 == t && l.1) {
                match timeout.flatten() {
                    None => g = ev.cv.wait(g).unwrap(),
                    Some(d) => {
                        let Some(left) = d.checked_duration_since(Instant::now()).filter(|d| !d.is_zero()) else { break };
                        g = ev.cv.wait_timeout(g, left).unwrap().0;
                    }
                }
            }
        }
        let mut g = ev.m.lock().unwrap();
        let ok = g.l.iter().any(|l| l.0 == t && l.1);
        g.l.retain(|l| l.0 != t);
        self.ticket = None;
        ok
    }
    pub fn wait(self: Pin<&mut Self>) {
        self.wait_inner(None);
    }
    pub fn wait_deadline(self: Pin<&mut Self>, d: Instant) -> Option<()> {
        self.wait_inner(Some(Some(d))).then_some(())
    }
    pub fn wait_timeout(self: Pin<&mut Self>, d: Duration) -> Option<()> {
        let at = Instant::now().checked_add(d);
        self.wait_inner(at.map(Some)).then_some(())
    }
    pub fn discard(mut self: Pin<&mut Self>) -> bool {
        leave(point(write(self.at()), "discard"));
        let ev = self.ev.clone();
        let Some(t) = self.ticket.take() else { return false };
        let mut g = ev.m.lock().unwrap();
        let was = g.l.iter().any(|l| l.0 == t && l.1);
        g.l.retain(|l| l.0 != t);
        was
    }
}
impl Future for EventListener {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        leave(point(write(self.at()), "poll"));
        let t = self.ticket.expect("listener was never inserted into the list");
        let ev = self.ev.clone();
        let mut g = ev.m.lock().unwrap();
        if g.l.iter().any(|l| l.0 == t && l.1) {
            g.l.retain(|l| l.0 != t);
            self.ticket = None;
            return Poll::Ready(());
        }
        g.wakers.retain(|w| w.0 != t);
        g.wakers.push((t, cx.waker().clone()));
        Poll::Pending
    }
}
impl Drop for EventListener {
    fn drop(&mut self) {
        let Some(t) = self.ticket else { return };
        let _ = point(write(self.at()), "drop listener");
        let mut g = self.ev.m.lock().unwrap();
        // a notification that was not used goes to another listener
        let was = g.l.iter().find(|l| l.0 == t).copied();
        g.l.retain(|l| l.0 != t);
        g.wakers.retain(|w| w.0 != t);
        if let Some((_, true, add)) = was {
            if add || !g.l.iter().any(|l| l.1) {
                if let Some(l) = g.l.iter_mut().find(|l| !l.1) {
                    l.1 = true;
                    let t = l.0;
                    if let Some(p) = g.wakers.iter().position(|w| w.0 == t) {
                        g.wakers.remove(p).1.wake()
                    }
                }
            }
            self.ev.cv.notify_all();
        }
    }
}
