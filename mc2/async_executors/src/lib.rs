//! The timer traits, and a timer for the pool of the `futures` stand-in (time is played by the harness).
use futures::future::BoxFuture;
use std::time::Duration;

pub trait Timer {
    fn sleep(&self, dur: Duration) -> BoxFuture<'static, ()>;
}
pub trait TimerExt: Timer {}
impl<T: Timer + ?Sized> TimerExt for T {}
impl Timer for futures::executor::LocalSpawner {
    fn sleep(&self, _dur: Duration) -> BoxFuture<'static, ()> {
        Box::pin(std::future::pending())
    }
}
