//! a bounded channel with a deadline for receiving
use std::sync::mpsc;
use std::time::Instant;
pub use mpsc::{RecvTimeoutError, SyncSender as Sender};
pub struct Receiver<T>(mpsc::Receiver<T>);
pub fn bounded<T>(n: usize) -> (Sender<T>, Receiver<T>) {
    let (a, b) = mpsc::sync_channel(n);
    (a, Receiver(b))
}
impl<T> Receiver<T> {
    pub fn recv_deadline(&self, d: Instant) -> Result<T, RecvTimeoutError> {
        self.0.recv_timeout(d.saturating_duration_since(Instant::now()))
    }
}
