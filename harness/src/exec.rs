//! A deterministic single-task executor that detects lost wake-ups.
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::Relaxed);
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.0.store(true, Ordering::Relaxed);
    }
}

#[derive(Debug, PartialEq, Eq, Clone)]
pub enum Stuck {
    /// The future returned Pending although nothing will ever wake it.
    LostWakeup,
    /// The future kept being woken far beyond the stalls that were scheduled.
    Livelock,
}

pub const MAX_POLLS: usize = 3_000_000;

pub fn drive<F: Future + ?Sized>(fut: Pin<&mut F>) -> Result<F::Output, Stuck> {
    drive_for(fut, MAX_POLLS)
}
fn drive_for<F: Future + ?Sized>(mut fut: Pin<&mut F>, most: usize) -> Result<F::Output, Stuck> {
    // two wakers taking turns: only waking the one of the latest poll counts
    let flags = [(); 2].map(|_| Arc::new(Flag(AtomicBool::new(false))));
    let wakers = [0, 1].map(|i| Waker::from(flags[i].clone()));
    for n in 0..most {
        let flag = &flags[n % 2];
        flag.0.store(false, Ordering::Relaxed);
        match fut.as_mut().poll(&mut Context::from_waker(&wakers[n % 2])) {
            Poll::Ready(x) => return Ok(x),
            Poll::Pending => {
                if !flag.0.load(Ordering::Relaxed) {
                    return Err(Stuck::LostWakeup);
                }
                crate::clock::stall(n);
            }
        }
    }
    Err(Stuck::Livelock)
}

pub fn block<F: Future>(fut: F) -> Result<F::Output, Stuck> {
    let mut fut = Box::pin(fut);
    drive(fut.as_mut())
}
/// For runs that may take many more polls.
pub fn block_long<F: Future>(fut: F) -> Result<F::Output, Stuck> {
    let mut fut = Box::pin(fut);
    drive_for(fut.as_mut(), 60 * MAX_POLLS)
}
