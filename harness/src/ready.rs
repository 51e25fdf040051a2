//! The tasks of a futures-0.1 executor that have been woken.
use futures01::executor::{Notify, NotifyHandle, UnsafeNotify};
use futures01::{Async, Future};
use std::collections::{HashSet, VecDeque};
use std::sync::{Arc, Condvar, Mutex};

#[derive(Default)]
struct Woken {
    order: VecDeque<usize>,
    known: HashSet<usize>,
}
impl Woken {
    fn add(&mut self, id: usize) {
        if self.known.insert(id) {
            self.order.push_back(id);
        }
    }
}

#[derive(Clone, Default)]
pub struct Ready(Arc<(Mutex<Woken>, Condvar)>);
impl Ready {
    pub fn notify(&self, id: usize) {
        self.0 .0.lock().unwrap().add(id);
        self.0 .1.notify_all();
    }
    pub fn is_empty(&self) -> bool {
        self.0 .0.lock().unwrap().order.is_empty()
    }
    /// Takes out the task that `pick` chooses by its position, given how many are ready.
    pub fn take(&self, pick: impl FnOnce(usize) -> usize) -> Option<usize> {
        let mut w = self.0 .0.lock().unwrap();
        let n = w.order.len();
        if n == 0 {
            return None;
        }
        let id = w.order.remove(pick(n) % n)?;
        w.known.remove(&id);
        Some(id)
    }
}

/// futures 0.1 hands `Arc<impl Notify>` around as references to a type without a size, which the
/// compiler may take for data that never changes: what is written while a task is notified can get
/// lost in an optimized build. These handles have a size and lead to the data by a pointer.
struct Handle(Arc<(Mutex<Woken>, Condvar)>);
impl Notify for Handle {
    fn notify(&self, id: usize) {
        self.0 .0.lock().unwrap().add(id);
        self.0 .1.notify_all();
    }
}
unsafe impl UnsafeNotify for Handle {
    unsafe fn clone_raw(&self) -> NotifyHandle {
        handle(self.0.clone())
    }
    unsafe fn drop_raw(&self) {
        drop(Box::from_raw(self as *const Handle as *mut Handle));
    }
}
fn handle(woken: Arc<(Mutex<Woken>, Condvar)>) -> NotifyHandle {
    let p: *mut dyn UnsafeNotify = Box::into_raw(Box::new(Handle(woken)));
    // the handle owns the box, until drop_raw
    unsafe { NotifyHandle::new(p) }
}
impl From<Ready> for NotifyHandle {
    fn from(r: Ready) -> NotifyHandle {
        handle(r.0)
    }
}

/// Drives a future to its end in this thread, which sleeps in between.
pub fn wait<F: Future>(f: F) -> Result<F::Item, F::Error> {
    let ready = Ready::default();
    let mut f = futures01::executor::spawn(f);
    loop {
        if let Async::Ready(x) = f.poll_future_notify(&ready, 0)? {
            return Ok(x);
        }
        let mut w = ready.0 .0.lock().unwrap();
        while w.order.is_empty() {
            w = ready.0 .1.wait(w).unwrap();
        }
        w.order.clear();
        w.known.clear();
    }
}
