//! Minimal executor that notices futures nobody will wake up again.

use hyperdrive::futures::executor::{spawn, Notify, NotifyHandle};
use hyperdrive::futures::{Async, Future};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;

#[derive(Default)]
pub struct Flag(pub AtomicUsize);

impl Notify for Flag {
    fn notify(&self, _: usize) {
        self.0.fetch_add(1, Ordering::SeqCst);
    }
}

#[derive(Debug)]
pub enum End<T, E> {
    Done(Result<T, E>),
    Panicked(String),
    /// Not ready, and no wakeup was requested.
    Stalled,
}

pub fn panic_text(p: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "<panic payload>".into()
    }
}

/// Polls until the future is done; only polls again if it was notified.
pub fn drive<F: Future>(make: impl FnOnce() -> F) -> End<F::Item, F::Error> {
    let fut = match catch_unwind(AssertUnwindSafe(make)) {
        Ok(f) => f,
        Err(p) => return End::Panicked(panic_text(&*p)),
    };
    let flag = Arc::new(Flag::default());
    let mut task = spawn(fut);
    loop {
        let before = flag.0.load(Ordering::SeqCst);
        let h = NotifyHandle::from(flag.clone());
        match catch_unwind(AssertUnwindSafe(|| task.poll_future_notify(&h, 0))) {
            Err(p) => return End::Panicked(panic_text(&*p)),
            Ok(Ok(Async::Ready(v))) => return End::Done(Ok(v)),
            Ok(Err(e)) => return End::Done(Err(e)),
            Ok(Ok(Async::NotReady)) => {
                if flag.0.load(Ordering::SeqCst) == before {
                    return End::Stalled;
                }
            }
        }
    }
}

/// Panics are expected results here; don't print them.
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|_| {}));
}
