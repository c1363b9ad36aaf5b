//! Executors. `block_on_strict` decides stalls without a clock: every wake-up of the judged future can
//! only come from the future itself (in-memory streams), so "pending and not woken" is a deadlock.

use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::task::{Context, Poll, Wake, Waker};

struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst);
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.0.store(true, Ordering::SeqCst);
    }
}

#[derive(Debug)]
pub struct Stalled(pub &'static str);

pub fn block_on_strict<F: Future>(f: F) -> Result<F::Output, Stalled> {
    let mut f = Box::pin(f);
    let flag = Arc::new(Flag(AtomicBool::new(false)));
    let waker = Waker::from(Arc::clone(&flag));
    let mut cx = Context::from_waker(&waker);
    for _ in 0..50_000_000_u64 {
        match f.as_mut().poll(&mut cx) {
            Poll::Ready(x) => return Ok(x),
            Poll::Pending => {
                if !flag.0.swap(false, Ordering::SeqCst) {
                    return Err(Stalled("the request is pending and nothing can wake it"));
                }
            }
        }
    }
    Err(Stalled("the request was polled 50 million times without completing"))
}

struct Park {
    m: Mutex<bool>,
    c: Condvar,
}
impl Wake for Park {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref();
    }
    fn wake_by_ref(self: &Arc<Self>) {
        *self.m.lock().unwrap() = true;
        self.c.notify_one();
    }
}

/// ordinary executor for futures that wait on other threads (file I/O); waits forever, the watchdog of
/// the process turns a hang into an error exit
pub fn block_on<F: Future>(f: F) -> F::Output {
    let mut f = Box::pin(f);
    let park = Arc::new(Park { m: Mutex::new(false), c: Condvar::new() });
    let waker = Waker::from(Arc::clone(&park));
    let mut cx = Context::from_waker(&waker);
    loop {
        if let Poll::Ready(x) = f.as_mut().poll(&mut cx) {
            return x;
        }
        let mut g = park.m.lock().unwrap();
        while !*g {
            g = park.c.wait(g).unwrap();
        }
        *g = false;
    }
}

/// A future that can be stepped: poll until it makes no progress on its own.
pub struct Stepper<'a, T> {
    pub fut: Option<Pin<Box<dyn Future<Output = T> + 'a>>>,
    park: Arc<Park>,
}

impl<'a, T> Stepper<'a, T> {
    pub fn new(f: impl Future<Output = T> + 'a) -> Self {
        let park = Arc::new(Park { m: Mutex::new(true), c: Condvar::new() });
        Self { fut: Some(Box::pin(f)), park }
    }
    /// polls once if it was woken (or never polled); Some(out) when finished
    pub fn poll_if_woken(&mut self) -> Option<T> {
        {
            let mut g = self.park.m.lock().unwrap();
            if !*g {
                return None;
            }
            *g = false;
        }
        self.poll_now()
    }
    pub fn poll_now(&mut self) -> Option<T> {
        let waker = Waker::from(Arc::clone(&self.park));
        let mut cx = Context::from_waker(&waker);
        match self.fut.as_mut()?.as_mut().poll(&mut cx) {
            Poll::Ready(x) => {
                self.fut = None;
                Some(x)
            }
            Poll::Pending => None,
        }
    }
    pub fn woken(&self) -> bool {
        *self.park.m.lock().unwrap()
    }
    pub fn wait_woken(&self, max: std::time::Duration) -> bool {
        let g = self.park.m.lock().unwrap();
        if *g {
            return true;
        }
        let (g, _) = self.park.c.wait_timeout(g, max).unwrap();
        *g
    }
    pub fn done(&self) -> bool {
        self.fut.is_none()
    }
}
