//! An executor of our own: a future is polled when it is created and then only after it was woken,
//! so a lost wake-up shows as a future that never completes.
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake};

struct Flag(AtomicBool);
impl Wake for Flag {
  fn wake(self: Arc<Self>) {
    self.0.store(true, Ordering::SeqCst);
  }
}

pub struct Task<T> {
  fut: Pin<Box<dyn Future<Output = T>>>,
  flag: Arc<Flag>,
}

impl<T> Task<T> {
  pub fn new(fut: impl Future<Output = T> + 'static) -> Self {
    Self { fut: Box::pin(fut), flag: Arc::new(Flag(AtomicBool::new(true))) }
  }

  pub fn run(&mut self) -> Option<T> {
    while self.flag.0.swap(false, Ordering::SeqCst) {
      let waker = self.flag.clone().into();
      if let Poll::Ready(v) = self.fut.as_mut().poll(&mut Context::from_waker(&waker)) {
        return Some(v);
      }
    }
    None
  }
}
