//! Operations that may wait.  Each runs on a thread of its own (or as a future that is polled only when
//! it was woken); after every step the driver lets everything run until each of them has returned or
//! sleeps, so what is reported does not depend on timing.
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake};

struct Flag(AtomicBool);
impl Wake for Flag {
  fn wake(self: Arc<Self>) {
    self.0.store(true, Ordering::SeqCst);
  }
}

enum Kind<T> {
  Thread { tid: Arc<Mutex<String>>, out: Arc<Mutex<Option<T>>>, join: Option<std::thread::JoinHandle<()>> },
  Future { fut: Pin<Box<dyn Future<Output = T>>>, flag: Arc<Flag> },
}

pub struct Pending<T> {
  pub actor: String,
  kind: Kind<T>,
}

/// Moves pointers to handles into the threads.
pub struct Own<T>(pub T);
unsafe impl<T> Send for Own<T> {}

pub struct Pool<T> {
  pub pending: Vec<Pending<T>>,
  /// Threads of the code under test are waited for too.
  pub others: bool,
}

pub fn count_threads(name: &str) -> usize {
  std::fs::read_dir("/proc/self/task")
    .unwrap()
    .filter(|t| std::fs::read_to_string(t.as_ref().unwrap().path().join("comm")).map_or(false, |c| c.trim_end() == name))
    .count()
}

/// A new thread has its name only after it started: every thread but this one counts.
fn others_asleep() -> bool {
  let me = std::fs::read_link("/proc/thread-self").unwrap();
  let me = me.file_name().unwrap();
  std::fs::read_dir("/proc/self/task").unwrap().all(|t| {
    let t = t.unwrap().path();
    if t.file_name().unwrap() == me {
      return true;
    }
    let Ok(s) = std::fs::read_to_string(t.join("stat")) else { return true };
    s.rfind(')').map_or(true, |z| s[z + 1 ..].trim_start().starts_with('S'))
  })
}

fn asleep(tid: &Mutex<String>) -> bool {
  let t = tid.lock().unwrap().clone();
  if t.is_empty() {
    return false;
  }
  std::fs::read_to_string(format!("/proc/{t}/stat")).map_or(true, |s| {
    s.rsplit_once(')').map_or(false, |(_, r)| r.trim_start().starts_with('S'))
  })
}

impl<T: Send + 'static> Pool<T> {
  pub fn new() -> Self {
    Self { pending: Vec::new(), others: false }
  }

  pub fn thread(&mut self, actor: &str, f: impl FnOnce() -> T + 'static) {
    let (tid, out) = (Arc::new(Mutex::new(String::new())), Arc::new(Mutex::new(None)));
    let (tid2, out2, f) = (tid.clone(), out.clone(), Own(f));
    let join = Some(std::thread::spawn(move || {
      let f = f;
      let me = std::fs::read_link("/proc/thread-self").unwrap();
      *tid2.lock().unwrap() = me.to_string_lossy().into_owned();
      let r = (f.0)();
      *out2.lock().unwrap() = Some(r);
    }));
    self.pending.push(Pending { actor: actor.to_string(), kind: Kind::Thread { tid, out, join } });
  }

  pub fn future(&mut self, actor: &str, fut: impl Future<Output = T> + 'static) {
    self.pending.push(Pending {
      actor: actor.to_string(),
      kind: Kind::Future { fut: Box::pin(fut), flag: Arc::new(Flag(AtomicBool::new(true))) },
    });
  }

  pub fn cancel(&mut self, actor: &str) {
    self.pending.retain(|p| p.actor != actor);
  }

  pub fn is_pending(&self, actor: &str) -> bool {
    self.pending.iter().any(|p| p.actor == actor)
  }

  /// Everything that can go on does; returns what completed.
  pub fn settle(&mut self) -> Vec<(String, T)> {
    let mut done = Vec::new();
    let mut calm = 0;
    let mut n = 0u32;
    while (self.others || !self.pending.is_empty()) && calm < 3 {
      let mut moving = self.others && !others_asleep();
      let mut i = 0;
      while i < self.pending.len() {
        let r = match &mut self.pending[i].kind {
          Kind::Thread { tid, out, join } => {
            let r = out.lock().unwrap().take();
            if r.is_some() {
              join.take().unwrap().join().unwrap();
            }
            if r.is_none() && !asleep(tid) {
              moving = true;
            }
            r
          },
          Kind::Future { fut, flag } => {
            if flag.0.swap(false, Ordering::SeqCst) {
              moving = true;
              let waker = flag.clone().into();
              match fut.as_mut().poll(&mut Context::from_waker(&waker)) {
                Poll::Ready(v) => Some(v),
                Poll::Pending => None,
              }
            } else {
              None
            }
          },
        };
        if let Some(r) = r {
          let p = self.pending.remove(i);
          done.push((p.actor, r));
          moving = true;
        } else {
          i += 1;
        }
      }
      calm = if moving { 0 } else { calm + 1 };
      n += 1;
      if n > 20 {
        std::thread::sleep(std::time::Duration::from_micros(50));
      } else {
        std::thread::yield_now();
      }
    }
    done
  }
}
