use crate::exec::Task;
use bd_shutdown::{ComponentShutdown, ComponentShutdownTrigger, ComponentShutdownTriggerHandle, ComponentStatus};
use drv_kit::{b, json, n, s, Log, Value};
use std::collections::BTreeMap;
use std::time::{Duration, Instant};

struct Waiter {
  // The task borrows the waiter, so it is declared (and dropped) first.
  task: Option<Task<()>>,
  w: *mut ComponentShutdown,
}
impl Drop for Waiter {
  fn drop(&mut self) {
    self.task = None;
    unsafe { drop(Box::from_raw(self.w)) };
  }
}
impl Waiter {
  fn new(w: ComponentShutdown) -> Self {
    Self { task: None, w: Box::into_raw(Box::new(w)) }
  }
}

pub fn test(test: &Value, log: &Log) {
  let mut trig = Some(ComponentShutdownTrigger::default());
  let mut running: Option<Task<()>> = None;
  let mut thread: Option<std::thread::JoinHandle<()>> = None;
  let mut handles: BTreeMap<i64, ComponentShutdownTriggerHandle> = BTreeMap::new();
  let mut waiters: BTreeMap<i64, Waiter> = BTreeMap::new();
  for op in drv_kit::arr(test, "ops") {
    let id = n(op, "id");
    let mut status = "-";
    match s(op, "op").as_str() {
      "mkw" => {
        let w = match s(op, "from").as_str() {
          "t" => trig.as_ref().unwrap().make_shutdown(),
          "h" => handles[&n(op, "src")].make_shutdown(),
          _ => unsafe { (*waiters[&n(op, "src")].w).clone() },
        };
        waiters.insert(id, Waiter::new(w));
      },
      "mkh" => {
        let h = if s(op, "from") == "t" { trig.as_ref().unwrap().make_handle() } else { handles[&n(op, "src")].clone() };
        handles.insert(id, h);
      },
      "dropw" => {
        waiters.remove(&id);
      },
      "droph" => {
        handles.remove(&id);
      },
      "dropt" => trig = None,
      "fire" => running = Some(Task::new(trig.take().unwrap().shutdown())),
      "fireb" => {
        let t = trig.take().unwrap();
        let (tx, rx) = std::sync::mpsc::channel::<()>();
        thread = Some(std::thread::spawn(move || {
          drop(tx);
          t.shutdown_blocking();
        }));
        let _ = rx.recv();
        // The trigger is seen by a waiter once it was fired.
        let deadline = Instant::now() + Duration::from_secs(20);
        if let Some(w) = waiters.values().next() {
          while unsafe { (*w.w).component_status() } == ComponentStatus::Running && Instant::now() < deadline {
            std::thread::sleep(Duration::from_micros(100));
          }
        }
      },
      "cancel" => running = None,
      "wait" => {
        let w = waiters.get_mut(&id).unwrap();
        let p = unsafe { &mut *w.w };
        w.task = Some(Task::new(async move { p.cancelled().await }));
      },
      "unwait" => waiters.get_mut(&id).unwrap().task = None,
      "status" => {
        status = match unsafe { (*waiters[&id].w).component_status() } {
          ComponentStatus::Running => "running",
          ComponentStatus::PendingShutdown => "pending",
        };
      },
      _ => {},
    }
    let mut woken = vec![];
    let mut done = false;
    if let Some(t) = &mut running {
      if t.run().is_some() {
        running = None;
        done = true;
      }
    }
    // The wake-ups of another thread follow the status change: they are waited for.
    let deadline = Instant::now() + Duration::from_secs(10);
    loop {
      for (id, w) in &mut waiters {
        if let Some(t) = &mut w.task {
          if t.run().is_some() {
            w.task = None;
            woken.push(*id);
          }
        }
      }
      let more = s(op, "op") == "fireb" && waiters.values().any(|w| w.task.is_some());
      if !more || Instant::now() >= deadline {
        break;
      }
      std::thread::sleep(Duration::from_micros(100));
    }
    woken.sort_unstable();
    if let Some(t) = &mut running {
      if t.run().is_some() {
        running = None;
        done = true;
      }
    }
    if let Some(t) = &thread {
      if waiters.is_empty() {
        // It looks every 100 ms.
        let deadline = Instant::now() + Duration::from_secs(20);
        while !t.is_finished() && Instant::now() < deadline {
          std::thread::sleep(Duration::from_millis(1));
        }
      } else if b(op, "slow") {
        std::thread::sleep(Duration::from_millis(230));
      } else if n(op, "pause") > 0 {
        std::thread::sleep(Duration::from_millis(n(op, "pause") as u64));
      }
      if t.is_finished() {
        let _ = thread.take().unwrap().join();
        done = true;
      }
    }
    log.op(op, json!({"woken": woken, "done": done, "status": status}));
  }
  waiters.clear();
  if let Some(t) = thread {
    let _ = t.join();
  }
}
