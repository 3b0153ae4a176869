//! Forwarding of unexpected errors (C37).  The state is global, so every test has a process of its own.
use bd_client_common::error::{
  handle_unexpected, handle_unexpected_error_with_details, handle_unexpected_or, with_handle_unexpected, with_handle_unexpected_or, Reporter,
  UnexpectedErrorHandler,
};
use bd_client_stats_store::{Collector, Counter, Scope};
use drv_kit::{arr, b, json, n, s, Log, Value};
use std::borrow::Cow;
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Barrier, Mutex};

static RUNS: AtomicU64 = AtomicU64::new(0);

/// Runs the test in a child process and copies its events.
pub fn parent(test: &Value, log: &Log) {
  let base = drv_kit::scratch().join(format!("err{}", RUNS.fetch_add(1, Ordering::SeqCst)));
  let (i, o) = (base.with_extension("in"), base.with_extension("out"));
  std::fs::write(&i, format!("{test}\n")).unwrap();
  let ok = std::process::Command::new(std::env::current_exe().unwrap()).arg(&i).arg(&o).arg("errors-child").env("KIT_HANG", "5").status().unwrap();
  for line in std::fs::read_to_string(&o).unwrap_or_default().lines() {
    let v: Value = serde_json::from_str(line).unwrap();
    if v["ev"] != "reset" {
      log.event(v);
    }
  }
  if !ok.success() {
    log.event(json!({"ev": "panic", "op": {"op": "panic"}, "res": format!("{ok:?}")}));
  }
  let _ = std::fs::remove_file(i);
  let _ = std::fs::remove_file(o);
}

#[derive(Default)]
struct Calls {
  got: Mutex<Vec<i64>>,
  bad: Mutex<Vec<String>>,
  again: Mutex<bool>,
}
struct R(i64, Arc<Calls>);
impl Reporter for R {
  fn report(&self, message: &str, details: &Option<String>, _: &HashMap<Cow<'_, str>, Cow<'_, str>>) {
    self.1.got.lock().unwrap().push(self.0);
    let want = if message == "details: boom" { Some("more".to_string()) } else { None };
    if !["what: boom", "details: boom", "again: within"].contains(&message) || *details != want {
      self.1.bad.lock().unwrap().push(format!("{message} {details:?}"));
    }
    if self.0 == 3 {
      let first = !std::mem::replace(&mut *self.1.again.lock().unwrap(), true);
      if first {
        handle_unexpected::<(), _>(Err(anyhow::anyhow!("within")), "again");
        *self.1.again.lock().unwrap() = false;
      }
    }
    assert!(self.0 != 4, "reporter");
  }
}

struct World {
  ops: Vec<Value>,
  at: Mutex<usize>,
  calls: Arc<Calls>,
  scopes: [Scope; 2],
  log: Log,
}

fn fail<T>() -> anyhow::Result<T> {
  Err(anyhow::anyhow!("boom"))
}

fn err(how: &str) -> &'static str {
  let back = |v: i32| if v == 7 { "value" } else if v == 9 { "other" } else { "?" };
  match how {
    "plain" => handle_unexpected::<(), _>(fail(), "what"),
    "with" => with_handle_unexpected(fail::<()>, "what"),
    "details" => handle_unexpected_error_with_details(anyhow::anyhow!("boom"), "details", || Some("more".into())),
    "ok" => handle_unexpected::<i32, anyhow::Error>(Ok(7), "what"),
    "or" => return back(handle_unexpected_or(fail(), 9, "what")),
    "okor" => return back(handle_unexpected_or(Ok(7), 9, "what")),
    "withor" => return back(with_handle_unexpected_or(fail, 9, "what")),
    "okwithor" => return back(with_handle_unexpected_or(|| Ok(7), 9, "what")),
    _ => unreachable!(),
  }
  "unit"
}

fn dropped(s: &Scope) -> Counter {
  s.scope("error_reporter").counter("dropped_errors")
}

impl World {
  fn done(&self, op: &Value, r: &str, cnt: &[i64]) {
    let got = if cnt.is_empty() { std::mem::take(&mut *self.calls.got.lock().unwrap()) } else { vec![] };
    let bad = std::mem::take(&mut *self.calls.bad.lock().unwrap());
    let r = if bad.is_empty() { r.to_string() } else { format!("{bad:?}") };
    let drop: Vec<u64> = self.scopes.iter().map(|s| dropped(s).get()).collect();
    self.log.op(op, json!({"r": r, "got": got, "cnt": cnt, "drop": drop}));
  }

  fn race(&self, op: &Value) -> Vec<i64> {
    let (t, k) = (n(op, "n"), n(op, "k"));
    let start = Barrier::new(t as usize);
    self.calls.got.lock().unwrap().clear();
    std::thread::scope(|sc| {
      for i in 1 ..= t {
        let start = &start;
        sc.spawn(move || {
          let body = || {
            start.wait();
            for _ in 0 .. k {
              err("plain");
            }
          };
          if i % 2 == 0 {
            UnexpectedErrorHandler::with_reporter(Arc::new(R(5, self.calls.clone())), body);
          } else {
            body();
          }
        });
      }
    });
    let got = std::mem::take(&mut *self.calls.got.lock().unwrap());
    let own = got.iter().filter(|g| **g == 5).count() as i64;
    vec![got.len() as i64 - own, own]
  }

  /// Runs operations until the end of the current override; tells whether it ends with a panic.
  fn run(self: &Arc<Self>) {
    loop {
      let op = {
        let mut at = self.at.lock().unwrap();
        *at += 1;
        match self.ops.get(*at - 1) {
          Some(op) => op.clone(),
          None => return,
        }
      };
      match s(&op, "op").as_str() {
        "err" => {
          *self.calls.again.lock().unwrap() = false;
          let r = catch_unwind(AssertUnwindSafe(|| err(&s(&op, "how")))).unwrap_or("panic");
          self.done(&op, r, &[]);
        },
        "set" => {
          UnexpectedErrorHandler::set_reporter(Arc::new(R(n(&op, "i"), self.calls.clone())));
          self.done(&op, "ok", &[]);
        },
        "disable" => {
          UnexpectedErrorHandler::disable();
          self.done(&op, "ok", &[]);
        },
        "register" => {
          UnexpectedErrorHandler::register_stats(&self.scopes[n(&op, "i") as usize - 1]);
          self.done(&op, "ok", &[]);
        },
        "push" => {
          let r: Arc<dyn Reporter> = Arc::new(R(n(&op, "i"), self.calls.clone()));
          self.done(&op, "ok", &[]);
          let me = self.clone();
          let _ = catch_unwind(AssertUnwindSafe(|| {
            if b(&op, "async") {
              futures_util::FutureExt::now_or_never(UnexpectedErrorHandler::async_with_reporter(r, async move { me.run() })).unwrap();
            } else {
              UnexpectedErrorHandler::with_reporter(r, || self.run());
            }
          }));
          let at = *self.at.lock().unwrap();
          if at > self.ops.len() {
            return;
          }
          // the pop that ended it
          self.done(&self.ops[at - 1], "ok", &[]);
        },
        "pop" => {
          assert!(!b(&op, "panic"), "left by a panic");
          return;
        },
        _ => {
          let c = self.race(&op);
          self.done(&op, "ok", &c);
        },
      }
    }
  }
}

pub fn child(test: &Value, log: &Log) {
  let calls: Arc<Calls> = Arc::default();
  let (c1, c2) = (Collector::default(), Collector::default());
  let w = Arc::new(World { ops: arr(test, "ops").to_vec(), at: Mutex::new(0), calls: calls.clone(), scopes: [c1.scope("a"), c2.scope("b")], log: log.clone() });
  UnexpectedErrorHandler::set_reporter(Arc::new(R(n(&test["cfg"], "inst"), calls)));
  w.run();
}
