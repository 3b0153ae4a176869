use bd_session::fixed::{Callbacks, STATE_KEY};
use bd_session::Strategy;
use drv_kit::{b, n, s, json, Log, Rng, Value};
use drv_store::Fake;
use parking_lot::Mutex;
use std::collections::HashMap;
use std::sync::{Arc, Weak};
use std::time::Duration;

/// What the next callback invocations do, and what they saw.
#[derive(Default)]
struct Script {
  cb: String,
  slow: bool,
  calls: usize,
  generated: usize,
  last: Option<String>,
  given: Vec<String>,
  inner: Option<String>,
  prefix: String,
}

struct Cbs {
  script: Arc<Mutex<Script>>,
  strategy: Mutex<Weak<Strategy>>,
}

impl Callbacks for Cbs {
  fn generate_session_id(&self) -> anyhow::Result<String> {
    let (cb, slow) = {
      let mut x = self.script.lock();
      x.calls += 1;
      (x.cb.clone(), x.slow)
    };
    let strategy = self.strategy.lock().upgrade();
    match (cb.as_str(), &strategy) {
      ("rsid", Some(st)) => {
        let id = st.session_id();
        self.script.lock().inner = Some(id);
      },
      ("rstart", Some(st)) => st.start_new_session(),
      _ => {},
    }
    if slow {
      std::thread::sleep(Duration::from_micros(300));
    }
    if cb == "err" {
      anyhow::bail!("callback failed");
    }
    let mut x = self.script.lock();
    if cb == "dup" {
      if let Some(l) = x.last.clone() {
        x.given.push(l.clone());
        return Ok(l);
      }
    }
    x.generated += 1;
    let id = format!("{}{}", x.prefix, x.generated);
    x.last = Some(id.clone());
    x.given.push(id.clone());
    Ok(id)
  }
}

#[derive(Default)]
struct Ids(HashMap<String, usize>);
impl Ids {
  fn id(&mut self, v: &str) -> usize {
    let next = self.0.len() + 1;
    *self.0.entry(v.to_string()).or_insert(next)
  }
}

struct World {
  disk: Fake,
  script: Arc<Mutex<Script>>,
  ids: Arc<Mutex<Ids>>,
}

impl World {
  fn boot(&self) -> Arc<Strategy> {
    let cbs = Arc::new(Cbs {
      script: self.script.clone(),
      strategy: Mutex::new(Weak::new()),
    });
    let st = Arc::new(Strategy::Fixed(bd_session::fixed::Strategy::new(
      self.disk.store(),
      cbs.clone(),
    )));
    *cbs.strategy.lock() = Arc::downgrade(&st);
    st
  }

  fn disk(&self) -> i64 {
    if !self.disk.has(STATE_KEY.key()) {
      return 0;
    }
    self
      .disk
      .peek()
      .get(&STATE_KEY)
      .map_or(-1, |st| self.ids.lock().id(&st.session_id) as i64)
  }

  /// Order of appearance: the re-entered id first, then the op's own, then what is on disk.
  fn res(&self, ret: Option<String>) -> Value {
    let (inner, given, calls) = {
      let mut x = self.script.lock();
      let r = (x.inner.take(), std::mem::take(&mut x.given), x.calls);
      x.calls = 0;
      r
    };
    let inner = inner.map_or(0, |i| self.ids.lock().id(&i));
    for g in &given {
      self.ids.lock().id(g);
    }
    let ret_id = ret.as_ref().map_or(0, |i| self.ids.lock().id(i));
    let disk = self.disk();
    let src = match (calls, given.is_empty()) {
      (0, _) => "-",
      (_, false) => "cb",
      (_, true) => "uuid",
    };
    json!({"ret": ret_id, "inner": inner, "src": src, "cbs": calls, "disk": disk})
  }
}

const PREFIXES: [&str; 5] = ["id-", "\u{1F600}é\u{0}", "", "a b\n\"c\"=/+", "0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef"];
const JUNK: [&str; 6] = ["", "%%%", "AAAA", "=", "AQAAAAAAAAD/", "////////////////"];

pub fn test(test: &Value, log: &Log) {
  let mut rng = Rng(drv_kit::seed() ^ test["ops"].to_string().len() as u64);
  let w = World {
    disk: Fake::default(),
    script: Arc::default(),
    ids: Arc::default(),
  };
  w.script.lock().prefix = PREFIXES[rng.below(PREFIXES.len() as u64) as usize].to_string();
  let mut st = w.boot();
  if test.get("threads").is_some() {
    concurrent(test, log, &w, &mut st);
    return;
  }
  for op in drv_kit::arr(test, "ops") {
    w.script.lock().cb = s(op, "cb");
    w.disk.fault(&s(op, "fault"));
    let name = s(op, "op");
    let ret = match name.as_str() {
      "sid" => Some(st.session_id()),
      "start" => {
        st.start_new_session();
        Some(st.session_id())
      },
      "prev" => st.previous_process_session_id(),
      "restart" => {
        st = w.boot();
        None
      },
      "corrupt" => {
        let j = JUNK[rng.below(JUNK.len() as u64) as usize];
        w.disk.put_raw(STATE_KEY.key(), Some(j));
        None
      },
      "crash" => {
        w.disk.0.lock().die = Some(s(op, "at") == "after");
        let st2 = st.clone();
        let sid = s(op, "what") == "sid";
        // A process of its own: thread-local state dies with it.
        let _ = std::thread::spawn(move || {
          if sid {
            st2.session_id();
          } else {
            st2.start_new_session();
          }
        })
        .join();
        w.disk.0.lock().die = None;
        st = w.boot();
        None
      },
      _ => None,
    };
    w.disk.fault("none");
    log.op(op, w.res(ret));
  }
}

/// Threads run their operations against one strategy; ids are numbered afterwards.
fn concurrent(test: &Value, log: &Log, w: &World, st: &mut Arc<Strategy>) {
  if b(&test["cfg"], "booted") {
    log.op(&json!({"op": "start", "cb": "ok", "fault": "none"}), {
      st.start_new_session();
      w.res(Some(st.session_id()))
    });
    *st = w.boot();
    log.op(&json!({"op": "restart"}), w.res(None));
  }
  w.script.lock().slow = true;
  w.script.lock().cb = "ok".into();
  let barrier = std::sync::Barrier::new(drv_kit::arr(test, "threads").len());
  std::thread::scope(|sc| {
    for (t, ops) in drv_kit::arr(test, "threads").iter().enumerate() {
      let st = st.clone();
      let barrier = &barrier;
      sc.spawn(move || {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
          barrier.wait();
          for op in ops.as_array().unwrap() {
            let d = n(op, "delay");
            if d > 0 {
              std::thread::sleep(Duration::from_micros(d as u64));
            }
            log.inv(t, op);
            let ret = match s(op, "op").as_str() {
              "sid" => Some(st.session_id()),
              "start" => {
                st.start_new_session();
                None
              },
              _ => st.previous_process_session_id(),
            };
            // -5: this operation returns nothing.
            let id = if s(op, "op") == "start" { -5 } else { ret.map_or(0, |r| w.ids.lock().id(&r) as i64) };
            log.ret(t, json!({"ret": id}));
          }
        }));
        if let Err(p) = r {
          log.event(json!({"ev": "panic", "op": {"op": "panic"}, "res": drv_kit::panic_text(&*p)}));
        }
      });
    }
  });
  let disk = w.disk();
  log.op(&json!({"op": "peek"}), json!({"ret": 0, "inner": 0, "src": "-", "cbs": 0, "disk": disk}));
}
