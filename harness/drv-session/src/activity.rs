use bd_session::activity_based::{Callbacks, Strategy as Activity};
use bd_session::Strategy;
use bd_time::TestTimeProvider;
use drv_kit::{arr, json, n, s, Log, Rng, Value};
use drv_store::Fake;
use parking_lot::Mutex;
use std::collections::{BTreeSet, HashMap};
use std::sync::Arc;
use std::time::Duration;
use time::OffsetDateTime;

const KEY: &str = "session_strategy.activity_based.state.1";
const T0: i64 = 10_000_000;
const JUNK: [&str; 5] = ["", "%%%", "AAAA", "=", "////////////////"];

#[derive(Default)]
struct Cbs {
  ids: Mutex<Vec<String>>,
  slow: bool,
}
impl Callbacks for Cbs {
  fn session_id_changed(&self, id: &str) {
    self.ids.lock().push(id.to_string());
    if self.slow {
      std::thread::sleep(Duration::from_micros(300));
    }
  }
}

struct World {
  thr: i64,
  base: i128,
  disk: Fake,
  cbs: Arc<Cbs>,
  clock: Arc<TestTimeProvider>,
  now: i64,
  times: BTreeSet<i64>,
  ids: Mutex<HashMap<String, i64>>,
}

impl World {
  fn at(&self, t: i64) -> OffsetDateTime {
    OffsetDateTime::from_unix_timestamp_nanos(self.base + i128::from(t) * 1_000_000).unwrap()
  }

  fn boot_on(&self, disk: &Fake, cbs: Arc<Cbs>, clock: Arc<TestTimeProvider>) -> Arc<Strategy> {
    Arc::new(Strategy::ActivityBased(Activity::new(
      time::Duration::milliseconds(self.thr),
      disk.store(),
      cbs,
      clock,
    )))
  }

  fn boot(&self) -> Arc<Strategy> {
    self.boot_on(&self.disk, self.cbs.clone(), self.clock.clone())
  }

  fn id(&self, v: &str) -> i64 {
    let mut m = self.ids.lock();
    let next = m.len() as i64 + 1;
    *m.entry(v.to_string()).or_insert(next)
  }

  /// What a process starting at time t with the durable state would take as its session.
  fn probe(&self, t: i64) -> String {
    let copy = Fake::default();
    copy.0.lock().map = self.disk.0.lock().map.clone();
    let clock = Arc::new(TestTimeProvider::new(self.at(t)));
    self.boot_on(&copy, Arc::default(), clock).session_id()
  }

  /// The durable state, as seen through the behaviour of processes started on it.
  fn disk(&self) -> Value {
    if !self.disk.has(KEY) {
      return json!({"id": 0, "last": 0});
    }
    let copy = Fake::default();
    copy.0.lock().map = self.disk.0.lock().map.clone();
    let Some(id) = self.boot_on(&copy, Arc::default(), self.clock.clone()).previous_process_session_id() else {
      return json!({"id": -1, "last": 0});
    };
    let last = self.times.iter().find(|t| self.probe(**t) == id && self.probe(**t - 1) != id);
    json!({"id": self.id(&id), "last": last.copied().unwrap_or(-1)})
  }

  fn res(&self, ret: Option<String>) -> Value {
    let cbs = std::mem::take(&mut *self.cbs.ids.lock());
    for c in &cbs {
      self.id(c);
    }
    // An id announced must be the one now current.
    let stale = ret.as_ref().is_some_and(|r| !cbs.is_empty() && cbs.last() != Some(r));
    let ret = ret.map_or(0, |r| self.id(&r));
    json!({"ret": if stale { -9 } else { ret }, "cbs": cbs.len(), "disk": self.disk()})
  }
}

pub fn test(test: &Value, log: &Log) {
  let mut rng = Rng(drv_kit::seed() ^ test["ops"].to_string().len() as u64);
  let bases: [i128; 3] = [1_700_000_000_000_000_000, 123_456_789, -5_000_000_000_000_000_000];
  let base = bases[rng.below(3) as usize];
  let clock = Arc::new(TestTimeProvider::new(
    OffsetDateTime::from_unix_timestamp_nanos(base + i128::from(T0) * 1_000_000).unwrap(),
  ));
  let mut w = World {
    thr: n(&test["cfg"], "thr"),
    base,
    disk: Fake::default(),
    cbs: Arc::new(Cbs { ids: Mutex::default(), slow: test.get("threads").is_some() }),
    clock,
    now: T0,
    times: BTreeSet::from([T0]),
    ids: Mutex::default(),
  };
  let mut st = w.boot();
  if test.get("threads").is_some() {
    concurrent(test, log, &mut w);
    return;
  }
  for op in arr(test, "ops") {
    w.disk.fault(&s(op, "fault"));
    let ret = match s(op, "op").as_str() {
      "sid" => Some(st.session_id()),
      "start" => {
        st.start_new_session();
        // (Reading at the same instant changes nothing.)
        Some(st.session_id())
      },
      "prev" => st.previous_process_session_id(),
      "flush" => {
        st.flush();
        None
      },
      "tick" => {
        w.now += n(op, "d");
        w.times.insert(w.now);
        w.clock.set_time(w.at(w.now));
        None
      },
      "restart" => {
        st = w.boot();
        None
      },
      "corrupt" => {
        w.disk.put_raw(KEY, Some(JUNK[rng.below(JUNK.len() as u64) as usize]));
        None
      },
      "crash" => {
        w.disk.0.lock().die = Some(s(op, "at") == "after");
        let st2 = st.clone();
        let what = s(op, "what");
        let _ = std::thread::spawn(move || match what.as_str() {
          "sid" => drop(st2.session_id()),
          "start" => st2.start_new_session(),
          _ => st2.flush(),
        })
        .join();
        w.disk.0.lock().die = None;
        st = w.boot();
        let mut r = w.res(None);
        r["cbs"] = json!(0);
        w.disk.fault("none");
        log.op(op, r);
        continue;
      },
      _ => None,
    };
    w.disk.fault("none");
    log.op(op, w.res(ret));
  }
}

fn concurrent(test: &Value, log: &Log, w: &mut World) {
  let mut st = w.boot();
  for op in arr(test, "ops") {
    let ret = match s(op, "op").as_str() {
      "sid" => Some(st.session_id()),
      "restart" => {
        st = w.boot();
        None
      },
      _ => {
        w.now += n(op, "d");
        w.times.insert(w.now);
        w.clock.set_time(w.at(w.now));
        None
      },
    };
    log.op(op, w.res(ret));
  }
  let w: &World = w;
  let now = Mutex::new(w.now);
  let times = Mutex::new(w.times.clone());
  let barrier = std::sync::Barrier::new(arr(test, "threads").len());
  std::thread::scope(|sc| {
    for (t, ops) in arr(test, "threads").iter().enumerate() {
      let (st, barrier, now, times) = (st.clone(), &barrier, &now, &times);
      sc.spawn(move || {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
          barrier.wait();
          for op in ops.as_array().unwrap() {
            let d = n(op, "delay");
            if d > 0 {
              std::thread::sleep(Duration::from_micros(d as u64));
            }
            log.inv(t, op);
            let id = match s(op, "op").as_str() {
              "sid" => w.id(&st.session_id()),
              "start" => {
                st.start_new_session();
                // -5: nothing is returned.
                -5
              },
              "flush" => {
                st.flush();
                0
              },
              "tick" => {
                let mut now = now.lock();
                *now += n(op, "d");
                times.lock().insert(*now);
                w.clock.set_time(w.at(*now));
                0
              },
              _ => st.previous_process_session_id().map_or(0, |i| w.id(&i)),
            };
            log.ret(t, json!({"ret": id}));
          }
        }));
        if let Err(p) = r {
          log.event(json!({"ev": "panic", "op": {"op": "panic"}, "res": drv_kit::panic_text(&*p)}));
        }
      });
    }
  });
  let mut end = World {
    thr: w.thr,
    base: w.base,
    disk: w.disk.clone(),
    cbs: Arc::default(),
    clock: w.clock.clone(),
    now: w.now,
    times: times.lock().clone(),
    ids: Mutex::new(w.ids.lock().clone()),
  };
  end.now = *now.lock();
  log.op(&json!({"op": "peek"}), json!({"ret": 0, "cbs": 0, "disk": end.disk()}));
}
