use bd_log::rate_limit_log::WarnTracker;
use drv_kit::{json, n, s, Log, Value};
use parking_lot::Mutex;
use std::collections::BTreeMap;
use std::sync::{Arc, Barrier, OnceLock};

static SEEN: Mutex<Vec<(String, String)>> = Mutex::new(Vec::new());

struct Capture;
impl log::Log for Capture {
  fn enabled(&self, _: &log::Metadata<'_>) -> bool {
    true
  }
  fn log(&self, r: &log::Record<'_>) {
    SEEN.lock().push((r.level().to_string(), r.args().to_string()));
  }
  fn flush(&self) {}
}

type Site = fn(time::Duration, u64);
// Every expansion is a site of its own, with its own static tracker.
macro_rules! sites {
  ($($x:tt)*) => { vec![$({ let _ = stringify!($x); [
    (|d, v| bd_log::warn_every!(d, "w {}", v)) as Site,
    (|d, v| bd_log::error_every!(d, "e {}", v)) as Site,
    (|d, v| bd_log::log_every!(log::Level::Info, d, "i {}", v)) as Site,
    (|d, v| bd_log::warn_every!(d, "f {} {}", v, 1)) as Site,
  ] }),*] };
}
fn all() -> Vec<[Site; 4]> {
  sites!(0 1 2 3 4 5 6 7 8 9 0 1 2 3 4 5 6 7 8 9 0 1 2 3 4 5 6 7 8 9 0 1 2 3 4 5 6 7 8 9 0 1 2 3 4 5 6 7 8 9
         0 1 2 3 4 5 6 7 8 9 0 1 2 3 4 5 6 7 8 9 0 1 2 3 4 5 6 7 8 9 0 1 2 3 4 5 6 7 8 9 0 1 2 3 4 5 6 7 8 9)
}

fn ms(v: i64) -> time::Duration {
  time::Duration::milliseconds(v)
}

pub fn test(test: &Value, log: &Log) {
  static INIT: OnceLock<Vec<[Site; 4]>> = OnceLock::new();
  static NEXT: Mutex<usize> = Mutex::new(0);
  let sites = INIT.get_or_init(|| {
    log::set_logger(&Capture).unwrap();
    log::set_max_level(log::LevelFilter::Trace);
    all()
  });
  SEEN.lock().clear();
  // Macro sites keep their state for the life of the process: every test gets fresh ones.
  let mine = test["cfg"]["macros"].as_bool().unwrap_or(false).then(|| {
    let mut n = NEXT.lock();
    *n += 1;
    &sites[*n - 1]
  });
  let trackers: Vec<Arc<WarnTracker>> = (0 .. 4).map(|_| Arc::default()).collect();
  let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap();
  let mut values: BTreeMap<i64, u64> = BTreeMap::new();
  rt.block_on(async {
    for op in drv_kit::arr(test, "ops") {
      let site = n(op, "site");
      let d = ms(n(op, "d"));
      match s(op, "op").as_str() {
        "advance" => {
          tokio::time::advance(std::time::Duration::from_millis(n(op, "dt") as u64)).await;
          log.op(op, json!({"n": 0, "at": []}));
        },
        "occur" => {
          let k = n(op, "n");
          let threads = n(op, "threads").max(1);
          let v = values.entry(site).or_default();
          *v += 1;
          let v = *v;
          SEEN.lock().clear();
          let warns = Arc::new(Mutex::new(0));
          let one = {
            let (warns, t) = (warns.clone(), trackers[site as usize].clone());
            let f = mine.map(|m| m[site as usize]);
            move || match f {
              Some(f) => f(d, v),
              None => {
                if t.should_warn(d) {
                  *warns.lock() += 1;
                }
              },
            }
          };
          if threads == 1 {
            for _ in 0 .. k {
              one();
            }
          } else {
            let handle = tokio::runtime::Handle::current();
            let barrier = Arc::new(Barrier::new(threads as usize));
            let ts: Vec<_> = (0 .. threads)
              .map(|_| {
                let (handle, barrier, one) = (handle.clone(), barrier.clone(), one.clone());
                std::thread::spawn(move || {
                  let _g = handle.enter();
                  barrier.wait();
                  one();
                })
              })
              .collect();
            for t in ts {
              t.join().unwrap();
            }
          }
          let seen = std::mem::take(&mut *SEEN.lock());
          let (want, text) = [("WARN", format!("w {v}")), ("ERROR", format!("e {v}")), ("INFO", format!("i {v}")), ("WARN", format!("f {v} 1"))]
            [site as usize].clone();
          let n = match mine {
            None => *warns.lock(),
            // Everything that is not emitted at the requested level is still there at debug level.
            Some(_) => {
              let hits = seen.iter().filter(|x| x.0 == want && x.1 == text).count() as i64;
              let low = seen.iter().filter(|x| x.0 == "DEBUG" && x.1 == text).count() as i64;
              if hits + low == k && seen.len() as i64 == k { hits } else { -100 }
            },
          };
          log.op(op, json!({"n": n}));
        },
        _ => {},
      }
    }
  });
}
