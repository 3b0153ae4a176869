//! Common shape of the drivers: tests in (one JSON value per line), events out (one per line).
pub use serde_json::{json, Value};
pub type Map = serde_json::Map<String, Value>;
use std::io::{BufRead, Write};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

#[derive(Clone)]
pub struct Log {
  out: Arc<Mutex<Vec<u8>>>,
  file: Arc<Mutex<std::fs::File>>,
}

impl Log {
  pub fn event(&self, v: Value) {
    let mut b = self.out.lock().unwrap_or_else(|e| e.into_inner());
    b.extend_from_slice(v.to_string().as_bytes());
    b.push(b'\n');
  }

  pub fn op(&self, op: &Value, res: Value) {
    self.event(json!({"ev": "op", "op": op, "res": res}));
  }

  pub fn inv(&self, t: usize, op: &Value) {
    self.event(json!({"ev": "inv", "t": t, "op": op}));
  }

  pub fn ret(&self, t: usize, res: Value) {
    self.event(json!({"ev": "ret", "t": t, "res": res}));
  }

  fn flush(&self) {
    let mut b = self.out.lock().unwrap_or_else(|e| e.into_inner());
    let mut f = self.file.lock().unwrap_or_else(|e| e.into_inner());
    let _ = f.write_all(&b);
    b.clear();
  }
}

pub fn scratch() -> std::path::PathBuf {
  std::path::PathBuf::from(std::env::var("SCRATCH").expect("SCRATCH"))
}

pub fn seed() -> u64 {
  std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}

/// A small deterministic generator.
pub struct Rng(pub u64);
impl Rng {
  pub fn next(&mut self) -> u64 {
    self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = self.0;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
  }
  pub fn below(&mut self, n: u64) -> u64 {
    self.next() % n
  }
}

pub fn s(v: &Value, k: &str) -> String {
  v[k].as_str().unwrap_or_default().to_string()
}
pub fn n(v: &Value, k: &str) -> i64 {
  v[k].as_i64().unwrap_or_default()
}
pub fn b(v: &Value, k: &str) -> bool {
  v[k].as_bool().unwrap_or_default()
}
pub fn arr<'a>(v: &'a Value, k: &str) -> &'a [Value] {
  v[k].as_array().map_or(&[], |a| a.as_slice())
}

/// Message of a caught panic.
pub fn panic_text(p: &(dyn std::any::Any + Send)) -> String {
  p.downcast_ref::<String>()
    .cloned()
    .or_else(|| p.downcast_ref::<&str>().map(|s| (*s).to_string()))
    .unwrap_or_else(|| "?".to_string())
}

/// Runs every test; test = {"cfg": .., "ops": [..]}.  A panic or a hang becomes an event that no
/// specification allows.
pub fn main(f: impl Fn(&Value, &Log)) {
  let args: Vec<String> = std::env::args().collect();
  let input = std::io::BufReader::new(std::fs::File::open(&args[1]).expect("in"));
  let log = Log {
    out: Arc::default(),
    file: Arc::new(Mutex::new(std::fs::File::create(&args[2]).expect("out"))),
  };
  std::panic::set_hook(Box::new(|_| {}));
  let beat = Arc::new(AtomicU64::new(0));
  let limit: u64 = std::env::var("KIT_HANG").ok().and_then(|s| s.parse().ok()).unwrap_or(30);
  {
    let (beat, log) = (beat.clone(), log.clone());
    std::thread::spawn(move || {
      let mut last = (0, 0);
      loop {
        std::thread::sleep(std::time::Duration::from_secs(1));
        let now = beat.load(Ordering::SeqCst);
        last = if now == last.0 { (now, last.1 + 1) } else { (now, 0) };
        if last.1 >= limit {
          log.event(json!({"ev": "hang", "op": {"op": "hang"}, "res": "hang"}));
          log.flush();
          std::process::exit(0);
        }
      }
    });
  }
  for line in input.lines() {
    let line = line.expect("line");
    if line.trim().is_empty() {
      continue;
    }
    let test: Value = serde_json::from_str(&line).expect("json");
    beat.fetch_add(1, Ordering::SeqCst);
    log.event(json!({"ev": "reset", "op": test["cfg"]}));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&test, &log)));
    if let Err(p) = r {
      log.event(json!({"ev": "panic", "op": {"op": "panic"}, "res": panic_text(&*p)}));
    }
    log.flush();
  }
  log.flush();
  std::process::exit(0);
}
