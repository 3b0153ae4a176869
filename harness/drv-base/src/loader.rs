use bd_runtime_config::loader::{Loader, StatsCallbacks, WatchedFileLoader};
use drv_kit::{b, json, n, s, Log, Value};
use parking_lot::Mutex;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Arc;
use std::time::{Duration, Instant};

#[derive(Default)]
struct Counts {
  ok: AtomicU64,
  bad: AtomicU64,
  io: AtomicU64,
}
struct Cb(Arc<Counts>);
impl StatsCallbacks for Cb {
  fn on_deserialize_success(&self) {
    self.0.ok.fetch_add(1, Ordering::SeqCst);
  }
  fn on_deserialize_failure(&self) {
    self.0.bad.fetch_add(1, Ordering::SeqCst);
  }
  fn on_io_failure(&self) {
    self.0.io.fetch_add(1, Ordering::SeqCst);
  }
}

struct World {
  base: PathBuf,
  dir: PathBuf,
  file: PathBuf,
  k8s: bool,
  next: i64,
}

const BAD: [&str; 7] = ["{", "v: [1", "- 1\n- 2\n", "v: x\nw: 1\n", "w: 3\n", "", "v: 7\nw: 8\nv: 9\n  x"];

impl World {
  fn content(&mut self, kind: &str, v: i64, pick: u64) -> Option<Vec<u8>> {
    match kind {
      "good" => Some(format!("v: {v}\nw: {v}\n").into_bytes()),
      "bad" => Some(BAD[pick as usize % BAD.len()].as_bytes().to_vec()),
      "utf8" => Some(b"v: 1\nw: \xff\xfe\n".to_vec()),
      _ => None,
    }
  }

  /// Replaces the file by a rename inside the watched directory.
  fn put(&mut self, kind: &str, v: i64, pick: u64) {
    self.next += 1;
    let content = self.content(kind, v, pick);
    if self.k8s {
      let data = self.dir.join(format!("data{}", self.next));
      std::fs::create_dir(&data).unwrap();
      if let Some(c) = content {
        std::fs::write(data.join("f.yaml"), c).unwrap();
      } else if kind == "dir" {
        std::fs::create_dir(data.join("f.yaml")).unwrap();
      }
      let tmp = self.dir.join("..tmp");
      std::os::unix::fs::symlink(&data, &tmp).unwrap();
      std::fs::rename(&tmp, self.dir.join("..data")).unwrap();
      return;
    }
    let tmp = self.dir.join(format!("tmp{}", self.next));
    if let Some(c) = content {
      std::fs::write(&tmp, c).unwrap();
      if self.file.is_dir() {
        std::fs::remove_dir(&self.file).unwrap();
      }
      std::fs::rename(&tmp, &self.file).unwrap();
    } else if kind == "dir" {
      std::fs::create_dir(&tmp).unwrap();
      if self.file.is_dir() {
        std::fs::remove_dir(&self.file).unwrap();
      } else {
        let _ = std::fs::remove_file(&self.file);
      }
      std::fs::rename(&tmp, &self.file).unwrap();
    } else if self.file.exists() {
      // renamed away
      std::fs::rename(&self.file, &tmp).unwrap();
    } else {
      std::fs::write(&tmp, "x").unwrap();
      std::fs::rename(&tmp, self.dir.join("unrelated")).unwrap();
    }
  }

  fn other(&mut self) {
    self.next += 1;
    let tmp = self.dir.join(format!("tmp{}", self.next));
    std::fs::write(&tmp, "v: 1").unwrap();
    std::fs::rename(&tmp, self.dir.join("unrelated")).unwrap();
  }
}

#[derive(Debug, PartialEq, Clone, Copy)]
struct Cfg {
  v: i64,
  w: i64,
}
pub fn test(test: &Value, log: &Log) {
  let cfg = &test["cfg"];
  let mut rng = drv_kit::Rng(drv_kit::seed() ^ n(cfg, "seed") as u64);
  let base = drv_kit::scratch().join(format!("l{}", rng.next()));
  let dir = base.join("watched");
  std::fs::create_dir_all(&dir).unwrap();
  let k8s = b(cfg, "k8s");
  let file = dir.join("f.yaml");
  if k8s {
    std::os::unix::fs::symlink(Path::new("..data/f.yaml"), &file).unwrap();
  }
  let mut w = World { base, dir, file, k8s, next: 0 };
  let rt = if b(cfg, "mt") {
    tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap()
  } else {
    tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap()
  };
  let fallback = b(cfg, "fallback");
  if s(cfg, "init") != "missing" {
    w.put(&s(cfg, "init"), 1, rng.next());
  }
  rt.block_on(run(test, log, &mut w, &mut rng, fallback));
  drop(rt);
  let _ = std::fs::remove_dir_all(&w.base);
}

async fn settle(cond: impl Fn() -> bool, grace: Duration) {
  let deadline = Instant::now() + grace;
  while !cond() && Instant::now() < deadline {
    tokio::time::sleep(Duration::from_micros(200)).await;
  }
}

async fn run(test: &Value, log: &Log, w: &mut World, rng: &mut drv_kit::Rng, fallback: bool) {
  let counts = Arc::new(Counts::default());
  let loads = Arc::new(AtomicU64::new(0));
  let (l2, ld, c2) = (log.clone(), loads.clone(), counts.clone());
  let sum = Mutex::new((0, 0, 0));
  let loader: Arc<dyn Loader<Cfg>> = WatchedFileLoader::new_loader(
    &w.dir,
    &w.file,
    move |raw: Option<Strict>| {
      let v = raw.map(|r| Cfg { v: r.v, w: r.w });
      // What this attempt was accounted to.
      let now = (c2.ok.load(Ordering::SeqCst), c2.bad.load(Ordering::SeqCst), c2.io.load(Ordering::SeqCst));
      let mut p = sum.lock();
      let acct = (now.0 - p.0, now.1 - p.1, now.2 - p.2);
      *p = now;
      drop(p);
      let acct = match acct {
        (1, 0, 0) => "ok",
        (0, 1, 0) => "bad",
        (0, 0, 1) => "io",
        _ => "wrong",
      };
      let val = v.map_or(0, |c| if c.v == c.w { c.v } else { -9 });
      l2.op(&json!({"op": "load"}), json!({"v": val, "acct": acct}));
      ld.fetch_add(1, Ordering::SeqCst);
      match v {
        Some(c) => Some(Arc::new(c)),
        None if fallback => Some(Arc::new(Cfg { v: -5, w: -5 })),
        None => None,
      }
    },
    Cb(counts.clone()),
  )
  .unwrap();
  let show = move |c: &Option<Arc<Cfg>>| match c {
    Some(c) if fallback && c.v == -5 => 0,
    Some(c) if c.v == c.w => c.v,
    Some(_) => -9,
    None if fallback => -8,
    None => 0,
  };
  // A reader that looks all the time and one that only looks when it is told of a change.
  let stop = Arc::new(AtomicBool::new(false));
  let reader = {
    let (rx, stop, log) = (loader.snapshot_watch(), stop.clone(), log.clone());
    std::thread::spawn(move || {
      let mut last = None;
      while !stop.load(Ordering::SeqCst) {
        let v = show(&rx.borrow());
        if last != Some(v) {
          log.op(&json!({"op": "see", "r": 1}), json!({"v": v}));
          last = Some(v);
        }
        std::thread::sleep(Duration::from_micros(50));
      }
    })
  };
  let mut rx2 = loader.snapshot_watch();
  let log2 = log.clone();
  log.op(&json!({"op": "see", "r": 2}), json!({"v": show(&rx2.borrow_and_update())}));
  let sub = tokio::spawn(async move {
    while rx2.changed().await.is_ok() {
      let v = show(&rx2.borrow_and_update());
      log2.op(&json!({"op": "see", "r": 2}), json!({"v": v}));
    }
  });
  let watch = loader.snapshot_watch();
  let mut stopped = false;
  for op in drv_kit::arr(test, "ops") {
    match s(op, "op").as_str() {
      "put" => {
        let before = loads.load(Ordering::SeqCst);
        if !w.k8s && (w.file.is_dir() || s(op, "kind") == "dir") {
          // It takes a removal as well.
          log.op(&json!({"op": "put", "kind": "missing", "v": 0}), json!(0));
        }
        log.op(op, json!(0));
        w.put(&s(op, "kind"), n(op, "v"), rng.next());
        if b(op, "sync") {
          let want = if s(op, "kind") == "good" { n(op, "v") } else { 0 };
          if stopped {
            tokio::time::sleep(Duration::from_millis(15)).await;
          } else {
            settle(|| loads.load(Ordering::SeqCst) > before && show(&watch.borrow()) == want, Duration::from_secs(10)).await;
            tokio::time::sleep(Duration::from_millis(1)).await;
          }
          log.op(&json!({"op": "now"}), json!({"v": show(&watch.borrow())}));
        }
      },
      "other" => {
        log.op(op, json!(0));
        w.other();
      },
      "flood" => {
        // More events than the kernel queues, while the loader's task gets no time.
        log.op(op, json!(0));
        let p = w.dir.join("flood");
        for _ in 0 .. n(op, "n") {
          std::fs::write(&p, "x").unwrap();
          std::fs::remove_file(&p).unwrap();
        }
      },
      "shutdown" => {
        loader.shutdown().await;
        stopped = true;
        log.op(op, json!(0));
        log.op(&json!({"op": "final"}), json!({"v": show(&watch.borrow())}));
      },
      _ => {},
    }
  }
  if stopped {
    tokio::time::sleep(Duration::from_millis(15)).await;
  } else {
    loader.shutdown().await;
    log.op(&json!({"op": "shutdown"}), json!(0));
  }
  stop.store(true, Ordering::SeqCst);
  let _ = reader.join();
  log.op(&json!({"op": "final"}), json!({"v": show(&watch.borrow())}));
  sub.abort();
}

#[derive(serde::Deserialize)]
#[serde(deny_unknown_fields)]
struct Strict {
  v: i64,
  w: i64,
}
