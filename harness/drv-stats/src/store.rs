//! The metric store: identity, limit, delta snapshots.
use crate::*;
use bd_client_stats_store::{BoundedScope, Error, Histogram};
use std::sync::atomic::{AtomicBool, Ordering};

/// Keeps what is written as a snapshot.
struct MemFs(Arc<Mutex<Vec<Vec<u8>>>>);
#[async_trait::async_trait]
impl FileSystem for MemFs {
  async fn read_file(&self, _: &Path) -> anyhow::Result<Vec<u8>> {
    Err(anyhow!("none"))
  }
  async fn write_file(&self, path: &Path, data: &[u8]) -> anyhow::Result<()> {
    if !path.to_string_lossy().ends_with("index.pb") {
      self.0.lock().push(data.to_vec());
    }
    Ok(())
  }
  async fn delete_file(&self, _: &Path) -> anyhow::Result<()> {
    Ok(())
  }
  async fn remove_dir(&self, _: &Path) -> anyhow::Result<()> {
    Ok(())
  }
  async fn create_dir(&self, _: &Path) -> anyhow::Result<()> {
    Ok(())
  }
}

const LABELS: [&[(&str, &str)]; 5] = [&[], &[("x", "1")], &[("x", "1"), ("y", "2")], &[("x", "1,y=2")], &[("x=1,y", "2")]];
fn labels(i: i64) -> BTreeMap<String, String> {
  LABELS[i as usize].iter().map(|(a, b)| (a.to_string(), b.to_string())).collect()
}

enum Handle {
  C(Counter),
  H(Histogram),
}

struct Setup {
  p: Proc,
  written: Arc<Mutex<Vec<Vec<u8>>>>,
}
impl Setup {
  fn new(limit: i64) -> Self {
    let written: Arc<Mutex<Vec<Vec<u8>>>> = Arc::default();
    let dir = scratch().join("store");
    let _ = std::fs::create_dir_all(&dir);
    let p = Proc::with(&dir, &Arc::new(Mutex::new(1000)), &runtime_update(10, 0, limit), Box::new(MemFs(written.clone())), Arc::default());
    Self { p, written }
  }
  async fn snap(&self) -> Vec<Value> {
    self.p.flush_tick.send(()).unwrap();
    self.p.settle().await;
    let files = std::mem::take(&mut *self.written.lock());
    assert!(files.len() <= 1 && !self.p.task.is_finished());
    let mut out = vec![];
    for f in files {
      let r: StatsUploadRequest = read_compressed_protobuf(&f).unwrap();
      for m in &r.snapshot[0].metrics().metric {
        if m.name == "stats:flush_time" {
          continue;
        }
        let l = (0 .. LABELS.len()).find(|i| labels(*i as i64) == m.tags.clone().into_iter().collect()).expect("labels");
        let (_, (c, v, kind)) = metrics(std::slice::from_ref(m)).pop_first().unwrap();
        let count = |x: f64| v.iter().filter(|y| **y == x).count();
        assert_eq!(count(1.0) + count(2.0), v.len());
        out.push(json!({"k": format!("{}#{l}", m.name), "t": if kind { "c" } else { "h" }, "n": c, "a": count(1.0), "b": count(2.0)}));
      }
    }
    out
  }
}

/// Several threads record while snapshots are taken; what the snapshots miss or have too much.
async fn race(rounds: i64, kind: &str) -> i64 {
  let s = Setup::new(10);
  let stop = Arc::new(AtomicBool::new(false));
  let threads: Vec<_> = (0 .. 3)
    .map(|t| {
      let (d, stop, kind) = (s.p.dynamic.clone(), stop.clone(), kind.to_string());
      let scope = d.collector_for_test().scope("");
      std::thread::spawn(move || {
        let mut done = 0;
        let held = (kind == "k" && t == 2).then(|| scope.counter("m"));
        while !stop.load(Ordering::Relaxed) {
          match (&held, kind.as_str()) {
            (Some(Ok(c)), _) => c.inc(),
            (_, "c" | "k") => d.record_dynamic_counter("m", BTreeMap::new(), 1),
            _ => d.record_dynamic_histogram("g", BTreeMap::new(), 1.0),
          }
          done += 1;
          for _ in 0 .. (done * 7919) % 4001 {
            std::hint::spin_loop();
          }
        }
        done
      })
    })
    .collect();
  let mut seen = 0;
  let total = |l: Vec<Value>| l.iter().map(|m| n(m, "n") + n(m, "a")).sum::<i64>();
  for _ in 0 .. rounds {
    seen += total(s.snap().await);
  }
  stop.store(true, Ordering::Relaxed);
  let want: i64 = threads.into_iter().map(|t| t.join().unwrap()).sum();
  seen += total(s.snap().await);
  want - seen
}

/// Metrics nobody else refers to are incremented once and given up while a snapshot runs over them.
async fn race_drop(rounds: i64, kind: &str) -> i64 {
  const N: usize = 800;
  let s = Setup::new(5000);
  let scope = s.p.dynamic.collector_for_test().scope("");
  let names: Vec<String> = (0 .. N).map(|i| i.to_string()).collect();
  let gate = Arc::new(std::sync::Barrier::new(2));
  let (g, k) = (gate.clone(), kind == "dc");
  let t = std::thread::spawn(move || {
    for r in 0 .. rounds {
      let hs: Vec<Handle> =
        names.iter().map(|n| if k { Handle::C(scope.counter(n).unwrap()) } else { Handle::H(scope.histogram(n).unwrap()) }).collect();
      g.wait();
      for _ in 0 .. (r * 977) % 6007 {
        std::hint::spin_loop();
      }
      for h in hs {
        for _ in 0 .. r % 5 * 3 {
          std::hint::spin_loop();
        }
        match h {
          Handle::C(c) => c.inc(),
          Handle::H(h) => h.observe(1.0),
        }
      }
      g.wait();
    }
  });
  let total = |l: Vec<Value>| l.iter().map(|m| n(m, "n") + n(m, "a")).sum::<i64>();
  let mut seen = 0;
  for _ in 0 .. rounds {
    gate.wait();
    seen += total(s.snap().await);
    gate.wait();
    seen += total(s.snap().await);
  }
  t.join().unwrap();
  rounds * N as i64 - seen
}

pub fn run(test: &Value, log: &Log) {
  let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
  rt.block_on(async {
    let st = Setup::new(n(&test["cfg"], "limit"));
    let mut hs: Vec<Option<Handle>> = vec![];
    let dynamic: BoundedScope = st.p.dynamic.collector_for_test().scope("");
    for op in arr(test, "ops") {
      let mut r = json!("ok");
      let mut snap = vec![];
      match op["op"].as_str().unwrap() {
        "get" => {
          let path: Vec<&str> = arr(op, "path").iter().map(|x| x.as_str().unwrap()).collect();
          let mut scope = match path.split_first() {
            Some((first, rest)) if b(op, "root") => rest.iter().fold(st.p.dynamic.collector_for_test().scope(first), |s, x| s.scope(x)),
            _ => path.iter().fold(dynamic.clone(), |s, x| s.scope(x)),
          };
          let (name, l) = (s(op, "name"), n(op, "l"));
          let h = match op["t"].as_str().unwrap() {
            "c" if l == 0 => scope.counter(&name).map(Handle::C),
            "c" => scope.counter_with_labels(&name, labels(l)).map(Handle::C),
            _ if l == 0 => scope.histogram(&name).map(Handle::H),
            _ => scope.histogram_with_labels(&name, labels(l)).map(Handle::H),
          };
          match h {
            Ok(h) => hs.push(Some(h)),
            Err(Error::Overflow) => r = json!("over"),
            Err(Error::ChangedType) => r = json!("type"),
          }
          scope = scope.scope("");
          drop(scope);
        },
        "inc" => match hs[n(op, "h") as usize - 1].as_ref().unwrap() {
          Handle::C(c) => c.inc_by(n(op, "n") as u64),
          Handle::H(h) => (0 .. n(op, "n")).for_each(|_| h.observe(if b(op, "two") { 2.0 } else { 1.0 })),
        },
        "drop" => hs[n(op, "h") as usize - 1] = None,
        "dyn" => {
          let (name, l) = (s(op, "name"), labels(n(op, "l")));
          match op["t"].as_str().unwrap() {
            "c" => st.p.dynamic.record_dynamic_counter(&name, l, 1),
            _ => st.p.dynamic.record_dynamic_histogram(&name, l, 1.0),
          }
        },
        "limit" => {
          st.p.loader.update_snapshot(&runtime_update(10, 0, n(op, "n")));
        },
        "snap" => snap = st.snap().await,
        "race" if s(op, "t").starts_with('d') => r = json!(race_drop(n(op, "n"), &s(op, "t")).await.to_string()),
        "race" => r = json!(race(n(op, "n"), &s(op, "t")).await.to_string()),
        o => panic!("{o}"),
      }
      log.op(op, json!({"r": r, "snap": snap}));
    }
  });
}
