//! The client's statistics: store, flusher, snapshot files, uploads ("files" mode); the store alone ("store" mode).
mod store;
use anyhow::anyhow;
use bd_api::upload::UploadResponse;
use bd_api::DataUpload;
use bd_client_common::file::read_compressed_protobuf;
use bd_client_stats::stats::{Flusher, Ticker};
use bd_client_stats::verif::{FileManager, FileSystem, RealFileSystem};
use bd_client_stats::{DynamicStats, FlushTrigger, Stats};
use bd_client_stats_store::{Collector, Counter, MetricData};
use bd_proto::protos::client::api::stats_upload_request::snapshot::Occurred_at;
use bd_proto::protos::client::api::{RuntimeUpdate, StatsUploadRequest};
use bd_proto::protos::client::metric::metric::Data;
use bd_proto::protos::client::metric::Metric;
use bd_proto::protos::client::runtime::runtime::{value, Value as RtValue};
use bd_proto::protos::client::runtime::Runtime;
use bd_runtime::runtime::ConfigLoader;
use bd_shutdown::ComponentShutdownTrigger;
use drv_kit::*;
use parking_lot::Mutex;
use std::collections::{BTreeMap, HashMap};
use std::path::{Path, PathBuf};
use std::sync::Arc;
use tokio::sync::mpsc;

pub struct Quiet;
impl bd_client_common::error::Reporter for Quiet {
  fn report(&self, _: &str, _: &Option<String>, _: &HashMap<std::borrow::Cow<'_, str>, std::borrow::Cow<'_, str>>) {}
}

pub struct Clock(pub Arc<Mutex<i64>>);
#[async_trait::async_trait]
impl bd_time::TimeProvider for Clock {
  async fn sleep(&self, _: time::Duration) {
    std::future::pending::<()>().await;
  }
  fn now(&self) -> time::OffsetDateTime {
    time::OffsetDateTime::from_unix_timestamp(*self.0.lock()).unwrap()
  }
}

pub struct TestTicker(pub mpsc::UnboundedReceiver<()>);
#[async_trait::async_trait]
impl Ticker for TestTicker {
  async fn tick(&mut self) {
    if self.0.recv().await.is_none() {
      std::future::pending::<()>().await;
    }
  }
}

/// The real file system, every operation done by the time it returns, with faults.
#[derive(Default)]
pub struct Faults {
  fail: String,
  crash: String,
  crashed: bool,
}
pub struct Fs {
  pub real: RealFileSystem,
  pub faults: Arc<Mutex<Faults>>,
}
fn wait<T>(f: impl std::future::Future<Output = T>) -> T {
  let h = tokio::runtime::Handle::current();
  let _g = h.enter();
  block_on(f)
}
/// Blocks this thread (file operations run on tokio's blocking threads).
pub fn block_on<T>(f: impl std::future::Future<Output = T>) -> T {
  struct W(std::thread::Thread);
  impl std::task::Wake for W {
    fn wake(self: Arc<Self>) {
      self.0.unpark();
    }
  }
  let mut f = std::pin::pin!(f);
  let w = Arc::new(W(std::thread::current())).into();
  let mut cx = std::task::Context::from_waker(&w);
  loop {
    if let std::task::Poll::Ready(v) = f.as_mut().poll(&mut cx) {
      return v;
    }
    std::thread::park();
  }
}
impl Fs {
  fn kind(&self, path: &Path, op: &str) -> String {
    format!("{op}{}", if path.to_string_lossy().ends_with("index.pb") { "idx" } else { "dat" })
  }
  async fn fault(&self, kind: &str) -> anyhow::Result<()> {
    if self.faults.lock().fail == kind {
      return Err(anyhow!("injected"));
    }
    if self.faults.lock().crash == format!("{kind}:before") {
      self.end().await;
    }
    Ok(())
  }
  async fn end(&self) {
    self.faults.lock().crashed = true;
    std::future::pending::<()>().await;
  }
  async fn after(&self, kind: &str) {
    if self.faults.lock().crash == format!("{kind}:after") {
      self.end().await;
    }
  }
}
#[async_trait::async_trait]
impl FileSystem for Fs {
  async fn read_file(&self, path: &Path) -> anyhow::Result<Vec<u8>> {
    self.fault(&self.kind(path, "r")).await?;
    wait(self.real.read_file(path))
  }
  async fn write_file(&self, path: &Path, data: &[u8]) -> anyhow::Result<()> {
    let k = self.kind(path, "w");
    self.fault(&k).await?;
    let torn = self.faults.lock().crash == format!("{k}:torn");
    if torn {
      wait(self.real.write_file(path, &data[.. data.len() / 2]))?;
      self.end().await;
    }
    wait(self.real.write_file(path, data))?;
    self.after(&k).await;
    Ok(())
  }
  async fn delete_file(&self, path: &Path) -> anyhow::Result<()> {
    let k = self.kind(path, "d");
    self.fault(&k).await?;
    wait(self.real.delete_file(path))?;
    self.after(&k).await;
    Ok(())
  }
  async fn remove_dir(&self, path: &Path) -> anyhow::Result<()> {
    self.fault("rm").await?;
    wait(self.real.remove_dir(path))
  }
  async fn create_dir(&self, path: &Path) -> anyhow::Result<()> {
    self.fault("mk").await?;
    wait(self.real.create_dir(path))
  }
}

/// name{labels} -> (counter value, histogram samples)
pub fn metrics(ms: &[Metric]) -> BTreeMap<String, (u64, Vec<f64>, bool)> {
  let mut out = BTreeMap::new();
  for m in ms {
    let tags: BTreeMap<_, _> = m.tags.iter().collect();
    let key = tags.iter().fold(m.name.clone(), |k, (a, b)| format!("{k}|{a}={b}"));
    let (c, mut v, kind) = match m.data.clone().unwrap() {
      Data::Counter(c) => (c.value, vec![], true),
      d @ Data::DdsketchHistogram(_) => match (MetricData::from_proto(d.clone()), d) {
        (Some(_), Data::DdsketchHistogram(h)) => {
          let mut s = bd_client_stats_store::make_sketch();
          s.decode_and_merge_with(&h.serialized).unwrap();
          (0, s.values(), false)
        },
        _ => panic!("sketch"),
      },
      Data::InlineHistogramValues(h) => (0, h.values, false),
      Data::FixedBucketHistogramDeprecated(_) => panic!("deprecated"),
    };
    v.sort_by(f64::total_cmp);
    assert!(out.insert(key, (c, v, kind)).is_none(), "metric twice in one snapshot");
  }
  out
}

fn bag(ms: &[Metric]) -> Value {
  let m = metrics(ms);
  let get = |k: &str| m.get(k).cloned().unwrap_or_default();
  let (h, ft) = (get("h|x=1").1, get("stats:flush_time").1);
  let known = ["c", "d|x=1|y=2", "h|x=1", "stats:flush_time"];
  assert!(m.keys().all(|k| known.contains(&k.as_str())), "unknown metric {:?}", m.keys());
  json!([get("c").0, get("d|x=1|y=2").0, h.iter().filter(|v| **v == 1.0).count(), h.iter().filter(|v| **v == 200.5).count(), ft.len()])
}

pub fn runtime_update(max: i64, win_ms: i64, limit: i64) -> RuntimeUpdate {
  let v = |n: i64| RtValue { type_: Some(value::Type::UintValue(n as u32)), ..Default::default() };
  RuntimeUpdate {
    version_nonce: "1".into(),
    runtime: Some(Runtime {
      values: [
        ("stats.max_aggregated_files".to_string(), v(max)),
        ("stats.max_aggregation_window_per_file_ms".to_string(), v(win_ms)),
        ("stats.max_dynamic_stats".to_string(), v(limit)),
      ]
      .into(),
      ..Default::default()
    })
    .into(),
    ..Default::default()
  }
}

/// One process: everything here is lost when it ends.
pub struct Proc {
  pub stats: Arc<Stats>,
  pub dynamic: Arc<DynamicStats>,
  pub loader: Arc<ConfigLoader>,
  pub task: tokio::task::JoinHandle<()>,
  pub trigger: FlushTrigger,
  pub flush_tick: mpsc::UnboundedSender<()>,
  pub upload_tick: mpsc::UnboundedSender<()>,
  pub data_rx: mpsc::Receiver<DataUpload>,
  pub faults: Arc<Mutex<Faults>>,
  pub c: Counter,
  _shutdown: ComponentShutdownTrigger,
}
impl Proc {
  pub fn new(dir: &Path, clock: &Arc<Mutex<i64>>, up: &RuntimeUpdate) -> Self {
    let faults: Arc<Mutex<Faults>> = Arc::default();
    let fs = Fs { real: RealFileSystem::new(dir.to_path_buf()), faults: faults.clone() };
    Self::with(dir, clock, up, Box::new(fs), faults)
  }
  pub fn with(dir: &Path, clock: &Arc<Mutex<i64>>, up: &RuntimeUpdate, fs: Box<dyn FileSystem>, faults: Arc<Mutex<Faults>>) -> Self {
    let shutdown = ComponentShutdownTrigger::default();
    let loader = ConfigLoader::new(dir);
    loader.update_snapshot(up);
    let collector = Collector::default();
    let dynamic = Arc::new(DynamicStats::new(&collector.scope(""), &loader));
    let stats = Stats::new(collector.clone(), dynamic.clone());
    let fm = Arc::new(FileManager::new(fs, Arc::new(Clock(clock.clone())), &loader).unwrap());
    let (trigger, flush_rx) = FlushTrigger::new();
    let (flush_tick, f) = mpsc::unbounded_channel();
    let (upload_tick, u) = mpsc::unbounded_channel();
    let (data_tx, data_rx) = mpsc::channel(8);
    let flusher = Flusher::new(
      stats.clone(),
      shutdown.make_shutdown(),
      TestTicker(f),
      flush_rx,
      collector.scope("stats").histogram("flush_time"),
      TestTicker(u),
      data_tx,
      fm,
    );
    let c = stats.scope("").counter("c");
    Self {
      task: tokio::spawn(flusher.periodic_flush()),
      stats,
      dynamic,
      loader,
      trigger,
      flush_tick,
      upload_tick,
      data_rx,
      faults,
      c,
      _shutdown: shutdown,
    }
  }
  pub async fn settle(&self) {
    for _ in 0 .. 8 {
      tokio::task::yield_now().await;
    }
  }
}

fn run(test: &Value, log: &Log) {
  let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
  rt.block_on(async {
    let root = scratch().join("sdk");
    let _ = std::fs::remove_dir_all(&root);
    std::fs::create_dir_all(&root).unwrap();
    let dir = root.join("stats_uploads");
    let clock = Arc::new(Mutex::new(1000));
    let (mut max, mut win) = (n(&test["cfg"], "max"), n(&test["cfg"], "win"));
    let mut p = Proc::new(&root, &clock, &runtime_update(max, win * 1000, 500));
    let mut names: Vec<String> = vec![];
    let mut outstanding: Vec<(String, tokio::sync::oneshot::Sender<UploadResponse>)> = vec![];
    let tags = |l: &[(&str, &str)]| l.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect::<BTreeMap<_, _>>();
    for op in arr(test, "ops") {
      let kind = s(op, "op");
      *p.faults.lock() = Faults { fail: s(op, "f"), crash: s(op, "c"), crashed: false };
      let mut r = json!("ok");
      match kind.as_str() {
        "rec" => match s(op, "m").as_str() {
          "c" => p.c.inc_by(n(op, "n") as u64),
          "d" => p.dynamic.record_dynamic_counter("d", tags(&[("x", "1"), ("y", "2")]), n(op, "n") as u64),
          "h1" => (0 .. n(op, "n")).for_each(|_| p.dynamic.record_dynamic_histogram("h", tags(&[("x", "1")]), 1.0)),
          _ => (0 .. n(op, "n")).for_each(|_| p.dynamic.record_dynamic_histogram("h", tags(&[("x", "1")]), 200.5)),
        },
        "adv" => *clock.lock() += n(op, "n"),
        "conf" => {
          max = n(op, "max");
          win = n(op, "win");
          p.loader.update_snapshot(&runtime_update(max, win * 1000, 500));
        },
        "flush" => {
          if b(op, "trig") {
            let (tx, rx) = bd_completion::Sender::new();
            p.trigger.flush(Some(tx)).await.unwrap();
            p.settle().await;
            let done = tokio::select! {
              biased;
              r = rx.recv() => r.is_ok(),
              () = tokio::task::yield_now() => false,
            };
            r = json!(if done || p.faults.lock().crashed { "ok" } else { "not completed" });
          } else {
            p.flush_tick.send(()).unwrap();
          }
        },
        "tick" => p.upload_tick.send(()).unwrap(),
        "ack" => {
          let (uuid, tx) = outstanding.remove(0);
          if s(op, "how") != "lost" {
            let _ = tx.send(UploadResponse { success: op["how"] == "ok", uuid });
          }
        },
        "restart" => p.faults.lock().crashed = true,
        "damage" => {
          let mut targets: Vec<PathBuf> = vec![];
          for e in std::fs::read_dir(&dir).into_iter().flatten().flatten() {
            let idx = e.file_name().to_string_lossy().ends_with("index.pb");
            if idx == (op["w"] == "idx") {
              targets.push(e.path());
            }
          }
          for t in targets {
            match op["how"].as_str().unwrap() {
              "del" => std::fs::remove_file(t).unwrap(),
              "cut" => {
                let d = std::fs::read(&t).unwrap();
                std::fs::write(&t, &d[.. d.len().saturating_sub(1)]).unwrap();
              },
              "flip" if std::fs::metadata(&t).unwrap().len() > 0 => {
                let mut d = std::fs::read(&t).unwrap();
                let i = if n(op, "x") == 0 { 0 } else { d.len() - 1 };
                d[i] = d[i].wrapping_add(4);
                std::fs::write(&t, &d).unwrap();
              },
              _ => std::fs::write(&t, b"").unwrap(),
            }
          }
        },
        o => panic!("{o}"),
      }
      p.settle().await;
      let mut ups = vec![];
      while let Ok(u) = p.data_rx.try_recv() {
        let DataUpload::StatsUploadRequest(t) = u else { panic!("upload kind") };
        let i = names.iter().position(|x| *x == t.payload.upload_uuid).unwrap_or_else(|| {
          names.push(t.payload.upload_uuid.clone());
          names.len() - 1
        });
        assert_eq!(t.uuid, t.payload.upload_uuid);
        assert_eq!(t.payload.snapshot.len(), 1);
        let snap = &t.payload.snapshot[0];
        let Some(Occurred_at::Aggregated(a)) = &snap.occurred_at else { panic!("no period") };
        ups.push(json!({"n": i + 1, "b": bag(&snap.metrics().metric), "s": a.period_start.seconds - 1000, "e": a.period_end.seconds - 1000}));
        outstanding.push((t.uuid.clone(), t.response_tx));
      }
      let crashed = p.faults.lock().crashed;
      if crashed {
        p.task.abort();
        outstanding.clear();
        p = Proc::new(&root, &clock, &runtime_update(max, win * 1000, 500));
      } else if p.task.is_finished() {
        log.event(json!({"ev": "panic", "op": {"op": "panic"}, "res": "the flusher ended"}));
        return;
      }
      let files = std::fs::read_dir(&dir).map_or(0, |d| d.flatten().filter(|e| !e.file_name().to_string_lossy().ends_with("index.pb")).count());
      log.op(op, json!({"r": r, "ups": ups, "files": files}));
    }
  });
  let _ = read_compressed_protobuf::<StatsUploadRequest>;
}

fn main() {
  bd_client_common::error::UnexpectedErrorHandler::set_reporter(Arc::new(Quiet));
  match std::env::args().nth(3).as_deref() {
    Some("store") => drv_kit::main(store::run),
    _ => drv_kit::main(run),
  }
}
