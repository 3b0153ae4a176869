//! Uploading of logs from buffers (C35).
use crate::rate::flags;
use bd_api::upload::{Tracked, UploadResponse};
use bd_api::{DataUpload, TriggerUpload};
use bd_buffer::buffer::{RingBuffer as AnyRing, VolatileRingBuffer};
use bd_buffer::{Buffer, BufferEvent, BufferEventWithResponse, Producer, RingBufferStats};
use bd_client_stats_store::{Collector, Counter};
use bd_logger::verif::buffer_uploads;
use bd_logger::{LogFields, LogLevel, LogType};
use bd_proto::protos::client::api::LogUploadRequest;
use bd_runtime::runtime::ConfigLoader;
use bd_shutdown::ComponentShutdownTrigger;
use drv_kit::{arr, b, json, n, s, Log, Value};
use std::collections::HashMap;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;
use std::time::Duration;
use tokio::sync::mpsc::{Receiver, Sender};
use tokio::sync::oneshot;

static DIRS: AtomicU64 = AtomicU64::new(0);
type Pending = Tracked<LogUploadRequest, UploadResponse>;

struct Quiet;
impl bd_internal_logging::Logger for Quiet {
  fn log(&self, _: LogLevel, _: LogType, _: &str, _: LogFields) {}
}

#[derive(Default)]
struct Slot {
  buffer: Option<Arc<Buffer>>,
  ring: Option<Arc<dyn AnyRing>>,
  producer: Option<Producer>,
}

struct World {
  dir: PathBuf,
  kinds: Vec<String>,
  loader: Arc<ConfigLoader>,
  collector: Collector,
  trigger: ComponentShutdownTrigger,
  events: Sender<BufferEventWithResponse>,
  triggers: Sender<TriggerUpload>,
  rx: Option<Receiver<DataUpload>>,
  task: tokio::task::JoinHandle<anyhow::Result<()>>,
  slots: Vec<Slot>,
  pending: HashMap<usize, Pending>,
  uuids: Vec<Vec<String>>,
  waiting: Vec<(i64, oneshot::Receiver<()>)>,
  removal: Option<(usize, oneshot::Receiver<()>)>,
}

fn set(loader: &ConfigLoader, c: &Value, nonce: u64) {
  loader.update_snapshot(&flags(
    &[
      ("log_uploader.batch_size", n(c, "ml")),
      ("log_uploader.batch_size_bytes", n(c, "mb")),
      ("log_uploader.batch_deadline_ms", n(c, "dl") * 2000 - 1000),
      ("log_uploader.retry_count", n(c, "rc")),
      ("log_uploader.initial_retry_backoff_ms", 1000),
      ("log_uploader.max_retry_backoff_ms", 1000),
      ("workflows.flush_buffer_lookback_ms", n(c, "lb")),
    ],
    nonce,
  ));
}

fn open(dir: &Path, x: usize, trig: bool) -> (Arc<Buffer>, Producer) {
  let c = Counter::default;
  let (buf, _) = Buffer::new(&format!("b{x}"), 4000, dir.join(format!("b{x}")), 20_000, trig, c(), c(), c(), c(), c(), None).unwrap();
  let p = buf.new_thread_local_producer().unwrap();
  (buf, p)
}

fn spawn(loader: &Arc<ConfigLoader>, collector: &Collector) -> (ComponentShutdownTrigger, Sender<BufferEventWithResponse>, Sender<TriggerUpload>, Receiver<DataUpload>, tokio::task::JoinHandle<anyhow::Result<()>>) {
  let (tx, rx) = tokio::sync::mpsc::channel(100);
  let (etx, erx) = tokio::sync::mpsc::channel(10);
  let (ttx, trx) = tokio::sync::mpsc::channel(10);
  let trigger = ComponentShutdownTrigger::default();
  let task = tokio::spawn(buffer_uploads(tx, loader, trigger.make_shutdown(), erx, trx, &collector.scope("c"), Arc::new(Quiet)));
  (trigger, etx, ttx, rx, task)
}

async fn settle() {
  for _ in 0 .. 40 {
    tokio::task::yield_now().await;
  }
}

impl World {
  fn event(&self, e: BufferEvent) -> oneshot::Receiver<()> {
    let (e, rx) = BufferEventWithResponse::new(e);
    self.events.try_send(e).unwrap();
    rx
  }

  fn add(&mut self, x: usize) {
    let mut slot = Slot::default();
    let e = match self.kinds[x].as_str() {
      "stream" => {
        let ring: Arc<dyn AnyRing> = VolatileRingBuffer::new("s".into(), 4000, Arc::new(RingBufferStats::default()));
        slot.producer = Some(ring.clone().register_producer().unwrap());
        slot.ring = Some(ring.clone());
        BufferEvent::StreamBufferAdded(ring)
      },
      k => {
        let (buf, p) = open(&self.dir, x, k == "trig");
        slot.buffer = Some(buf.clone());
        slot.producer = Some(p);
        if k == "trig" {
          BufferEvent::TriggerBufferCreated(format!("b{x}"), buf)
        } else {
          BufferEvent::ContinuousBufferCreated(format!("b{x}"), buf)
        }
      },
    };
    self.slots[x] = slot;
    let _ = self.event(e);
  }

  async fn observe(&mut self, gone: Option<usize>) -> (Value, Value, bool) {
    let mut req: Vec<Vec<Value>> = vec![vec![]; self.slots.len()];
    let mut done = vec![];
    let mut rm = false;
    for _ in 0 .. 3 {
      settle().await;
      while let Some(Ok(DataUpload::LogsUploadRequest(u))) = self.rx.as_mut().map(Receiver::try_recv) {
        let name = u.payload.buffer_uuid.clone();
        let x = if name == "streamed" { self.kinds.iter().position(|k| k == "stream").unwrap() } else { name[1 ..].parse().unwrap() };
        // a consumer that is being stopped may still have begun a request, which no one answers any more
        if gone == Some(x) {
          continue;
        }
        let id = u.payload.upload_uuid.clone();
        assert_eq!(id, u.uuid);
        let k = self.uuids[x].iter().position(|y| *y == id).unwrap_or_else(|| {
          self.uuids[x].push(id);
          self.uuids[x].len() - 1
        });
        let ids: Vec<i64> = u.payload.logs.iter().map(|l| ident(l)).collect();
        req[x].push(json!({"u": k + 1, "ids": ids}));
        self.pending.insert(x, u);
      }
      self.waiting.retain_mut(|(i, rx)| match rx.try_recv() {
        Ok(()) => {
          done.push(*i);
          false
        },
        Err(_) => true,
      });
      if let Some((x, rx)) = &mut self.removal {
        if rx.try_recv().is_ok() {
          rm = true;
          self.slots[*x] = Slot::default();
          self.pending.remove(x);
          self.removal = None;
        }
      }
    }
    done.sort_unstable();
    (json!(req), json!(done), rm)
  }
}

/// The identifier is in the message of a log or before the first colon of other records.
fn ident(data: &[u8]) -> i64 {
  if let Ok(l) = bd_client_common::fb::root_as_log(data) {
    return l.message_as_string_data().and_then(|m| m.data().parse().ok()).unwrap_or(-1);
  }
  std::str::from_utf8(data).ok().and_then(|t| t.split(':').next()?.parse().ok()).unwrap_or(-1)
}

pub fn test(test: &Value, log: &Log, confs: &[Value]) {
  tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap().block_on(run(test, log, confs));
}

async fn run(test: &Value, log: &Log, confs: &[Value]) {
  let dir = drv_kit::scratch().join(format!("up{}", DIRS.fetch_add(1, Ordering::SeqCst)));
  std::fs::create_dir_all(&dir).unwrap();
  let cfg = &test["cfg"];
  let loader = ConfigLoader::new(&dir);
  let mut nonce = 1;
  set(&loader, &confs[n(cfg, "conf") as usize - 1], nonce);
  let collector = Collector::default();
  let (trigger, events, triggers, rx, task) = spawn(&loader, &collector);
  let kinds: Vec<String> = arr(cfg, "kinds").iter().map(|k| k.as_str().unwrap().to_string()).collect();
  let count = kinds.len();
  let mut w = World {
    dir: dir.clone(), kinds, loader, collector, trigger, events, triggers, rx: Some(rx), task,
    slots: (0 .. count).map(|_| Slot::default()).collect(), pending: HashMap::new(), uuids: vec![vec![]; count], waiting: vec![], removal: None,
  };
  for x in 0 .. count {
    w.add(x);
  }
  settle().await;
  let (mut id, mut trigs) = (0, 0);
  for op in arr(test, "ops") {
    let x = (n(op, "x") - 1) as usize;
    let mut r = "ok";
    match s(op, "op").as_str() {
      "write" => {
        id += 1;
        let mut data = format!("{id}:").into_bytes();
        if b(cfg, "fb") {
          let at = time::OffsetDateTime::now_utc() - time::Duration::minutes(if b(op, "old") { 60 } else { 0 });
          let mut builder = flatbuffers::FlatBufferBuilder::new();
          bd_client_common::fb::make_log(&mut builder, 1, LogType::Normal, &id.to_string().into(), &vec![], "s", at, std::iter::empty(), std::iter::empty(), |d| {
            data = d.to_vec();
            Ok(())
          })
          .unwrap();
        } else {
          data.resize((n(op, "size") as usize).max(data.len()), b'.');
        }
        if w.slots[x].producer.as_mut().unwrap().write(&data).is_err() {
          r = "locked";
        }
        if let Some(buf) = &w.slots[x].buffer {
          buf.flush();
        }
      },
      "reply" => match w.pending.remove(&x) {
        Some(u) => match s(op, "how").as_str() {
          "lost" => drop(u),
          how => {
            let _ = u.response_tx.send(UploadResponse { success: how == "ok", uuid: u.uuid });
          },
        },
        None => r = "nothing to reply to",
      },
      "tick" => tokio::time::advance(Duration::from_millis(2000)).await,
      "conf" => {
        nonce += 1;
        set(&w.loader, &confs[n(op, "i") as usize - 1], nonce);
      },
      "trig" => {
        trigs += 1;
        let (tx, rx) = oneshot::channel();
        w.waiting.push((trigs, rx));
        let ids = arr(op, "l").iter().map(|i| format!("b{}", i.as_i64().unwrap() - 1)).collect();
        w.triggers.try_send(TriggerUpload::new(ids, tx)).unwrap();
      },
      "remove" => {
        let e = match &w.slots[x].ring {
          Some(ring) => BufferEvent::StreamBufferRemoved(ring.clone()),
          None => BufferEvent::BufferRemoved(format!("b{x}")),
        };
        w.removal = Some((x, w.event(e)));
      },
      "add" => w.add(x),
      _ => {
        w.waiting.clear();
        if s(op, "how") == "closed" {
          w.rx = None;
          w.pending.clear();
          settle().await;
        }
        let (trigger, events, triggers, rx, task) = spawn(&w.loader, &w.collector);
        let old = std::mem::replace(&mut w.trigger, trigger);
        let stop = tokio::spawn(old.shutdown());
        let mut tries = 0;
        while !stop.is_finished() || !w.task.is_finished() {
          settle().await;
          tries += 1;
          if tries > 3 {
            tokio::time::advance(Duration::from_millis(2000)).await;
          }
          if tries > 20 {
            r = "shutdown does not end";
            break;
          }
        }
        w.task = task;
        w.events = events;
        w.triggers = triggers;
        w.rx = Some(rx);
        w.pending.clear();
        for x in 0 .. count {
          w.slots[x] = Slot::default();
        }
        for x in 0 .. count {
          w.add(x);
        }
      },
    }
    let stopped = (s(op, "op") == "remove" && w.kinds[x] != "trig").then_some(x);
    let (req, done, rm) = w.observe(stopped).await;
    let c = |k: &str| w.collector.scope("c").counter(k).get();
    let u = |k: &str| w.collector.scope("c").scope("uploader").counter(k).get();
    if w.task.is_finished() {
      r = "the upload manager ended";
    }
    log.op(op, json!({"r": r, "req": req, "done": done, "rm": rm, "lim": u("retry_limit_exceeded"), "lost": u("retry_limit_exceeded_dropped_logs"), "old": c("old_logs_dropped")}));
  }
  let trigger = w.trigger;
  let stop = tokio::spawn(trigger.shutdown());
  for _ in 0 .. 20 {
    settle().await;
    if stop.is_finished() {
      break;
    }
    tokio::time::advance(Duration::from_millis(2000)).await;
  }
  drop(w.slots);
  let _ = std::fs::remove_dir_all(&dir);
}
