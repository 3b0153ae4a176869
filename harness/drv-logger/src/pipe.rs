//! A log on its way from the application to the buffers (C34).
#[allow(dead_code)]
#[path = "../../drv-workflows/src/build.rs"]
pub mod build;

use bd_api::{DataUpload, TriggerUpload};
use bd_buffer::buffer::RingBufferProducer;
use bd_buffer::{AbslCode, Error};
use bd_client_stats_store::Collector;
use bd_log_metadata::AnnotatedLogFields;
use bd_log_primitives::{AnnotatedLogField, LogField, LogFieldKind, LogMessage};
use bd_logger::verif::{Pipe, PipeConfig, PipeEnds, PipeHandle};
use bd_logger::{LogAttributesOverridesPreviousRunSessionID, MetadataProvider};
use bd_proto::flatbuffers::buffer_log::bitdrift_public::fbs::logging::v_1::{root_as_log, LogType as FbType};
use bd_proto::protos::bdtail::bdtail_config::{BdTailConfigurations, BdTailStream};
use bd_proto::protos::client::api::RuntimeUpdate;
use bd_proto::protos::client::runtime::runtime::{value, Value as RtValue};
use bd_proto::protos::client::runtime::Runtime;
use bd_proto::protos::config::v1::config as c2;
use bd_proto::protos::filter::filter as pf;
use bd_runtime::runtime::ConfigLoader;
use build::{any_of, text, workflows};
use drv_kit::{arr, b, json, n, s, Log, Value};
use parking_lot::Mutex;
use std::collections::{BTreeMap, HashMap};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Arc;
use std::time::Duration;
use time::OffsetDateTime;

static DIRS: AtomicU64 = AtomicU64::new(0);
const NAMES: [&str; 4] = ["c", "t", "u", "s"];
const HINT: &str = "failed to override log attributes, provided override attributes do not match expectations";
const NOW: i64 = 2000;
const THEN: i64 = 1000;

pub struct Quiet;
impl bd_client_common::error::Reporter for Quiet {
  fn report(&self, _: &str, _: &Option<String>, _: &HashMap<std::borrow::Cow<'_, str>, std::borrow::Cow<'_, str>>) {}
}

#[derive(Default)]
struct Disk {
  records: Mutex<BTreeMap<String, Vec<Vec<u8>>>>,
  faults: Mutex<BTreeMap<String, String>>,
}
struct Writer {
  name: String,
  disk: Arc<Disk>,
  at: Vec<u8>,
}
impl RingBufferProducer for Writer {
  fn reserve(&mut self, size: u32, _: bool) -> Result<&mut [u8], Error> {
    let code = match self.disk.faults.lock().get(&self.name).map(String::as_str) {
      Some("lock") => AbslCode::FailedPrecondition,
      Some("full") => AbslCode::ResourceExhausted,
      Some("big") => AbslCode::InvalidArgument,
      _ => {
        self.at = vec![0; size as usize];
        return Ok(&mut self.at);
      },
    };
    Err(Error::AbslStatus(code, "no".to_string()))
  }
  fn commit(&mut self) -> Result<(), Error> {
    let r = std::mem::take(&mut self.at);
    self.disk.records.lock().entry(self.name.clone()).or_default().push(r);
    Ok(())
  }
}

struct Provider(Arc<AtomicBool>);
impl MetadataProvider for Provider {
  fn timestamp(&self) -> anyhow::Result<OffsetDateTime> {
    Ok(OffsetDateTime::from_unix_timestamp(NOW)?)
  }
  fn fields(&self) -> anyhow::Result<AnnotatedLogFields> {
    anyhow::ensure!(!self.0.load(Ordering::SeqCst), "no fields");
    Ok(vec![])
  }
}

struct Ids(AtomicU64);
impl bd_session::fixed::Callbacks for Ids {
  fn generate_session_id(&self) -> anyhow::Result<String> {
    Ok(format!("s{}", self.0.fetch_add(1, Ordering::SeqCst)))
  }
}

fn flags(loader: &ConfigLoader) {
  loader.update_snapshot(&RuntimeUpdate {
    version_nonce: "1".to_string(),
    runtime: Some(Runtime {
      values: ["workflows.enabled", "filter_chain.enabled"]
        .map(|k| (k.to_string(), RtValue { type_: Some(value::Type::BoolValue(true)), ..Default::default() }))
        .into(),
      ..Default::default()
    })
    .into(),
    ..Default::default()
  });
}

// "W" stands for the report about a wrong session hint.
fn message(tag: &str) -> String {
  if tag == "W" { HINT } else { tag }.to_string()
}
fn tags(c: &Value, k: &str) -> Vec<String> {
  text(&c[k]).iter().map(|t| message(t)).collect()
}

/// Matches the message.
pub fn exactly(t: String) -> c2::LogMatcher {
  use c2::log_matcher::base_log_matcher::{self, MessageMatch};
  use c2::log_matcher::{BaseLogMatcher, Match_type};
  c2::LogMatcher {
    match_type: Some(Match_type::BaseMatcher(BaseLogMatcher {
      match_type: Some(base_log_matcher::Match_type::MessageMatch(MessageMatch { match_value: t, ..Default::default() })),
      ..Default::default()
    })),
    ..Default::default()
  }
}

/// Marks a log.
pub fn mark() -> pf::filter::Transform {
  use pf::filter::transform::set_field::{set_field_value, SetFieldValue};
  use pf::filter::transform::*;
  pf::filter::Transform {
    transform_type: Some(Transform_type::SetField(SetField {
      name: "x".to_string(),
      value: Some(SetFieldValue { value: Some(set_field_value::Value::StringValue("1".to_string())), ..Default::default() }).into(),
      field_type: set_field::FieldType::CAPTURED.into(),
      allow_override: true,
      ..Default::default()
    })),
    ..Default::default()
  }
}

fn selector(c: &Value) -> c2::BufferConfigList {
  let one = |(name, key): (&str, &str)| c2::BufferConfig {
    id: name.into(),
    filters: tags(c, key)
      .into_iter()
      .map(|t| c2::buffer_config::BufferFilter {
        id: t.clone(),
        filter: Some(exactly(t))
        .into(),
        ..Default::default()
      })
      .collect(),
    ..Default::default()
  };
  c2::BufferConfigList { buffer_config: [("c", "selC"), ("t", "selT"), ("u", "selU")].map(one).into(), ..Default::default() }
}

fn config(c: &Value, disk: &Arc<Disk>) -> PipeConfig {
  let writer = |name: &str| -> bd_buffer::Producer { Box::new(Writer { name: name.to_string(), disk: disk.clone(), at: vec![] }) };
  let fire = json!({"id": "w", "excl": true, "lim": 0, "dur": 0, "st": [[{"m": tags(c, "fire"), "n": 1, "to": 2, "ext": [],
    "acts": [{"k": "f", "id": "A", "bufs": ["t"], "dest": ["c"], "max": []}]}], []]});
  let fires: Vec<&Value> = if arr(c, "fire").is_empty() { vec![] } else { vec![&fire] };
  let filters = if arr(c, "filt").is_empty() {
    vec![]
  } else {
    vec![pf::Filter {
      matcher: Some(any_of(&tags(c, "filt"))).into(),
      transforms: vec![mark()],
      ..Default::default()
    }]
  };
  let streams = if arr(c, "tail").is_empty() {
    vec![]
  } else {
    vec![BdTailStream { stream_id: "S".into(), matcher: Some(any_of(&tags(c, "tail"))).into(), ..Default::default() }]
  };
  PipeConfig {
    buffers: vec![("c".to_string(), true, writer("c")), ("t".to_string(), false, writer("t")), ("u".to_string(), false, writer("u"))],
    selector: selector(c),
    workflows: workflows(&fires),
    tail: BdTailConfigurations { active_streams: streams, ..Default::default() },
    tail_producer: writer("s"),
    filters: pf::FiltersConfiguration { filters, ..Default::default() },
  }
}

fn field(key: &str, v: &str) -> AnnotatedLogField {
  AnnotatedLogField { field: LogField { key: key.to_string(), value: v.to_string().into() }, kind: LogFieldKind::Ootb }
}

/// What a written log says about itself.
fn record(buffer: &str, data: &[u8]) -> Value {
  let log = root_as_log(data).unwrap();
  let mut fields: BTreeMap<&str, &str> = BTreeMap::new();
  let mut twice = false;
  for f in log.fields().iter().flatten() {
    twice |= fields.insert(f.key(), f.value_as_string_data().map_or("?", |d| d.data())).is_some();
  }
  let num = |k: &str| fields.get(k).map_or(0, |v| v.parse::<i64>().unwrap_or(-1));
  let se = log.session_id().and_then(|x| x.strip_prefix('s')).and_then(|x| x.parse::<i64>().ok()).unwrap_or(-1);
  let acts: Vec<&str> = log.workflow_action_ids().iter().flatten().collect();
  let streams: Vec<&str> = log.stream_ids().iter().flatten().collect();
  let text = log.message_as_string_data().map_or("?", |d| d.data());
  let time = log.timestamp().map_or(-1, |t| t.seconds());
  // (a wrong hint names no session, or the one that is current when the log is handed over)
  let hint = fields.get("_override_session_id").is_some_and(|id| *id == "wrong" || (id.starts_with('s') && *id != "s0")) && fields.get("_original_session_id") == Some(&format!("s{se}").as_str());
  let k = match (log.log_level(), log.log_type()) {
    _ if twice || !(acts.is_empty() || acts == ["A"]) || (streams == ["S"]) != (buffer == "s") => "bad",
    (3, FbType::InternalSDK) if text == HINT && hint && time == NOW => "w",
    (1, FbType::InternalSDK) if time == NOW => "syn",
    (2, FbType::Normal) if time == THEN && fields.contains_key("_logged_at") => "p",
    (2, FbType::Normal) if time == NOW && !fields.contains_key("_logged_at") => "n",
    _ => "bad",
  };
  json!({"i": num("i"), "g": num("g"), "se": se, "x": fields.get("x") == Some(&"1"), "k": k, "f": !acts.is_empty()})
}

enum Waiting {
  Log(tokio::sync::oneshot::Receiver<()>),
  Flush(bd_completion::Receiver<()>),
}
enum Asked {
  Buffers(String, bd_completion::Sender<()>),
  Stats(Option<bd_completion::Sender<()>>),
}

struct World {
  disk: Arc<Disk>,
  collector: Collector,
  counted: i64,
  lost: i64,
  saved: i64,
  bad: Arc<AtomicBool>,
  session: Arc<bd_session::Strategy>,
  triggers: tokio::sync::mpsc::Receiver<TriggerUpload>,
  uploads: tokio::sync::mpsc::Receiver<DataUpload>,
  flushes: Option<tokio::sync::mpsc::Receiver<bd_buffer::BuffersWithAck>>,
  stats: Option<tokio::sync::mpsc::Receiver<Option<bd_completion::Sender<()>>>>,
  shutdown: Option<bd_shutdown::ComponentShutdownTrigger>,
  handle: PipeHandle,
  waiting: BTreeMap<i64, Waiting>,
  flags: BTreeMap<i64, Arc<Mutex<Option<&'static str>>>>,
  asked: Option<Asked>,
  intents: Vec<DataUpload>,
  responses: Vec<tokio::sync::oneshot::Sender<()>>,
}

impl World {
  fn total(&self, name: &str, label: &str, values: &[&str]) -> i64 {
    values
      .iter()
      .map(|v| {
        self.collector.inner().find_counter(name, BTreeMap::from([(label.to_string(), (*v).to_string())])).map_or(0, |c| c.get() as i64)
      })
      .sum()
  }

  async fn settle(&mut self) -> Value {
    let mut before = usize::MAX;
    loop {
      tokio::time::sleep(Duration::from_millis(1)).await;
      let mut new = false;
      while let Ok(u) = self.uploads.try_recv() {
        self.intents.push(u);
        new = true;
      }
      let n = self.disk.records.lock().values().map(Vec::len).sum::<usize>();
      if !new && n == before {
        break;
      }
      before = n;
    }
    json!(null)
  }

  async fn result(&mut self) -> Value {
    let had = self.intents.len();
    self.settle().await;
    let mut trig = 0;
    while let Ok(t) = self.triggers.try_recv() {
      trig += if t.buffer_ids == ["t"] { 1 } else { 100 };
      self.responses.push(t.response_tx);
    }
    if let Some(Ok(b)) = self.flushes.as_mut().map(|r| r.try_recv()) {
      let (mut names, tx) = b.verif_parts();
      names.sort();
      let name = if names.is_empty() { "*".to_string() } else { names.concat() };
      self.asked = Some(if self.asked.is_some() { Asked::Buffers("two".to_string(), tx.unwrap()) } else { Asked::Buffers(name, tx.unwrap()) });
    }
    if let Some(Ok(tx)) = self.stats.as_mut().map(|r| r.try_recv()) {
      self.asked = Some(if self.asked.is_some() { Asked::Stats(None) } else { Asked::Stats(tx) });
    }
    let mut done = vec![];
    for i in self.waiting.keys().copied().collect::<Vec<_>>() {
      let state = match self.waiting.get_mut(&i).unwrap() {
        Waiting::Log(rx) => match rx.try_recv() {
          Ok(()) => Some("done"),
          Err(tokio::sync::oneshot::error::TryRecvError::Closed) => Some("gone"),
          Err(_) => None,
        },
        Waiting::Flush(_) => *self.flags[&i].lock(),
      };
      if let Some(r) = state {
        self.waiting.remove(&i);
        done.push(json!({"i": i, "r": r}));
      }
    }
    let w: serde_json::Map<String, Value> = NAMES
      .iter()
      .map(|b| ((*b).to_string(), json!(self.disk.records.lock().remove(*b).unwrap_or_default().iter().map(|r| record(b, r)).collect::<Vec<_>>())))
      .collect();
    let counted = self.total("logger:logs_received", "log_level", &["trace", "debug", "info", "warn", "error"]);
    let lost = self.total("logger:pre_config_log_buffer:log_enqueueing", "result", &["failure_count_overflow", "failure_size_overflow"]);
    let saved = self.total("workflows:state_persistences_total", "result", &["success"]);
    let req = match &self.asked {
      None => "no",
      Some(Asked::Stats(Some(_))) => "stats",
      Some(Asked::Stats(None)) => "?",
      Some(Asked::Buffers(n, _)) => n,
    };
    let r = json!({"w": w, "done": done, "cnt": counted - self.counted, "lost": lost - self.lost, "ask": self.intents.len() - had, "trig": trig, "req": req, "sv": saved - self.saved});
    (self.counted, self.lost, self.saved) = (counted, lost, saved);
    r
  }
}

pub fn start(dir: &std::path::Path, count: usize, st: bool) -> (Pipe, PipeWorld) {
  let store = drv_store::Fake::default().store();
  let old = bd_session::Strategy::Fixed(bd_session::fixed::Strategy::new(store.clone(), Arc::new(Ids(AtomicU64::new(0)))));
  old.session_id();
  let session = Arc::new(bd_session::Strategy::Fixed(bd_session::fixed::Strategy::new(store, Arc::new(Ids(AtomicU64::new(1))))));
  session.session_id();
  let loader = ConfigLoader::new(dir);
  flags(&loader);
  let collector = Collector::default();
  let dynamic = Arc::new(bd_client_stats::DynamicStats::new(&collector.scope(""), &loader));
  let bad = Arc::new(AtomicBool::new(false));
  let (trigger_tx, triggers) = tokio::sync::mpsc::channel(1);
  let (upload_tx, uploads) = tokio::sync::mpsc::channel(1);
  let (flush_tx, flushes) = tokio::sync::mpsc::channel(1);
  let (stats_flush, stats) = if st {
    let (a, b) = bd_client_stats::FlushTrigger::new();
    (Some(a), Some(b))
  } else {
    (None, None)
  };
  let shutdown = bd_shutdown::ComponentShutdownTrigger::default();
  let (pipe, handle) = Pipe::new(
    dir,
    &loader,
    PipeEnds { stats: collector.scope(""), dynamic, triggers: trigger_tx, uploads: upload_tx, flushes: flush_tx, stats_flush },
    (count, 1 << 20),
    session.clone(),
    Arc::new(Provider(bad.clone())),
    shutdown.make_handle(),
    Arc::new(bd_api::api::SimpleNetworkQualityProvider::default()),
  );
  let disk = Arc::new(Disk::default());
  (
    pipe,
    PipeWorld(World {
      disk,
      collector,
      counted: 0,
      lost: 0,
      saved: 0,
      bad,
      session,
      triggers,
      uploads,
      flushes: Some(flushes),
      stats,
      shutdown: Some(shutdown),
      handle,
      waiting: BTreeMap::new(),
      flags: BTreeMap::new(),
      asked: None,
      intents: vec![],
      responses: vec![],
    }),
  )
}
pub struct PipeWorld(World);

pub fn test(test: &Value, log: &Log, confs: &[Value]) {
  bd_client_common::error::UnexpectedErrorHandler::set_reporter(Arc::new(Quiet));
  let dir = drv_kit::scratch().join(format!("pipe{}", DIRS.fetch_add(1, Ordering::SeqCst)));
  std::fs::create_dir_all(&dir).unwrap();
  let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap();
  rt.block_on(async {
    let (pipe, PipeWorld(mut w)) = start(&dir, n(&test["cfg"], "cap") as usize, b(&test["cfg"], "st"));
    let task = tokio::spawn(pipe.run());
    w.settle().await;
    let mut g = String::new();
    let mut i = 0;
    for op in arr(test, "ops") {
      let ok = |r: &str| json!({"r": r});
      match s(op, "op").as_str() {
        "log" => {
          i += 1;
          let l = &op["l"];
          let current = w.session.session_id();
          let overrides = match s(l, "kind").as_str() {
            "p" => Some("s0"),
            "w" if i % 2 == 0 => Some(current.as_str()),
            "w" => Some("wrong"),
            _ => None,
          }
          .map(|id| LogAttributesOverridesPreviousRunSessionID {
            expected_previous_process_session_id: id.to_string(),
            occurred_at: OffsetDateTime::from_unix_timestamp(THEN).unwrap(),
          });
          let msg = LogMessage::String(s(l, "tag"));
          let fields = vec![field("i", &i.to_string())];
          let r = if b(l, "blk") {
            let (r, rx) = w.handle.blocking_log(msg, fields, overrides);
            if r == "ok" {
              w.waiting.insert(i, Waiting::Log(rx));
            }
            r
          } else {
            w.handle.log(msg, fields, overrides, false)
          };
          log.op(op, ok(r));
        },
        "field" => {
          let r = match n(op, "v") {
            0 => w.handle.remove_field("g"),
            v => w.handle.add_field(LogField { key: "g".to_string(), value: v.to_string().into() }),
          };
          g = r.to_string();
          log.op(op, ok(&g));
        },
        "flush" => {
          i += 1;
          let r = if b(op, "blk") {
            let (r, rx) = w.handle.blocking_flush();
            if r == "ok" {
              let flag = Arc::new(Mutex::new(None));
              w.flags.insert(i, flag.clone());
              // not run before the next settling
              tokio::spawn(async move {
                let r = rx.recv().await;
                *flag.lock() = Some(if r.is_ok() { "done" } else { "gone" });
              });
              let (_, never) = bd_completion::Sender::new();
              w.waiting.insert(i, Waiting::Flush(never));
            }
            r
          } else {
            w.handle.flush(false)
          };
          log.op(op, ok(r));
        },
        "conf" => {
          let r = w.handle.config(config(&confs[n(op, "i") as usize - 1], &w.disk));
          if !r {
            break;
          }
          log.op(op, ok("ok"));
        },
        "sess" => {
          w.session.start_new_session();
          log.op(op, ok("ok"));
        },
        "prov" => {
          w.bad.fetch_xor(true, Ordering::SeqCst);
          log.op(op, ok("ok"));
        },
        "fault" => {
          w.disk.faults.lock().insert(s(op, "b"), s(op, "f"));
          log.op(op, ok("ok"));
        },
        "run" => {
          let r = w.result().await;
          log.op(op, r);
        },
        "ack" => {
          match w.asked.take() {
            None => break,
            Some(Asked::Buffers(_, tx)) if b(op, "ok") => tx.send(()),
            Some(Asked::Stats(Some(tx))) if b(op, "ok") => tx.send(()),
            _ => {},
          }
          let r = w.result().await;
          log.op(op, r);
        },
        "accept" => {
          use bd_api::upload::{IntentDecision, IntentResponse};
          let Some(DataUpload::LogsUploadIntentRequest(u)) = w.intents.pop() else { break };
          let _ = u.response_tx.send(IntentResponse { uuid: u.uuid, decision: IntentDecision::UploadImmediately });
          let r = w.result().await;
          log.op(op, r);
        },
        "stop" => {
          let shutdown = w.shutdown.take().unwrap();
          w.asked = None;
          w.flushes = None;
          w.stats = None;
          // The triggers are signalled first; their completion is that of the loop.
          let done = tokio::spawn(shutdown.shutdown());
          let _ = done.await;
          let r = w.result().await;
          log.op(op, r);
        },
        o => panic!("{o}"),
      }
    }
    task.abort();
    let _ = task.await;
  });
  let _ = &rt;
  drop(rt);
  let _ = std::fs::remove_dir_all(&dir);
}

/// Several threads using the logger at once, with real waiting: test["threads"] are their operations.
pub fn race(test: &Value, log: &Log, confs: &[Value]) {
  bd_client_common::error::UnexpectedErrorHandler::set_reporter(Arc::new(Quiet));
  let dir = drv_kit::scratch().join(format!("race{}", DIRS.fetch_add(1, Ordering::SeqCst)));
  std::fs::create_dir_all(&dir).unwrap();
  let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
  let (pipe, PipeWorld(mut w)) = {
    let _g = rt.enter();
    start(&dir, 100, true)
  };
  let _ = w.handle.config(config(&confs[0], &w.disk));
  rt.spawn(pipe.run());
  // Before there is a configuration blocking calls return at once.
  let _ = w.handle.log(LogMessage::String("a".to_string()), vec![], None, false);
  while w.disk.records.lock().is_empty() {
    std::thread::sleep(Duration::from_micros(50));
  }
  w.disk.records.lock().clear();
  // What was written when the last flush began, and what has been flushed.
  let safe: Arc<Mutex<(Vec<i64>, u64, u64)>> = Arc::default();
  let (mut flushes, mut stats) = (w.flushes.take().unwrap(), w.stats.take().unwrap());
  let (disk, seen) = (w.disk.clone(), safe.clone());
  let numbers = move |disk: &Disk| -> Vec<(i64, i64)> {
    disk.records.lock().get("c").map_or(vec![], |l| {
      l.iter()
        .map(|r| {
          let r = record("c", r);
          (n(&r, "i"), n(&r, "g"))
        })
        .collect()
    })
  };
  let of = numbers.clone();
  rt.spawn(async move {
    while let Some(x) = flushes.recv().await {
      let now: Vec<i64> = of(&disk).iter().map(|x| x.0).collect();
      tokio::time::sleep(Duration::from_micros(200)).await;
      {
        let mut g = seen.lock();
        g.0 = now;
        g.1 += 1;
      }
      if let (_, Some(tx)) = x.verif_parts() {
        tx.send(());
      }
    }
  });
  let seen = safe.clone();
  rt.spawn(async move {
    while let Some(x) = stats.recv().await {
      tokio::time::sleep(Duration::from_micros(100)).await;
      seen.lock().2 += 1;
      if let Some(tx) = x {
        tx.send(());
      }
    }
  });
  std::thread::scope(|sc| {
    for (t, ops) in arr(test, "threads").iter().enumerate() {
      let (h, safe, log) = (w.handle.clone(), safe.clone(), log.clone());
      sc.spawn(move || {
        for op in ops.as_array().unwrap() {
          log.inv(t, op);
          let (_, f0, s0) = safe.lock().clone();
          let blk = b(op, "blk");
          let r = match s(op, "op").as_str() {
            "log" => h.log(LogMessage::String("a".to_string()), vec![field("i", &n(op, "i").to_string())], None, blk),
            "flush" => h.flush(blk),
            _ => match n(op, "v") {
              0 => h.remove_field("g"),
              v => h.add_field(LogField { key: "g".to_string(), value: v.to_string().into() }),
            },
          };
          let (have, f, st) = safe.lock().clone();
          let fine = f > f0 && st > s0 && (s(op, "op") == "flush" || have.contains(&n(op, "i")));
          log.ret(t, json!(if r != "ok" { r } else if !blk { "ok" } else if fine { "flushed" } else { "early" }));
        }
      });
    }
  });
  let op = json!({"op": "flush", "blk": true});
  log.inv(0, &op);
  let r = w.handle.flush(true);
  log.ret(0, json!(if r == "ok" { "flushed" } else { r }));
  let op = json!({"op": "read"});
  log.inv(0, &op);
  log.ret(0, json!(numbers(&w.disk)));
  rt.shutdown_background();
  let _ = std::fs::remove_dir_all(&dir);
}
