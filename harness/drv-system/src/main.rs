//! The whole SDK behind the public logger handle, against a server (C43).
#[allow(dead_code)]
#[path = "../../drv-workflows/src/build.rs"]
mod build;
mod server;

use bd_client_common::error::UnexpectedErrorHandler;
use bd_log_metadata::AnnotatedLogFields;
use bd_log_primitives::{log_level, AnnotatedLogField, LogField, LogFieldKind, LogLevel, LogMessage, StringOrBytes};
use bd_logger::{
  AppVersionExtra, InitParams, LogAttributesOverridesPreviousRunSessionID, LogType, Logger, LoggerBuilder, LoggerHandle, MetadataProvider,
};
use drv_kit::{arr, b, json, n, s, Log, Value};
use server::{Meta, Server};
use std::collections::HashMap;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use time::OffsetDateTime;

static DIRS: AtomicU64 = AtomicU64::new(0);
const BASE: i64 = 1_700_000_000;
const THEN: i64 = 1_600_000_000;

struct Quiet;
impl bd_client_common::error::Reporter for Quiet {
  fn report(&self, _: &str, _: &Option<String>, _: &HashMap<std::borrow::Cow<'_, str>, std::borrow::Cow<'_, str>>) {}
}

struct NoTarget;
impl bd_session_replay::Target for NoTarget {
  fn capture_screen(&self) {}
  fn capture_screenshot(&self) {}
}
impl bd_resource_utilization::Target for NoTarget {
  fn tick(&self) {}
}
impl bd_events::ListenerTarget for NoTarget {
  fn start(&self) {}
  fn stop(&self) {}
}

struct Ids(Arc<AtomicU64>);
impl bd_session::fixed::Callbacks for Ids {
  fn generate_session_id(&self) -> anyhow::Result<String> {
    Ok(format!("s{}", self.0.fetch_add(1, Ordering::SeqCst) + 1))
  }
}

/// What the application provides for every log; calls back into the logger when told to.
#[derive(Default)]
struct App {
  now: AtomicU64,
  meddle: Mutex<Option<Arc<LoggerHandle>>>,
}
struct Provider(Arc<App>);

/// The time at which log number i is made.
fn at(i: i64) -> OffsetDateTime {
  OffsetDateTime::from_unix_timestamp_nanos((BASE + i) as i128 * 1_000_000_000 + (i * 123_457 % 1_000_000_000) as i128).unwrap()
}

impl MetadataProvider for Provider {
  fn timestamp(&self) -> anyhow::Result<OffsetDateTime> {
    Ok(at(self.0.now.load(Ordering::SeqCst) as i64))
  }
  fn fields(&self) -> anyhow::Result<AnnotatedLogFields> {
    if let Some(h) = self.0.meddle.lock().unwrap().take() {
      h.log(log_level::ERROR, LogType::Normal, "a".into(), vec![field("i", "-7")], vec![], None, false);
      h.log_sdk_start(vec![], time::Duration::ZERO);
      h.add_log_field(LogField { key: "g".to_string(), value: "77".to_string().into() });
      h.remove_log_field("g");
      h.start_new_session();
    }
    Ok(vec![field("app", "x"), custom("theirs", "y")])
  }
}

fn field(key: &str, v: &str) -> AnnotatedLogField {
  AnnotatedLogField { field: LogField { key: key.to_string(), value: v.to_string().into() }, kind: LogFieldKind::Ootb }
}
fn custom(key: &str, v: &str) -> AnnotatedLogField {
  AnnotatedLogField { kind: LogFieldKind::Custom, ..field(key, v) }
}
fn bytes(i: i64) -> Vec<u8> {
  (0 ..= i as u8 % 9).map(|x| x.wrapping_mul(37) ^ 0x80).collect()
}

/// Parts of log number i that vary with it.
pub struct Shape {
  pub level: LogLevel,
  pub ty: LogType,
}
fn shape(i: i64) -> Shape {
  let types = [LogType::Normal, LogType::Span, LogType::View, LogType::Device, LogType::Lifecycle];
  Shape { level: (i % 5) as LogLevel, ty: types[i as usize * 3 % 5] }
}
fn version(v: i64) -> (String, AppVersionExtra) {
  let extra = if v % 2 == 1 { AppVersionExtra::AppVersionCode(v * 1000) } else { AppVersionExtra::BuildNumber(format!("{v}.b")) };
  (format!("{v}.0"), extra)
}
fn took(i: i64) -> time::Duration {
  time::Duration::milliseconds(i) + time::Duration::microseconds(500)
}

/// What a record that reached the server says about itself; "bad" if it is not what was logged.
fn record(data: &[u8]) -> Value {
  let Ok(log) = bd_client_common::fb::root_as_log(data) else { return json!("unreadable") };
  let mut fields: HashMap<&str, StringOrBytes<&str, &[u8]>> = HashMap::new();
  for f in log.fields().iter().flatten() {
    let v = match (f.value_as_string_data(), f.value_as_binary_data()) {
      (Some(d), _) => StringOrBytes::String(d.data()),
      (_, Some(d)) => StringOrBytes::Bytes(d.data().bytes()),
      _ => return json!("field without a value"),
    };
    if fields.insert(f.key(), v).is_some() {
      return json!(format!("two fields {}", f.key()));
    }
  }
  let text = |fields: &mut HashMap<&str, StringOrBytes<&str, &[u8]>>, k: &str| match fields.remove(k) {
    Some(StringOrBytes::String(t)) => Some(t.to_string()),
    Some(_) => Some("bytes".to_string()),
    None => None,
  };
  let Some(i) = text(&mut fields, "i").and_then(|x| x.parse::<i64>().ok()) else { return json!("no number") };
  let g = text(&mut fields, "g").map_or(0, |x| x.parse().unwrap_or(-1));
  let se = log.session_id().and_then(|x| x.strip_prefix('s')).and_then(|x| x.parse::<i64>().ok()).unwrap_or(-1);
  let acts: Vec<&str> = log.workflow_action_ids().iter().flatten().collect();
  let off = match text(&mut fields, "_network_quality").as_deref() {
    None => false,
    Some("offline") => true,
    Some(_) => return json!("network quality"),
  };
  let app = text(&mut fields, "app");
  let theirs = text(&mut fields, "theirs");
  let ms = text(&mut fields, "_duration_ms");
  let sdk = text(&mut fields, "_sdk_version");
  let message = log.message_as_string_data().map(|m| m.data().to_string());
  let raw = log.message_as_binary_data().map(|m| m.data().bytes().to_vec());
  let mut pv = 0;
  let duration = || Some((took(i).as_seconds_f64() * 1000.0).to_string());
  let (k, level, ty, plain) = match (log.log_type(), message.as_deref()) {
    (LogType::Resource, Some("")) => ("res", log_level::DEBUG, LogType::Resource, false),
    (LogType::Replay, Some("Screen captured")) => ("screen", log_level::INFO, LogType::Replay, false),
    (LogType::Replay, Some(m)) if m == bd_session_replay::SESSION_REPLAY_SCREENSHOT_LOG_MESSAGE => ("shot", log_level::INFO, LogType::Replay, false),
    (LogType::Lifecycle, Some("SDKConfigured")) => ("sdk", log_level::INFO, LogType::Lifecycle, true),
    (LogType::Lifecycle, Some("AppUpdated")) => ("upd", log_level::INFO, LogType::Lifecycle, true),
    (_, None) => ("y", shape(i).level, shape(i).ty, true),
    _ if fields.contains_key("_logged_at") => ("p", shape(i).level, shape(i).ty, true),
    _ => ("n", shape(i).level, shape(i).ty, true),
  };
  let bad = |t: &str| json!(format!("log {i} ({k}): {t}"));
  if (log.log_level(), log.log_type()) != (level, ty) {
    return bad("level or type");
  }
  if (app.as_deref(), theirs.as_deref()) != if plain { (Some("x"), Some("y")) } else { (None, None) } {
    return bad("fields of the application");
  }
  if ms != if matches!(k, "n" | "y" | "p") { None } else { duration() } || sdk.as_deref() != (k == "sdk").then_some("1.2.3") {
    return bad("duration or version");
  }
  match k {
    "n" | "y" | "p" => {
      if k == "y" && raw != Some(bytes(i)) {
        return bad("message");
      }
      if fields.remove("bin") != Some(StringOrBytes::Bytes(&bytes(i))) || text(&mut fields, "text") != Some(format!("v\u{e9}{i}")) {
        return bad("own fields");
      }
      if k == "p" && text(&mut fields, "_logged_at") != Some(at(i).to_string()) {
        return bad("logged at");
      }
    },
    "upd" => {
      pv = text(&mut fields, "_previous_app_version").and_then(|x| x.strip_suffix(".0").and_then(|x| x.parse().ok())).unwrap_or(-1);
      let (name, extra) = match version(pv).1 {
        AppVersionExtra::AppVersionCode(c) => ("_previous_app_version_code", c.to_string()),
        AppVersionExtra::BuildNumber(t) => ("_previous_build_number", t),
      };
      if text(&mut fields, name) != Some(extra) || text(&mut fields, "_app_install_size_bytes") != (i % 2 == 0).then(|| (i * 10).to_string()) {
        return bad("app update");
      }
    },
    _ => (),
  }
  // Usage figures belong to resource logs; they are C33's and C41's.
  if k == "res" {
    fields.retain(|f, _| !f.starts_with('_'));
  }
  if !fields.is_empty() {
    return bad(&format!("unexpected fields {:?}", fields.keys().collect::<Vec<_>>()));
  }
  let when = if k == "p" { OffsetDateTime::from_unix_timestamp(THEN + i).unwrap() } else { at(i) };
  let stamp = log.timestamp().map(|t| i128::from(t.seconds()) * 1_000_000_000 + i128::from(t.nanos()));
  if stamp != Some(when.unix_timestamp_nanos()) {
    return bad("time");
  }
  if !(acts.is_empty() || acts == ["A"]) || log.stream_ids().is_some_and(|x| !x.is_empty()) {
    return bad("actions");
  }
  let tag = if k == "n" { message.unwrap_or_default() } else { k.to_string() };
  json!({"i": i, "k": k, "tag": tag, "g": g, "se": se, "off": off, "f": !acts.is_empty(), "pv": pv})
}

struct Process {
  logger: Arc<Logger>,
  handle: Arc<LoggerHandle>,
  session: Arc<bd_session::Strategy>,
  task: tokio::task::JoinHandle<anyhow::Result<()>>,
}

struct World {
  dir: PathBuf,
  store: drv_store::Fake,
  ids: Arc<AtomicU64>,
  app: Arc<App>,
  server: Arc<Server>,
  p: Option<Process>,
  i: i64,
}

fn launch(dir: &Path, w: &World) -> Process {
  let store = w.store.store();
  let session = Arc::new(bd_session::Strategy::Fixed(bd_session::fixed::Strategy::new(store.clone(), Arc::new(Ids(w.ids.clone())))));
  let (logger, _data, future) = LoggerBuilder::new(InitParams {
    sdk_directory: dir.to_path_buf(),
    api_key: "key".to_string(),
    session_strategy: session.clone(),
    store: store.clone(),
    metadata_provider: Arc::new(Provider(w.app.clone())),
    resource_utilization_target: Box::new(NoTarget),
    session_replay_target: Box::new(NoTarget),
    events_listener_target: Box::new(NoTarget),
    device: Arc::new(bd_device::Device::new(store)),
    network: w.server.network(),
    platform: bd_api::Platform::Ios,
    static_metadata: Arc::new(Meta),
  })
  .with_mobile_features(true)
  .build()
  .unwrap();
  let handle = Arc::new(logger.new_logger_handle());
  Process { logger: Arc::new(logger), handle, session, task: tokio::task::spawn_local(future) }
}

impl World {
  /// Everything asked for so far has been done, and as much time has passed as deliveries may take.
  async fn settle(&mut self) {
    if let Some(p) = &self.p {
      // the loop has been through everything in its queue
      let h = p.handle.clone();
      tokio::time::sleep(Duration::from_millis(10)).await;
      tokio::task::spawn_blocking(move || h.flush_state(true)).await.unwrap();
    }
    for _ in 0 .. 4 {
      tokio::time::sleep(Duration::from_secs(40)).await;
      tokio::task::spawn_blocking(|| ()).await.unwrap();
    }
  }

  async fn result(&mut self, r: Value) -> Value {
    self.settle().await;
    let mut got = self.server.take();
    if let Some(p) = &self.p {
      if p.task.is_finished() {
        got["ack"] = json!("the SDK has ended");
      }
      let id = p.handle.session_id();
      got["sid"] = json!(id.strip_prefix('s').and_then(|x| x.parse::<i64>().ok()).unwrap_or(-1));
      got["dev"] = json!(p.handle.device_id() == self.store.store_device());
    }
    got["r"] = r;
    got
  }

  async fn end(&mut self, how: &str) {
    let Some(p) = self.p.take() else { return };
    if how == "stop" {
      let l = p.logger.clone();
      tokio::task::spawn_blocking(move || l.shutdown(true)).await.unwrap();
      p.task.await.unwrap().unwrap();
    } else {
      p.task.abort();
      let _ = p.task.await;
    }
    tokio::time::sleep(Duration::from_millis(1)).await;
  }

  fn number(&mut self) -> i64 {
    self.i += 1;
    self.app.now.store(self.i as u64, Ordering::SeqCst);
    self.i
  }
}

trait DeviceId {
  fn store_device(&self) -> String;
}
impl DeviceId for drv_store::Fake {
  /// The identity a fresh reader of the same storage sees.
  fn store_device(&self) -> String {
    bd_device::Device::new(self.store()).id()
  }
}

fn test(test: &Value, log: &Log) {
  UnexpectedErrorHandler::set_reporter(Arc::new(Quiet));
  let dir = drv_kit::scratch().join(format!("sys{}", DIRS.fetch_add(1, Ordering::SeqCst)));
  std::fs::create_dir_all(&dir).unwrap();
  let confs: Vec<Value> = std::env::args().nth(4).map_or(vec![], |t| t.parse::<Value>().unwrap().as_array().unwrap().clone());
  let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap();
  let local = tokio::task::LocalSet::new();
  local.block_on(&rt, async {
    let mut w = World {
      dir: dir.clone(),
      store: drv_store::Fake::default(),
      ids: Arc::default(),
      app: Arc::default(),
      server: Server::new(),
      p: None,
      i: 0,
    };
    for op in arr(test, "ops") {
      let mut r = json!(null);
      match s(op, "op").as_str() {
        "start" => {
          w.end(&s(op, "how")).await;
          w.server.net(b(op, "net"));
          let p = launch(&w.dir, &w);
          r = json!(p.handle.session_id());
          w.p = Some(p);
        },
        "net" => {
          w.server.net(b(op, "up"));
          // attempts to connect may be far apart
          for _ in 0 .. 200 {
            if !b(op, "up") || w.server.connected() {
              break;
            }
            tokio::time::sleep(Duration::from_secs(60)).await;
          }
        },
        "conf" => {
          let i = n(op, "i");
          w.server.configure(confs.get(i as usize - 1), i);
        },
        "ask" => w.server.ask(&build::text(&op["ids"])),
        "log" => {
          let tags = build::text(&op["tags"]);
          for (x, tag) in tags.iter().enumerate() {
            let i = w.number();
            let p = w.p.as_ref().unwrap();
            let k = s(op, "k");
            if b(op, "ins") {
              *w.app.meddle.lock().unwrap() = Some(p.handle.clone());
            }
            let msg = if k == "y" { LogMessage::Bytes(bytes(i)) } else { LogMessage::String(tag.clone()) };
            let fields = vec![
              field("i", &i.to_string()),
              custom("text", &format!("v\u{e9}{i}")),
              AnnotatedLogField { field: LogField { key: "bin".to_string(), value: StringOrBytes::Bytes(bytes(i)) }, kind: LogFieldKind::Custom },
            ];
            let over = (k == "p").then(|| LogAttributesOverridesPreviousRunSessionID {
              expected_previous_process_session_id: p.session.previous_process_session_id().unwrap_or_default(),
              occurred_at: OffsetDateTime::from_unix_timestamp(THEN + i).unwrap(),
            });
            let (h, sh, blk) = (p.handle.clone(), shape(i), b(op, "blk"));
            let call = move || h.log(sh.level, sh.ty, msg, fields, vec![], over, blk);
            if blk {
              tokio::task::spawn_blocking(call).await.unwrap();
            } else {
              call();
              // times are told apart, so the loop takes up one log before the next
              if x + 1 < tags.len() {
                tokio::time::sleep(Duration::from_millis(1)).await;
              }
            }
          }
        },
        "call" => {
          let i = w.number();
          let h = w.p.as_ref().unwrap().handle.clone();
          let f = vec![field("i", &i.to_string())];
          match s(op, "k").as_str() {
            "res" => h.log_resource_utilization(f, took(i)),
            "screen" => h.log_session_replay_screen(f, took(i)),
            "shot" => h.log_session_replay_screenshot(f, took(i)),
            _ => h.log_sdk_start(f, took(i)),
          }
        },
        "upd" => {
          let i = w.number();
          let h = w.p.as_ref().unwrap().handle.clone();
          let (v, x) = version(n(op, "v"));
          let (v2, x2) = version(n(op, "v"));
          r = json!(if h.should_log_app_update(v, x) { "yes" } else { "no" });
          h.log_app_update(v2, x2, (i % 2 == 0).then_some(i as u64 * 10), vec![field("i", &i.to_string())], took(i));
        },
        "field" => {
          let h = &w.p.as_ref().unwrap().handle;
          match n(op, "v") {
            0 => h.remove_log_field("g"),
            v => h.add_log_field(LogField { key: "g".to_string(), value: v.to_string().into() }),
          }
        },
        "session" => w.p.as_ref().unwrap().handle.start_new_session(),
        o => panic!("unknown operation {o}"),
      }
      if r.is_null() || s(op, "op") == "start" {
        r = json!("ok");
      }
      let res = w.result(r).await;
      log.op(op, res);
    }
    w.end("stop").await;
  });
  drop(rt);
  let _ = std::fs::remove_dir_all(&dir);
}

fn main() {
  drv_kit::main(test);
}
