//! Screenshot requests (C41); periodic reports and the events listener (C42).
use bd_client_stats_store::Collector;
use bd_events::{Listener, ListenerTarget};
use bd_log_primitives::{log_level, LogInterceptor, LogType};
use bd_proto::protos::client::api::RuntimeUpdate;
use bd_proto::protos::client::runtime::runtime::{value, Value as RtValue};
use bd_proto::protos::client::runtime::Runtime;
use bd_resource_utilization::Reporter;
use bd_runtime::runtime::ConfigLoader;
use bd_session_replay::{Recorder, SESSION_REPLAY_SCREENSHOT_LOG_MESSAGE};
use bd_shutdown::{ComponentShutdown, ComponentShutdownTrigger};
use drv_kit::{arr, b, json, n, s, Log, Value};
use std::collections::HashMap;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;

static DIRS: AtomicU64 = AtomicU64::new(0);
const UNIT: Duration = Duration::from_millis(50);

struct Quiet;
impl bd_client_common::error::Reporter for Quiet {
  fn report(&self, _: &str, _: &Option<String>, _: &HashMap<std::borrow::Cow<'_, str>, std::borrow::Cow<'_, str>>) {}
}

#[derive(Clone, Default)]
struct Target {
  shots: Arc<AtomicI64>,
  ticks: Arc<AtomicI64>,
  calls: Arc<Mutex<Vec<&'static str>>>,
}
impl bd_session_replay::Target for Target {
  fn capture_screen(&self) {
    self.ticks.fetch_add(1, Ordering::SeqCst);
  }
  fn capture_screenshot(&self) {
    self.shots.fetch_add(1, Ordering::SeqCst);
  }
}
impl bd_resource_utilization::Target for Target {
  fn tick(&self) {
    self.ticks.fetch_add(1, Ordering::SeqCst);
  }
}
impl ListenerTarget for Target {
  fn start(&self) {
    self.calls.lock().unwrap().push("start");
  }
  fn stop(&self) {
    self.calls.lock().unwrap().push("stop");
  }
}

/// The component under test, kept across cancelled runs.
enum Part {
  Recorder(Recorder),
  Reporter(Reporter),
  Listener(Listener),
}
impl Part {
  fn run(&mut self, shutdown: ComponentShutdown) -> Pin<Box<dyn Future<Output = ()> + Send + '_>> {
    match self {
      Self::Recorder(r) => Box::pin(r.run_with_shutdown(shutdown)),
      Self::Reporter(r) => Box::pin(r.run_with_shutdown(shutdown)),
      Self::Listener(l) => Box::pin(l.run_with_shutdown(shutdown)),
    }
  }
}

struct Runner {
  part: Option<Arc<tokio::sync::Mutex<Part>>>,
  task: Option<tokio::task::JoinHandle<()>>,
  trigger: Option<ComponentShutdownTrigger>,
}
impl Runner {
  fn new(part: Part) -> Self {
    let mut r = Self { part: Some(Arc::new(tokio::sync::Mutex::new(part))), task: None, trigger: Some(ComponentShutdownTrigger::default()) };
    r.start();
    r
  }
  fn start(&mut self) {
    let (part, shutdown) = (self.part.clone().unwrap(), self.trigger.as_ref().unwrap().make_shutdown());
    self.task = Some(tokio::spawn(async move { part.lock().await.run(shutdown).await }));
  }
  async fn restart(&mut self) {
    if let Some(t) = self.task.take() {
      t.abort();
      let _ = t.await;
    }
    if self.part.is_some() {
      self.start();
    }
  }
  async fn stop(&mut self) {
    if let Some(t) = self.trigger.take() {
      t.shutdown().await;
      self.task.take().unwrap().await.unwrap();
      self.part = None;
    }
  }
  fn check(&self) {
    if let Some(t) = &self.task {
      assert!(!t.is_finished(), "the task ended by itself");
    }
  }
}

async fn settle() {
  for _ in 0 .. 40 {
    tokio::task::yield_now().await;
  }
}

fn set(loader: &ConfigLoader, bools: &[(&str, bool)], ints: &[(&str, i64)]) {
  let mut values: HashMap<String, RtValue> = HashMap::new();
  for (k, v) in bools {
    values.insert((*k).into(), RtValue { type_: Some(value::Type::BoolValue(*v)), ..Default::default() });
  }
  for (k, v) in ints {
    values.insert((*k).into(), RtValue { type_: Some(value::Type::UintValue(u32::try_from(*v).unwrap())), ..Default::default() });
  }
  loader.update_snapshot(&RuntimeUpdate {
    version_nonce: "1".into(),
    runtime: Some(Runtime { values, ..Default::default() }).into(),
    ..Default::default()
  });
}

fn loader() -> Arc<ConfigLoader> {
  let dir = drv_kit::scratch().join(format!("platform{}", DIRS.fetch_add(1, Ordering::SeqCst)));
  std::fs::create_dir_all(&dir).unwrap();
  ConfigLoader::new(&dir)
}

async fn shots(test: &Value, log: &Log) {
  let loader = loader();
  let set = |on| set(&loader, &[("session_replay.screenshots.enabled", on)], &[]);
  set(b(&test["cfg"], "on"));
  let collector = Collector::default();
  let target = Target::default();
  let (recorder, handler, interceptor) = Recorder::new(Box::new(target.clone()), &loader, &collector.scope("x"));
  let mut runner = Runner::new(Part::Recorder(recorder));
  for op in arr(test, "ops") {
    match s(op, "op").as_str() {
      "request" => handler.capture_screenshot(),
      "log" => {
        let (ty, msg) = match s(op, "kind").as_str() {
          "shot" => (LogType::Replay, SESSION_REPLAY_SCREENSHOT_LOG_MESSAGE.into()),
          "screen" => (LogType::Replay, "Screen captured".into()),
          "type" => (LogType::Normal, SESSION_REPLAY_SCREENSHOT_LOG_MESSAGE.into()),
          _ => (LogType::Replay, SESSION_REPLAY_SCREENSHOT_LOG_MESSAGE.as_bytes().to_vec().into()),
        };
        interceptor.process(log_level::INFO, ty, &msg, &mut vec![]);
      },
      "set" => set(b(op, "on")),
      "run" => settle().await,
      "restart" => runner.restart().await,
      _ => runner.stop().await,
    }
    runner.check();
    let get = |name: &str, ty: Option<&str>| {
      let labels = ty.map(|t| ("type".to_string(), t.to_string())).into_iter().collect();
      collector.inner().find_counter(&format!("x:screenshots:{name}"), labels).map_or(-1, |c| i64::try_from(c.get()).unwrap())
    };
    let req = |t| get("requests_total", Some(t));
    log.op(op, json!({"success": req("success"), "full": req("channel_full"), "disabled": req("disabled"), "notready": req("not_ready"),
                      "received": get("received_total", None), "calls": target.shots.load(Ordering::SeqCst)}));
  }
}

async fn reports(test: &Value, log: &Log) {
  let loader = loader();
  let cfg = &test["cfg"];
  let kind = s(cfg, "kind");
  let (mut on, mut per) = (b(cfg, "on"), n(cfg, "per"));
  let set = |on, per: i64| match kind.as_str() {
    "resource" => set(&loader, &[("resource_utilization.enabled", on)], &[("resource_utilization.reporting_interval_ms", per * 50)]),
    "screens" => set(&loader, &[("session_replay.screens.enabled", on)], &[("session_replay.screens.interval_ms", per * 50)]),
    _ => set(&loader, &[("platform_events.enabled", on)], &[]),
  };
  set(on, per);
  let target = Target::default();
  let mut keep = None;
  let part = match kind.as_str() {
    "resource" => Part::Reporter(Reporter::new(Box::new(target.clone()), &loader)),
    "screens" => {
      let (r, h, i) = Recorder::new(Box::new(target.clone()), &loader, &Collector::default().scope("x"));
      keep = Some((h, i));
      Part::Recorder(r)
    },
    _ => Part::Listener(Listener::new(Box::new(target.clone()), &loader)),
  };
  let mut runner = Runner::new(part);
  for op in arr(test, "ops") {
    match s(op, "op").as_str() {
      "set" => {
        on = b(op, "on");
        set(on, per);
      },
      "rate" => {
        per = n(op, "per");
        set(on, per);
      },
      "wait" => {
        settle().await;
        for _ in 0 .. n(op, "k") {
          tokio::time::sleep(UNIT).await;
          settle().await;
        }
      },
      "restart" => runner.restart().await,
      _ => runner.stop().await,
    }
    runner.check();
    let calls = std::mem::take(&mut *target.calls.lock().unwrap());
    log.op(op, json!({"n": target.ticks.swap(0, Ordering::SeqCst), "call": calls.join("+")}));
  }
  drop(keep);
}

fn main() {
  let mode = std::env::args().nth(3).unwrap_or_default();
  drv_kit::main(move |test, log| {
    bd_client_common::error::UnexpectedErrorHandler::set_reporter(Arc::new(Quiet));
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap();
    if mode == "shots" { rt.block_on(shots(test, log)) } else { rt.block_on(reports(test, log)) }
  });
}
