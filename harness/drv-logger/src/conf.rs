//! The remote configuration (C36).
use crate::pipe::Quiet;
use crate::rate;
use bd_buffer::{BufferEventWithResponse, Manager};
use bd_client_stats_store::Collector;
use bd_logger::verif::{Remote, Update, Updates};
use bd_proto::protos::bdtail::bdtail_config::{BdTailConfigurations, BdTailStream};
use bd_proto::protos::client::api::api_request::Request_type;
use bd_proto::protos::client::api::api_response::Response_type;
use bd_proto::protos::client::api::configuration_update::{StateOfTheWorld, Update_type};
use bd_proto::protos::client::api::{ApiRequest, ApiResponse, ConfigurationUpdate, PongResponse};
use bd_proto::protos::config::v1::config as c2;
use bd_proto::protos::config::v1::config::buffer_config;
use bd_proto::protos::filter::filter as pf;
use bd_proto::protos::log_matcher::log_matcher::LogMatcher;
use bd_proto::protos::workflow::workflow::WorkflowsConfiguration;
use bd_runtime::runtime::ConfigLoader;
use crate::pipe::build::{any_of, text, workflow};
use drv_kit::{arr, b, json, n, s, Log, Value};
use protobuf::Message;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;

static DIRS: AtomicU64 = AtomicU64::new(0);

fn update(c: &Value, v: i64) -> ConfigurationUpdate {
  let buffer = |e: &Value| c2::BufferConfig {
    name: s(e, "id"),
    id: s(e, "id").into(),
    type_: match (s(e, "bad").as_str(), s(e, "t").as_str()) {
      ("type", _) => protobuf::EnumOrUnknown::from_i32(77),
      (_, "c") => buffer_config::Type::CONTINUOUS.into(),
      _ => buffer_config::Type::TRIGGER.into(),
    },
    buffer_sizes: Some(buffer_config::BufferSizes {
      volatile_buffer_size_bytes: if s(e, "bad") == "size" { 1000 } else { 200 },
      non_volatile_buffer_size_bytes: 400,
      ..Default::default()
    })
    .into(),
    filters: text(&e["tags"])
      .into_iter()
      .map(|t| c2::buffer_config::BufferFilter { id: t.clone().into(), filter: Some(crate::pipe::exactly(t)).into(), ..Default::default() })
      .chain((s(e, "bad") == "sel").then(|| c2::buffer_config::BufferFilter {
        filter: Some(c2::LogMatcher::default()).into(),
        ..Default::default()
      }))
      .collect(),
    ..Default::default()
  };
  let matcher = |e: &Value| if b(e, "ok") { any_of(&text(&e["tags"])) } else { LogMatcher::default() };
  let sow = StateOfTheWorld {
    buffer_config_list: Some(c2::BufferConfigList { buffer_config: arr(c, "bufs").iter().map(buffer).collect(), ..Default::default() }).into(),
    workflows_configuration: Some(WorkflowsConfiguration {
      workflows: arr(c, "wfs")
        .iter()
        .map(|w| {
          let one = json!({"m": ["a"], "n": 1, "to": 2, "ext": [], "acts": [{"k": "m", "id": "m", "tags": [], "v": 1}]});
          let st = if b(w, "ok") { json!([[one], []]) } else { json!([]) };
          workflow(&json!({"id": w["id"], "excl": true, "lim": 0, "dur": 0, "st": st}))
        })
        .collect(),
      ..Default::default()
    })
    .into(),
    bdtail_configuration: Some(BdTailConfigurations {
      active_streams: arr(c, "streams")
        .iter()
        .map(|e| BdTailStream { stream_id: s(e, "id").into(), matcher: Some(matcher(e)).into(), ..Default::default() })
        .collect(),
      ..Default::default()
    })
    .into(),
    filters_configuration: Some(pf::FiltersConfiguration {
      filters: arr(c, "filts")
        .iter()
        .map(|e| pf::Filter { matcher: Some(matcher(e)).into(), transforms: vec![crate::pipe::mark()], ..Default::default() })
        .collect(),
      ..Default::default()
    })
    .into(),
    ..Default::default()
  };
  ConfigurationUpdate {
    version_nonce: v.to_string(),
    update_type: b(c, "some").then(|| Update_type::StateOfTheWorld(sow)),
    ..Default::default()
  }
}

struct World {
  dir: PathBuf,
  loader: Arc<ConfigLoader>,
  collector: Collector,
  mgr: Arc<Manager>,
  events: tokio::sync::mpsc::Receiver<BufferEventWithResponse>,
  remote: Remote,
  updates: Updates,
  /// What the logging loop uses.
  current: Option<Update>,
  counts: [i64; 2],
}

fn start(dir: &Path, wf: bool) -> World {
  let loader = ConfigLoader::new(dir);
  loader.update_snapshot(&rate::flag("workflows.enabled", wf));
  let collector = Collector::default();
  let (mgr, events) = Manager::new(dir.join("buffers"), &collector.scope(""), &loader);
  let (remote, updates) = Remote::new(dir, mgr.clone(), &loader, &collector.scope(""));
  World { dir: dir.to_path_buf(), loader, collector, mgr, events, remote, updates, current: None, counts: [0; 2] }
}

fn number(t: &str) -> i64 {
  if t.is_empty() { 0 } else { t.parse().unwrap_or(-1) }
}

impl World {
  fn restart(self, wf: bool) -> Self {
    let dir = self.dir.clone();
    drop(self);
    start(&dir, wf)
  }

  fn count(&mut self) -> [i64; 2] {
    let get = |names: &[&str]| {
      names.iter().map(|x| self.collector.inner().find_counter(x, BTreeMap::new()).map_or(0, |c| c.get() as i64)).sum::<i64>()
    };
    let now = [get(&["config:cache_failure"]), get(&["config:stream_config_parse_failure", "config:filter_config_parse_failure"])];
    let d = [now[0] - self.counts[0], now[1] - self.counts[1]];
    self.counts = now;
    d
  }

  /// The answer, and whether it was given.
  async fn drive(&mut self, r: Option<&ApiResponse>, stop: &str) -> Option<Option<ApiRequest>> {
    let _busy = if stop == "send" { self.updates.busy() } else { None };
    let remote = &mut self.remote;
    let events = &mut self.events;
    let fut = async move {
      match r {
        Some(r) => remote.apply(r).await,
        None => {
          remote.load().await;
          None
        },
      }
    };
    tokio::pin!(fut);
    let mut held = vec![];
    let mut idle = 0;
    loop {
      tokio::select! {
        biased;
        x = &mut fut => return Some(x),
        e = events.recv() => {
          idle = 0;
          if stop == "events" {
            held.push(e);
          }
        },
        () = tokio::task::yield_now() => {
          idle += 1;
          if idle > 20 {
            return None;
          }
        },
      }
    }
  }

  fn result(&mut self, sent: &BTreeMap<i64, (i64, ConfigurationUpdate)>, ack: Option<ApiRequest>) -> Value {
    let [miss, left] = self.count();
    let mut upd = vec![];
    while let Some(u) = self.updates.next() {
      let per = |f: &dyn Fn(&str) -> Value| json!({"a": f("a"), "b": f("b")});
      let mut all: Vec<String> = u.continuous().into_iter().chain(u.trigger()).collect();
      all.sort();
      let mut have = u.producers();
      have.sort();
      upd.push(if all == have {
        json!({"cont": u.continuous(), "trig": u.trigger(), "sel": per(&|t| json!(u.selected(t))), "tail": per(&|t| json!(u.streams(t))), "wf": u.workflows(),
          "filt": per(&|t| json!(u.filtered(t))), "left": left})
      } else {
        json!("producers differ")
      });
      self.current = Some(u);
    }
    let ack: Vec<Value> = ack
      .into_iter()
      .map(|r| match r.request_type {
        Some(Request_type::ConfigurationUpdateAck(a)) => {
          let nack = a.nack.into_option();
          // A rejection names its reason.
          let no = nack.as_ref().map_or(0, |x| if x.error_details.is_empty() { -1 } else { number(&x.version_nonce) });
          json!({"ok": nack.is_none(), "last": number(&a.last_applied_version_nonce), "no": no})
        },
        _ => json!("?"),
      })
      .collect();
    let file = self.dir.join("config.pb");
    let disk = match std::fs::read(&file) {
      _ if file.is_dir() => ("dir", 0),
      Err(_) => ("none", 0),
      Ok(d) => match ConfigurationUpdate::parse_from_bytes(&d) {
        Ok(u) if sent.get(&number(&u.version_nonce)).is_some_and(|x| x.1 == u) => ("full", number(&u.version_nonce)),
        _ => ("junk", 0),
      },
    };
    json!({"ack": ack, "upd": upd, "hs": number(&self.remote.handshake().configuration_version_nonce),
      "bufs": self.mgr.buffers().keys().collect::<BTreeSet<_>>(), "live": self.mgr.stream_buffer().is_some(), "miss": miss,
      "disk": {"k": disk.0, "v": disk.1}})
  }
}

pub fn test(test: &Value, log: &Log, confs: &[Value]) {
  bd_client_common::error::UnexpectedErrorHandler::set_reporter(Arc::new(Quiet));
  let dir = drv_kit::scratch().join(format!("conf{}", DIRS.fetch_add(1, Ordering::SeqCst)));
  std::fs::create_dir_all(dir.join("buffers")).unwrap();
  let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
  rt.block_on(async {
    let mut wf = b(&test["cfg"], "wf");
    let mut w = start(&dir, wf);
    let file = dir.join("config.pb");
    let mut v = 0;
    let mut sent: BTreeMap<i64, (i64, ConfigurationUpdate)> = BTreeMap::new();
    for op in arr(test, "ops") {
      let mut ack = None;
      let response = |u| ApiResponse { response_type: Some(Response_type::ConfigurationUpdate(u)), ..Default::default() };
      match s(op, "op").as_str() {
        "apply" => {
          v += 1;
          let u = update(&confs[n(op, "i") as usize - 1], v);
          sent.insert(v, (n(op, "i"), u.clone()));
          let Some(a) = w.drive(Some(&response(u)), "").await else { panic!("stuck") };
          ack = Some(a);
        },
        "other" => {
          let r = ApiResponse { response_type: Some(Response_type::Pong(PongResponse::default())), ..Default::default() };
          ack = w.drive(Some(&r), "").await;
        },
        "load" => {
          let Some(_) = w.drive(None, "").await else { panic!("stuck") };
        },
        "crash" => {
          let at = s(op, "at");
          if n(op, "i") == 0 {
            w.drive(None, &at).await;
          } else {
            v += 1;
            let u = update(&confs[n(op, "i") as usize - 1], v);
            sent.insert(v, (n(op, "i"), u.clone()));
            w.drive(Some(&response(u)), &at).await;
          }
          w = w.restart(wf);
        },
        "restart" => w = w.restart(wf),
        "damage" => {
          let d = std::fs::read(&file).unwrap();
          let d = match s(op, "how").as_str() {
            "cut" => d[.. d.len() - 1].to_vec(),
            "head" => d[.. 3].to_vec(),
            "empty" => vec![],
            _ => b"not a proto".to_vec(),
          };
          std::fs::write(&file, d).unwrap();
        },
        "lose" => {
          if file.is_dir() {
            std::fs::remove_dir(&file).unwrap();
          } else {
            std::fs::remove_file(&file).unwrap();
          }
        },
        "block" => std::fs::create_dir(&file).unwrap(),
        "flag" => {
          wf = !wf;
          w.loader.update_snapshot(&rate::flag("workflows.enabled", wf));
        },
        o => panic!("{o}"),
      }
      let r = w.result(&sent, ack.flatten());
      log.op(op, r);
    }
  });
  let _ = std::fs::remove_dir_all(&dir);
}
