//! The platform's network and a conforming server behind it.
use crate::build::workflows;
use crate::record;
use bd_api::{Platform, PlatformNetworkManager, PlatformNetworkStream, StreamEvent, StreamEventSender};
use bd_grpc_codec::{Compression, Decoder, Decompression, Encoder, OptimizeFor};
use bd_metadata::Metadata;
use bd_proto::protos::client::api::api_request::Request_type as Q;
use bd_proto::protos::client::api::api_response::Response_type as A;
use bd_proto::protos::client::api::configuration_update::{StateOfTheWorld, Update_type};
use bd_proto::protos::client::api::stats_upload_request::snapshot::Snapshot_type;
use bd_proto::protos::client::api::*;
use bd_proto::protos::client::metric::metric::Data as MetricKind;
use bd_proto::protos::client::runtime::runtime::{value, Value as RtValue};
use bd_proto::protos::client::runtime::Runtime;
use bd_proto::protos::config::v1::config as c2;
use bd_proto::protos::config::v1::config::buffer_config;
use bd_runtime::runtime::ConfigLoader;
use drv_kit::{arr, json, Value};
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

pub struct Meta;
impl Metadata for Meta {
  fn sdk_version(&self) -> &'static str {
    "1.2.3"
  }
  fn platform(&self) -> &Platform {
    &Platform::Ios
  }
  fn collect_inner(&self) -> HashMap<String, String> {
    HashMap::from([("app_id".to_string(), "app".to_string())])
  }
}

#[derive(Default)]
struct Inner {
  up: bool,
  serial: usize,
  tx: Option<StreamEventSender>,
  hs: Vec<Value>,
  logs: HashMap<String, Vec<Value>>,
  ack: String,
  asks: usize,
  stat: u64,
}

pub struct Server {
  w: Mutex<Inner>,
  out: tokio::sync::mpsc::UnboundedSender<(usize, Out)>,
}
enum Out {
  Message(Box<ApiResponse>),
  Close,
}

impl Server {
  pub fn new() -> Arc<Self> {
    let (out, mut rx) = tokio::sync::mpsc::unbounded_channel::<(usize, Out)>();
    let me = Arc::new(Self { w: Mutex::default(), out });
    let weak = Arc::downgrade(&me);
    tokio::task::spawn_local(async move {
      let mut enc = Encoder::<ApiResponse>::new(Some(Compression::StatelessZlib { level: 3 }));
      while let Some((serial, o)) = rx.recv().await {
        let Some(me) = weak.upgrade() else { break };
        let tx = {
          let w = me.w.lock().unwrap();
          (w.serial == serial).then(|| w.tx.clone()).flatten()
        };
        drop(me);
        let Some(tx) = tx else { continue };
        let event = match o {
          Out::Message(m) => StreamEvent::Data(enc.encode(&*m).to_vec()),
          Out::Close => StreamEvent::StreamClosed("gone".to_string()),
        };
        let _ = tx.send(event).await;
      }
    });
    me
  }

  fn send(&self, serial: usize, t: A) {
    let _ = self.out.send((serial, Out::Message(Box::new(ApiResponse { response_type: Some(t), ..Default::default() }))));
  }

  pub fn network(self: &Arc<Self>) -> Box<dyn PlatformNetworkManager<ConfigLoader>> {
    Box::new(Net(self.clone()))
  }

  pub fn net(&self, up: bool) {
    let mut w = self.w.lock().unwrap();
    if w.up && !up {
      let _ = self.out.send((w.serial, Out::Close));
    }
    w.up = up;
  }

  pub fn connected(&self) -> bool {
    !self.w.lock().unwrap().hs.is_empty()
  }

  fn now(&self) -> usize {
    self.w.lock().unwrap().serial
  }

  pub fn ask(&self, ids: &[String]) {
    self.send(self.now(), A::FlushBuffers(FlushBuffers { buffer_id_list: ids.to_vec(), ..Default::default() }));
  }

  pub fn configure(&self, c: Option<&Value>, version: i64) {
    self.send(self.now(), A::ConfigurationUpdate(configuration(c, version)));
  }

  /// What arrived since the last call.
  pub fn take(&self) -> Value {
    let mut w = self.w.lock().unwrap();
    let mut logs = std::mem::take(&mut w.logs);
    let (c, t) = (logs.remove("c").unwrap_or_default(), logs.remove("t").unwrap_or_default());
    let ack = if logs.is_empty() { std::mem::take(&mut w.ack) } else { format!("buffers {:?}", logs.keys()) };
    json!({"c": c, "t": t, "hs": std::mem::take(&mut w.hs), "ack": ack, "asks": std::mem::take(&mut w.asks), "stat": std::mem::take(&mut w.stat),
      "sid": 0, "dev": true})
  }

  fn received(&self, serial: usize, r: ApiRequest) {
    let mut w = self.w.lock().unwrap();
    if serial != w.serial {
      w.ack = "data on an old stream".to_string();
      return;
    }
    match r.request_type {
      Some(Q::Handshake(h)) => {
        let want = Meta.collect();
        let got: HashMap<String, String> = h.static_device_metadata.iter().map(|(k, v)| (k.clone(), v.string_data().to_string())).collect();
        if want != got {
          w.ack = "wrong metadata".to_string();
        }
        w.hs.push(json!({"conf": h.configuration_version_nonce, "rt": h.runtime_version_nonce}));
        self.send(serial, A::Handshake(HandshakeResponse::default()));
        if h.runtime_version_nonce != "r" {
          self.send(serial, A::RuntimeUpdate(runtime()));
        }
      },
      Some(Q::LogUploadIntent(x)) => {
        w.asks += 1;
        use log_upload_intent_response::{Decision, UploadImmediately};
        self.send(
          serial,
          A::LogUploadIntent(LogUploadIntentResponse {
            intent_uuid: x.intent_uuid,
            decision: Some(Decision::UploadImmediately(UploadImmediately::default())),
            ..Default::default()
          }),
        );
      },
      Some(Q::LogUpload(x)) => {
        let logs = x.logs.iter().map(|l| record(l));
        w.logs.entry(x.buffer_uuid).or_default().extend(logs);
        self.send(serial, A::LogUpload(LogUploadResponse { upload_uuid: x.upload_uuid, ..Default::default() }));
      },
      Some(Q::StatsUpload(x)) => {
        for snapshot in x.snapshot {
          let Some(Snapshot_type::Metrics(ms)) = snapshot.snapshot_type else { continue };
          for m in ms.metric {
            if let (Some(id), Some(MetricKind::Counter(c))) = (m.tags.get("_id"), &m.data) {
              w.stat += if id == "m" && m.tags.len() == 1 { c.value } else { 1_000_000 };
            }
          }
        }
        self.send(serial, A::StatsUpload(StatsUploadResponse { upload_uuid: x.upload_uuid, ..Default::default() }));
      },
      Some(Q::ConfigurationUpdateAck(a)) => {
        w.ack += &format!("{}{}", a.last_applied_version_nonce, if a.nack.is_some() { "!" } else { "" });
      },
      Some(Q::RuntimeUpdateAck(a)) => {
        if a.nack.is_some() || a.last_applied_version_nonce != "r" {
          w.ack += "runtime";
        }
      },
      Some(Q::Ping(_)) => self.send(serial, A::Pong(PongResponse::default())),
      o => w.ack += &format!("unexpected {o:?}"),
    }
  }
}

fn runtime() -> RuntimeUpdate {
  let on = |k: &str| (k.to_string(), RtValue { type_: Some(value::Type::BoolValue(true)), ..Default::default() });
  let int = |k: &str, v: u32| (k.to_string(), RtValue { type_: Some(value::Type::UintValue(v)), ..Default::default() });
  let values = HashMap::from([
    on("workflows.enabled"),
    int("stats.max_aggregated_files", 10_000),
    int("log_uploader.retry_count", 10_000),
    int("api.max_backoff_interval_ms", 2_000),
    int("api.initial_backoff_interval_ms", 500),
    int("log_uploader.max_retry_backoff_ms", 2_000),
    int("log_uploader.initial_retry_backoff_ms", 500),
  ]);
  RuntimeUpdate { version_nonce: "r".to_string(), runtime: Some(Runtime { values, ..Default::default() }).into(), ..Default::default() }
}

fn message(tag: &str) -> &str {
  match tag {
    "sdk" => "SDKConfigured",
    "upd" => "AppUpdated",
    "screen" => "Screen captured",
    "shot" => bd_session_replay::SESSION_REPLAY_SCREENSHOT_LOG_MESSAGE,
    t => t,
  }
}

/// Matches a tag; "*" matches every log.
fn matcher(tag: &str) -> c2::LogMatcher {
  use c2::log_matcher::base_log_matcher::{self, AnyMatch, MessageMatch};
  use c2::log_matcher::{BaseLogMatcher, Match_type};
  let m = match tag {
    "*" => base_log_matcher::Match_type::AnyMatch(AnyMatch::default()),
    t => base_log_matcher::Match_type::MessageMatch(MessageMatch {
      match_value: message(t).to_string(),
      ..Default::default()
    }),
  };
  c2::LogMatcher {
    match_type: Some(Match_type::BaseMatcher(BaseLogMatcher { match_type: Some(m), ..Default::default() })),
    ..Default::default()
  }
}

/// None: a configuration that cannot be used.
fn configuration(c: Option<&Value>, version: i64) -> ConfigurationUpdate {
  let bad = json!({"c": ["*"], "t": ["*"], "met": [], "fire": []});
  let ok = c.is_some();
  let c = c.unwrap_or(&bad);
  let mut buffers = vec![];
  for (id, ty) in [("c", buffer_config::Type::CONTINUOUS), ("t", buffer_config::Type::TRIGGER)] {
    if arr(c, id).is_empty() {
      continue;
    }
    buffers.push(c2::BufferConfig {
      name: id.to_string(),
      id: id.into(),
      type_: if ok { ty.into() } else { protobuf::EnumOrUnknown::from_i32(77) },
      buffer_sizes: Some(buffer_config::BufferSizes {
        volatile_buffer_size_bytes: 32 * 1024,
        non_volatile_buffer_size_bytes: 64 * 1024,
        ..Default::default()
      })
      .into(),
      filters: crate::build::text(&c[id])
        .iter()
        .map(|t| c2::buffer_config::BufferFilter { id: t.as_str().into(), filter: Some(matcher(t)).into(), ..Default::default() })
        .collect(),
      ..Default::default()
    });
  }
  let mut flows = vec![];
  for (id, key, act) in [
    ("wm", "met", json!({"k": "m", "id": "m", "tags": [], "v": 1})),
    ("wf", "fire", json!({"k": "f", "id": "A", "bufs": ["t"]})),
  ] {
    if !arr(c, key).is_empty() {
      flows.push(json!({"id": id, "excl": true, "lim": 0, "dur": 0, "st": [[{"m": crate::build::text(&c[key]).iter().map(|t| message(t)).collect::<Vec<_>>(), "n": 1, "to": 2, "ext": [], "acts": [act]}], []]}));
    }
  }
  let sow = StateOfTheWorld {
    buffer_config_list: Some(c2::BufferConfigList { buffer_config: buffers, ..Default::default() }).into(),
    workflows_configuration: Some(workflows(&flows.iter().collect::<Vec<_>>())).into(),
    bdtail_configuration: Some(Default::default()).into(),
    filters_configuration: Some(Default::default()).into(),
    ..Default::default()
  };
  ConfigurationUpdate { version_nonce: version.to_string(), update_type: Some(Update_type::StateOfTheWorld(sow)), ..Default::default() }
}

struct Net(Arc<Server>);
struct Stream {
  server: Arc<Server>,
  serial: usize,
  decoder: Decoder<ApiRequest>,
}

#[async_trait::async_trait]
impl PlatformNetworkManager<ConfigLoader> for Net {
  async fn start_stream(
    &self,
    tx: StreamEventSender,
    _: &ConfigLoader,
    headers: &HashMap<&str, &str>,
  ) -> anyhow::Result<Box<dyn PlatformNetworkStream>> {
    let mut w = self.0.w.lock().unwrap();
    if headers.get("x-bitdrift-api-key") != Some(&"key") {
      w.ack += "wrong key";
    }
    w.serial += 1;
    w.tx = Some(tx);
    if !w.up {
      // how a platform says that it cannot reach the server
      let _ = self.0.out.send((w.serial, Out::Close));
    }
    Ok(Box::new(Stream {
      server: self.0.clone(),
      serial: w.serial,
      decoder: Decoder::new(headers.get("grpc-encoding").map(|_| Decompression::StatelessZlib), OptimizeFor::Cpu),
    }))
  }
}

#[async_trait::async_trait]
impl PlatformNetworkStream for Stream {
  async fn send_data(&mut self, data: &[u8]) -> anyhow::Result<()> {
    if !self.server.w.lock().unwrap().up {
      return Ok(());
    }
    for r in self.decoder.decode_data(data)? {
      self.server.received(self.serial, r);
    }
    Ok(())
  }
}
