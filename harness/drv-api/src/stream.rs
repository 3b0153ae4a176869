//! The real Api on a paused clock; the driver is the platform's network and the server.
use crate::tracker::{Rx, Waiters};
use bd_api::api::{Api, SimpleNetworkQualityProvider};
use bd_api::upload::Tracked;
use bd_api::{DataUpload, Platform, PlatformNetworkManager, PlatformNetworkStream, StreamEvent, StreamEventSender, TriggerUpload};
use bd_client_stats_store::Collector;
use bd_grpc_codec::{Compression, Decoder, Decompression, Encoder, OptimizeFor};
use bd_metadata::Metadata;
use bd_network_quality::{NetworkQuality, NetworkQualityProvider};
use bd_proto::protos::client::api::api_request::Request_type as Q;
use bd_proto::protos::client::api::api_response::Response_type as A;
use bd_proto::protos::client::api::*;
use bd_proto::protos::client::runtime::runtime::{value, Value as RtValue};
use bd_proto::protos::client::runtime::Runtime;
use bd_runtime::runtime::{ConfigLoader, RuntimeManager};
use bd_shutdown::ComponentShutdownTrigger;
use bd_time::TestTimeProvider;
use drv_kit::*;
use std::collections::HashMap;
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex};
use time::OffsetDateTime;
use tokio::time::Instant;

struct Meta;
impl Metadata for Meta {
  fn sdk_version(&self) -> &'static str {
    "1.2.3"
  }
  fn platform(&self) -> &Platform {
    &Platform::Ios
  }
  fn collect_inner(&self) -> HashMap<String, String> {
    HashMap::from([("app_id".to_string(), "app".to_string()), ("x".to_string(), "y".to_string())])
  }
}

struct Shared {
  starts: Vec<Value>,
  sent: Vec<Value>,
  tx: Option<StreamEventSender>,
  serial: usize,
  net: String,
  time: Arc<TestTimeProvider>,
  bell: tokio::sync::watch::Sender<u64>,
}

type World = Arc<Mutex<Shared>>;

struct Net(World);
struct Stream {
  w: World,
  serial: usize,
  decoder: Decoder<ApiRequest>,
}

#[async_trait::async_trait]
impl PlatformNetworkManager<ConfigLoader> for Net {
  async fn start_stream(
    &self,
    tx: StreamEventSender,
    _rt: &ConfigLoader,
    headers: &HashMap<&str, &str>,
  ) -> anyhow::Result<Box<dyn PlatformNetworkStream>> {
    let mut w = self.0.lock().unwrap();
    w.bell.send_modify(|n| *n += 1);
    if w.net == "nostart" {
      anyhow::bail!("no network");
    }
    let comp = headers.get("grpc-encoding").is_some();
    let ok = headers.get("x-bitdrift-app-id") == Some(&"app") && headers.get("content-type") == Some(&"application/grpc");
    let key = headers.get("x-bitdrift-api-key").copied().unwrap_or_default();
    w.starts.push(json!({"key": if ok { key } else { "bad headers" }, "comp": comp}));
    w.serial += 1;
    w.tx = Some(tx);
    Ok(Box::new(Stream {
      w: self.0.clone(),
      serial: w.serial,
      decoder: Decoder::new(comp.then_some(Decompression::StatelessZlib), OptimizeFor::Cpu),
    }))
  }
}

fn request(r: &ApiRequest, now: OffsetDateTime) -> Value {
  let m = |k: &str, id: &str, v: &str| json!({"k": k, "id": id, "v": v});
  match r.request_type.as_ref() {
    Some(Q::Handshake(h)) => {
      let want = Meta.collect();
      let got: HashMap<String, String> =
        h.static_device_metadata.iter().map(|(k, v)| (k.clone(), v.string_data().to_string())).collect();
      m(if want == got { "hs" } else { "hs without metadata" }, &h.previous_disconnect_reason, &h.runtime_version_nonce)
    },
    Some(Q::LogUploadIntent(x)) => m("intent", &x.intent_uuid, ""),
    Some(Q::LogUpload(x)) => m("log", &x.upload_uuid, ""),
    Some(Q::StatsUpload(x)) => {
      let at = x.sent_at.as_ref().map(|t| t.seconds);
      m("stats", &x.upload_uuid, if at == Some(now.unix_timestamp()) { "" } else { "wrong time" })
    },
    Some(Q::Ping(_)) => m("ping", "", ""),
    Some(Q::RuntimeUpdateAck(a)) => m("rtack", if a.nack.is_some() { "nack" } else { "" }, &a.last_applied_version_nonce),
    Some(Q::ConfigurationUpdateAck(_)) => m("confack", "", ""),
    Some(Q::SankeyPathUpload(x)) => m("sankey", &x.upload_uuid, ""),
    Some(Q::SankeyIntent(x)) => m("sintent", &x.intent_uuid, ""),
    Some(Q::OpaqueUpload(x)) => m("opaque", &x.uuid, ""),
    _ => m("?", "", ""),
  }
}

#[async_trait::async_trait]
impl PlatformNetworkStream for Stream {
  async fn send_data(&mut self, data: &[u8]) -> anyhow::Result<()> {
    let mut w = self.w.lock().unwrap();
    w.bell.send_modify(|n| *n += 1);
    if w.net == "nosend" {
      anyhow::bail!("no network");
    }
    let now = bd_time::TimeProvider::now(&*w.time);
    for r in self.decoder.decode_data(data).unwrap() {
      let v = if self.serial == w.serial { request(&r, now) } else { json!("on an old stream") };
      w.sent.push(v);
    }
    Ok(())
  }
}

fn update(rt: &Value) -> RuntimeUpdate {
  let int = |i: i64| RtValue { type_: Some(value::Type::UintValue(i as u64 as _)), ..Default::default() };
  let values = HashMap::from([
    ("api.initial_backoff_interval_ms".to_string(), int(n(rt, "init"))),
    ("api.max_backoff_interval_ms".to_string(), int(n(rt, "max"))),
    ("client_kill.generic_kill_duration_ms".to_string(), int(n(rt, "gen"))),
    ("client_kill.unauthenticated_kill_duration_ms".to_string(), int(n(rt, "una"))),
    (
      "api.requests_compression_enabled".to_string(),
      RtValue { type_: Some(value::Type::BoolValue(b(rt, "comp"))), ..Default::default() },
    ),
  ]);
  RuntimeUpdate {
    version_nonce: s(rt, "v"),
    runtime: Some(Runtime { values, ..Default::default() }).into(),
    ..Default::default()
  }
}

fn response(m: &Value, rts: &Value) -> ApiResponse {
  let id = s(m, "id");
  let error = if m["r"] == "ok" { String::new() } else { "broken".to_string() };
  let t = match m["k"].as_str().unwrap() {
    "hs" => {
      let p = n(m, "ping");
      let settings = (p >= 0).then(|| handshake_response::StreamSettings {
        ping_interval: Some(std::time::Duration::from_millis(p as u64).into()).into(),
        ..Default::default()
      });
      A::Handshake(HandshakeResponse { stream_settings: settings.into(), ..Default::default() })
    },
    "pong" => A::Pong(PongResponse::default()),
    "conf" => A::ConfigurationUpdate(ConfigurationUpdate { version_nonce: "c".to_string(), ..Default::default() }),
    "bye" => A::ErrorShutdown(ErrorShutdown { grpc_status: n(m, "st") as i32, grpc_message: s(m, "msg"), ..Default::default() }),
    "flush" => A::FlushBuffers(FlushBuffers {
      buffer_id_list: arr(m, "ids").iter().map(|i| i.as_str().unwrap().to_string()).collect(),
      ..Default::default()
    }),
    "rt" => A::RuntimeUpdate(update(&rts[n(m, "i") as usize - 1])),
    "intent" => {
      use log_upload_intent_response::{Decision, Drop, UploadImmediately};
      A::LogUploadIntent(LogUploadIntentResponse {
        intent_uuid: id,
        decision: match m["r"].as_str().unwrap() {
          "yes" => Some(Decision::UploadImmediately(UploadImmediately::default())),
          "drop" => Some(Decision::Drop(Drop::default())),
          _ => None,
        },
        ..Default::default()
      })
    },
    "sintent" => {
      use sankey_intent_response::{Decision, Drop, UploadImmediately};
      A::SankeyIntentResponse(SankeyIntentResponse {
        intent_uuid: id,
        decision: match m["r"].as_str().unwrap() {
          "yes" => Some(Decision::UploadImmediately(UploadImmediately::default())),
          "drop" => Some(Decision::Drop(Drop::default())),
          _ => None,
        },
        ..Default::default()
      })
    },
    _ => match m["of"].as_str().unwrap() {
      "log" => A::LogUpload(LogUploadResponse { upload_uuid: id, error, ..Default::default() }),
      "stats" => A::StatsUpload(StatsUploadResponse { upload_uuid: id, error, ..Default::default() }),
      "sankey" => A::SankeyDiagramUpload(SankeyPathUploadResponse { upload_uuid: id, error, ..Default::default() }),
      _ => A::OpaqueUpload(OpaqueResponse { uuid: id, error: (!error.is_empty()).then_some(error), ..Default::default() }),
    },
  };
  ApiResponse { response_type: Some(t), ..Default::default() }
}

fn upload(k: &str, id: &str) -> (DataUpload, Rx) {
  let i = id.to_string();
  match k {
    "intent" => {
      let (t, rx) = Tracked::new(i.clone(), LogUploadIntentRequest { intent_uuid: i, ..Default::default() });
      (DataUpload::LogsUploadIntentRequest(t), Rx::I(rx))
    },
    "sintent" => {
      let (t, rx) = Tracked::new(i.clone(), SankeyIntentRequest { intent_uuid: i, ..Default::default() });
      (DataUpload::SankeyPathUploadIntentRequest(t), Rx::I(rx))
    },
    "log" => {
      let (t, rx) = Tracked::new(i.clone(), LogUploadRequest { upload_uuid: i, ..Default::default() });
      (DataUpload::LogsUploadRequest(t), Rx::U(rx))
    },
    "stats" => {
      let (t, rx) = Tracked::new(i.clone(), StatsUploadRequest { upload_uuid: i, ..Default::default() });
      (DataUpload::StatsUploadRequest(t), Rx::U(rx))
    },
    "sankey" => {
      let (t, rx) = Tracked::new(i.clone(), SankeyPathUploadRequest { upload_uuid: i, ..Default::default() });
      (DataUpload::SankeyPathUpload(t), Rx::U(rx))
    },
    _ => {
      let (t, rx) = Tracked::new(i.clone(), OpaqueRequest { uuid: i, ..Default::default() });
      (DataUpload::OpaqueRequest(t), Rx::U(rx))
    },
  }
}

struct Process {
  handle: tokio::task::JoinHandle<anyhow::Result<()>>,
  end: Option<String>,
  uploads: tokio::sync::mpsc::Sender<DataUpload>,
  triggers: tokio::sync::mpsc::Receiver<TriggerUpload>,
  shutdown: Option<ComponentShutdownTrigger>,
  quality: Arc<SimpleNetworkQualityProvider>,
}

fn launch(dir: &Path, key: &str, w: &World) -> Process {
  let shutdown = ComponentShutdownTrigger::default();
  let (uploads, upload_rx) = tokio::sync::mpsc::channel(64);
  let (trigger_tx, triggers) = tokio::sync::mpsc::channel(64);
  let quality = Arc::new(SimpleNetworkQualityProvider::default());
  let loader = ConfigLoader::new(dir);
  let time = w.lock().unwrap().time.clone();
  let api = Api::new(
    dir.to_path_buf(),
    key.to_string(),
    Box::new(Net(w.clone())),
    shutdown.make_shutdown(),
    upload_rx,
    trigger_tx,
    Arc::new(Meta),
    loader.clone(),
    vec![Box::new(RuntimeManager::new(loader))],
    time,
    quality.clone(),
    bd_internal_logging::NoopLogger::new(),
    &Collector::default().scope("t"),
  )
  .unwrap();
  let handle = tokio::spawn(api.start());
  Process { handle, end: None, uploads, triggers, shutdown: Some(shutdown), quality }
}

async fn settle() {
  for _ in 0..6 {
    for _ in 0..12 {
      tokio::task::yield_now().await;
    }
    tokio::task::spawn_blocking(|| ()).await.unwrap();
  }
}

fn damage(p: &Path, how: &str) {
  let data = std::fs::read(p).unwrap();
  let data = match how {
    "cut" => data[.. data.len() / 2].to_vec(),
    "junk" => b"not a kill record at all".to_vec(),
    "empty" => vec![],
    _ => {
      let mut d = data;
      let i = d.len() / 2;
      d[i] ^= 0x10;
      d
    },
  };
  std::fs::write(p, data).unwrap();
}

pub fn run(test: &Value, log: &Log) {
  let dir: PathBuf = scratch().join("sdk");
  let _ = std::fs::remove_dir_all(&dir);
  std::fs::create_dir_all(&dir).unwrap();
  let cfg = &test["cfg"];
  let rts = &cfg["rts"];
  let kill = dir.join("client_kill_until");
  if n(cfg, "rt") > 0 {
    ConfigLoader::new(&dir).update_snapshot(&update(&rts[n(cfg, "rt") as usize - 1]));
  }
  let rt = tokio::runtime::Builder::new_current_thread()
    .enable_all()
    .start_paused(true)
    .max_blocking_threads(1)
    .build()
    .unwrap();
  rt.block_on(async {
    let start = OffsetDateTime::UNIX_EPOCH + time::Duration::seconds(1_700_000_000);
    let clock = Arc::new(TestTimeProvider::new(start));
    let (bell, mut ring) = tokio::sync::watch::channel(0);
    let w: World = Arc::new(Mutex::new(Shared {
      starts: vec![],
      sent: vec![],
      tx: None,
      serial: 0,
      net: "ok".to_string(),
      time: clock.clone(),
      bell,
    }));
    let mut p: Option<Process> = None;
    let mut waiters = Waiters::default();
    let mut enc = Encoder::<ApiResponse>::new(Some(Compression::StatelessZlib { level: 3 }));
    for op in arr(test, "ops") {
      let mut op = op.clone();
      match op["op"].as_str().unwrap() {
        "launch" => {
          p = None;
          clock.advance(time::Duration::milliseconds(n(&op, "dt")));
          p = Some(launch(&dir, &s(&op, "key"), &w));
        },
        "wait" => {
          ring.borrow_and_update();
          let t0 = Instant::now();
          let t = std::time::Duration::from_millis(n(&op, "t") as u64);
          let ev = tokio::select! {
            biased;
            r = ring.changed() => r.is_ok(),
            () = tokio::time::sleep(t) => false,
          };
          op["ev"] = json!(ev);
          op["d"] = json!((Instant::now() - t0).as_millis() as i64);
        },
        "recv" => {
          let ms: Vec<Vec<u8>> = arr(&op, "ms").iter().map(|m| enc.encode(&response(m, rts)).to_vec()).collect();
          let all = ms.concat();
          let at = match n(&op, "cut") {
            0 => all.len(),
            1 => 3,
            _ => all.len() - ms.last().map_or(0, |m| m.len() / 2),
          };
          let tx = w.lock().unwrap().tx.clone().unwrap();
          for part in [&all[.. at], &all[at ..]] {
            if !part.is_empty() {
              let _ = tx.send(StreamEvent::Data(part.to_vec())).await;
            }
          }
        },
        "close" => {
          let tx = w.lock().unwrap().tx.clone().unwrap();
          let _ = tx.send(StreamEvent::StreamClosed(s(&op, "why"))).await;
        },
        "upload" => {
          let (u, rx) = upload(&s(&op, "k"), &s(&op, "id"));
          waiters.add(s(&op, "id"), rx);
          let _ = p.as_ref().unwrap().uploads.send(u).await;
        },
        "leave" => waiters.0[n(&op, "n") as usize - 1] = None,
        "shutdown" => {
          let t = p.as_mut().unwrap().shutdown.take().unwrap();
          // The trigger stays alive: what ends the loop is the signal.
          tokio::spawn(t.shutdown());
        },
        "damage" => damage(&kill, &s(&op, "w")),
        "net" => w.lock().unwrap().net = s(&op, "w"),
        o => panic!("{o}"),
      }
      settle().await;
      let (mut end, mut q, mut trig) = ("ok".to_string(), "unknown", vec![]);
      if let Some(p) = &mut p {
        if p.end.is_none() && p.handle.is_finished() {
          p.end = Some(match (&mut p.handle).await {
            Ok(Ok(())) => "ok".to_string(),
            Ok(Err(_)) => "err".to_string(),
            Err(_) => "panic".to_string(),
          });
        }
        end = p.end.clone().unwrap_or_else(|| "run".to_string());
        q = match p.quality.get_network_quality() {
          NetworkQuality::Unknown => "unknown",
          NetworkQuality::Offline => "offline",
          NetworkQuality::Online => "online",
        };
        while let Ok(t) = p.triggers.try_recv() {
          trig.push(json!(t.buffer_ids));
        }
      }
      let (sent, starts) = {
        let mut w = w.lock().unwrap();
        (std::mem::take(&mut w.sent), std::mem::take(&mut w.starts))
      };
      log.op(
        &op,
        json!({"sent": sent, "done": waiters.done(), "trig": trig, "starts": starts, "end": end, "q": q, "kf": kill.exists()}),
      );
    }
    if let Some(p) = p {
      p.handle.abort();
    }
  });
}
