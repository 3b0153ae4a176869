//! The upload rate limit (C32), through the real upload service.
use bd_api::upload::UploadResponse;
use bd_api::DataUpload;
use bd_client_stats_store::Collector;
use bd_logger::verif::UploadService;
use bd_proto::protos::client::api::RuntimeUpdate;
use bd_proto::protos::client::runtime::runtime::{value, Value as RtValue};
use bd_proto::protos::client::runtime::Runtime;
use bd_runtime::runtime::ConfigLoader;
use bd_shutdown::ComponentShutdownTrigger;
use drv_kit::{arr, json, n, s, Log, Value};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Duration;

static DIRS: AtomicU64 = AtomicU64::new(0);

pub fn flags(v: &[(&str, i64)], nonce: u64) -> RuntimeUpdate {
  RuntimeUpdate {
    version_nonce: nonce.to_string(),
    runtime: Some(Runtime {
      values: v
        .iter()
        .map(|(k, x)| ((*k).to_string(), RtValue { type_: Some(value::Type::UintValue(u32::try_from(*x).unwrap())), ..Default::default() }))
        .collect(),
      ..Default::default()
    })
    .into(),
    ..Default::default()
  }
}

pub fn flag(name: &str, on: bool) -> RuntimeUpdate {
  let mut u = flags(&[(name, 1)], 1);
  for v in u.runtime.as_mut().unwrap().values.values_mut() {
    v.type_ = Some(value::Type::BoolValue(on));
  }
  u
}

fn set(loader: &ConfigLoader, num: i64, per: i64) {
  loader.update_snapshot(&flags(&[("upload_ratelimit.bytes_count_per_period", num), ("upload_ratelimit.period_ms", per * 10 + 5)], 1));
}

pub fn test(test: &Value, log: &Log, confs: &[Value]) {
  tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap().block_on(run(test, log, confs));
}

async fn run(test: &Value, log: &Log, confs: &[Value]) {
  let dir = drv_kit::scratch().join(format!("rate{}", DIRS.fetch_add(1, Ordering::SeqCst)));
  std::fs::create_dir_all(&dir).unwrap();
  let loader = ConfigLoader::new(&dir);
  set(&loader, n(&test["cfg"], "num"), n(&test["cfg"], "per"));
  let (tx, mut rx) = tokio::sync::mpsc::channel(1000);
  let trigger = ComponentShutdownTrigger::default();
  let service = UploadService::new(tx, trigger.make_shutdown(), &loader, &Collector::default().scope("x"));
  let other = service.clone();
  tokio::time::advance(Duration::from_millis(10)).await;
  let mut tasks: Vec<(i64, tokio::task::JoinHandle<String>)> = vec![];
  let mut id = 0;
  for op in arr(test, "ops") {
    match s(op, "op").as_str() {
      "req" => {
        id += 1;
        let svc = if id % 2 == 0 { other.clone() } else { service.clone() };
        // a request of several logs of uneven sizes
        let size = n(op, "size") as usize;
        let logs = vec![vec![0; size / 3], vec![1; size - size / 3]];
        tasks.push((id, tokio::spawn(svc.upload(logs, id.to_string()))));
      },
      "adv" => tokio::time::advance(Duration::from_millis(10 * n(op, "n") as u64)).await,
      "conf" => {
        let c = &confs[n(op, "i") as usize - 1];
        set(&loader, n(c, "num"), n(c, "per"));
      },
      _ => {
        // the waiting requests were taken up in another order than in the generated history
        if tasks.is_empty() {
          break;
        }
        let (_, h) = tasks.remove(0);
        h.abort();
      },
    }
    let mut adm = vec![];
    for _ in 0 .. 4 {
      for _ in 0 .. 8 {
        tokio::task::yield_now().await;
      }
      while let Ok(u) = rx.try_recv() {
        if let DataUpload::LogsUploadRequest(u) = u {
          adm.push(u.payload.buffer_uuid.parse::<i64>().unwrap());
          let _ = u.response_tx.send(UploadResponse { success: true, uuid: u.uuid });
        }
      }
    }
    let mut bad = vec![];
    let mut i = 0;
    while i < tasks.len() {
      if tasks[i].1.is_finished() {
        let (id, h) = tasks.remove(i);
        let r = h.await.unwrap();
        if r != "Success" || !adm.contains(&id) {
          bad.push(json!([id, r]));
        }
      } else {
        i += 1;
      }
    }
    if bad.is_empty() {
      log.op(op, json!({"adm": adm, "wait": tasks.len()}));
    } else {
      log.op(op, json!({"adm": adm, "wait": -1, "bad": bad}));
    }
  }
  drop(tasks);
  let _ = std::fs::remove_dir_all(&dir);
}
