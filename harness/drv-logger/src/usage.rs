//! The summaries added to logs by the interceptors (C33).
use bd_api::api::SimpleNetworkQualityProvider;
use bd_log_primitives::{AnnotatedLogField, LogField, LogFieldKind, LogFieldValue, LogMessage};
use bd_logger::verif::Interceptors;
use bd_logger::LogType;
use bd_network_quality::{NetworkQuality, NetworkQualityProvider};
use bd_proto::protos::client::api::RuntimeUpdate;
use bd_proto::protos::client::runtime::runtime::{value, Value as RtValue};
use bd_proto::protos::client::runtime::Runtime;
use bd_runtime::runtime::ConfigLoader;
use drv_kit::{arr, b, json, n, s, Log, Value};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;

static DIRS: AtomicU64 = AtomicU64::new(0);

fn set(loader: &ConfigLoader, on: bool) {
  loader.update_snapshot(&RuntimeUpdate {
    version_nonce: "1".to_string(),
    runtime: Some(Runtime {
      values: [("internal_logging.periodic_logs.enabled".to_string(), RtValue { type_: Some(value::Type::BoolValue(on)), ..Default::default() })].into(),
      ..Default::default()
    })
    .into(),
    ..Default::default()
  });
}

fn quality(q: &str) -> NetworkQuality {
  match q {
    "online" => NetworkQuality::Online,
    "offline" => NetworkQuality::Offline,
    _ => NetworkQuality::Unknown,
  }
}

fn field(key: &str, v: i64, i: usize) -> AnnotatedLogField {
  let value = match v {
    -1 => LogFieldValue::String(u64::MAX.to_string()),
    -2 => LogFieldValue::String(["", "-1", "x7", "1.5", "18446744073709551616", " 1"][i % 6].to_string()),
    -3 => LogFieldValue::Bytes(b"12".to_vec()),
    v => LogFieldValue::String(v.to_string()),
  };
  let key = match key {
    "rqb" => "_request_body_bytes_sent_count",
    "rqh" => "_request_headers_bytes_count",
    "rsb" => "_response_body_bytes_received_count",
    "rsh" => "_response_headers_bytes_count",
    "st" => "_status_code",
    k => k,
  };
  AnnotatedLogField { field: LogField { key: key.to_string(), value }, kind: if i % 2 == 0 { LogFieldKind::Ootb } else { LogFieldKind::Custom } }
}

const USAGE: [&str; 6] = [
  "_request_bytes_per_min_count",
  "_request_body_bytes_per_min_count",
  "_request_headers_bytes_per_min_count",
  "_response_bytes_per_min_count",
  "_response_body_bytes_per_min_count",
  "_response_headers_bytes_per_min_count",
];
const KINDS: [&str; 8] = ["", "device_", "internal_", "lifecycle_", "network_", "normal_", "replay_", "resource_"];

fn number(t: &str) -> Value {
  match t.parse::<u64>() {
    Ok(u64::MAX) => json!(-1),
    Ok(v) if v < 1 << 30 => json!(v),
    _ => json!(-9),
  }
}

/// The values of the named fields in order; empty when none is there, -9 for a missing, repeated or unreadable one.
fn take(added: &mut Vec<AnnotatedLogField>, names: &[String]) -> Vec<Value> {
  let mut out = vec![];
  let mut any = false;
  for name in names {
    let found: Vec<_> = added.iter().filter(|f| &f.field.key == name).cloned().collect();
    any |= !found.is_empty();
    added.retain(|f| &f.field.key != name);
    out.push(match found.as_slice() {
      [f] if f.kind == LogFieldKind::Ootb => f.field.value.as_str().map_or(json!(-9), number),
      _ => json!(-9),
    });
  }
  if any {
    out
  } else {
    vec![]
  }
}

pub fn test(test: &Value, log: &Log) {
  let dir = drv_kit::scratch().join(format!("usage{}", DIRS.fetch_add(1, Ordering::SeqCst)));
  std::fs::create_dir_all(&dir).unwrap();
  let loader = ConfigLoader::new(&dir);
  set(&loader, b(&test["cfg"], "on"));
  let net = Arc::new(SimpleNetworkQualityProvider::default());
  net.set_network_quality(quality(&s(&test["cfg"], "q")));
  let chain = Interceptors::new(net.clone(), &loader);
  let q = || match net.get_network_quality() {
    NetworkQuality::Online => "online",
    NetworkQuality::Offline => "offline",
    NetworkQuality::Unknown => "unknown",
  };
  for op in arr(test, "ops") {
    match s(op, "op").as_str() {
      "adv" => chain.advance(n(op, "n") as u64),
      "qual" => net.set_network_quality(quality(&s(op, "q"))),
      "flag" => set(&loader, b(op, "on")),
      _ => {
        let l = &op["l"];
        let ty = match s(l, "ty").as_str() {
          "Device" => LogType::Device,
          "InternalSDK" => LogType::InternalSDK,
          "Lifecycle" => LogType::Lifecycle,
          "Span" => LogType::Span,
          "Replay" => LogType::Replay,
          "Resource" => LogType::Resource,
          "View" => LogType::View,
          "UX" => LogType::UX,
          _ => LogType::Normal,
        };
        let msg = match s(l, "msg").as_str() {
          "resp" => LogMessage::String("HTTPResponse".to_string()),
          "" => LogMessage::String(String::new()),
          "bin" => LogMessage::Bytes(if ty == LogType::Span { b"HTTPResponse".to_vec() } else { vec![] }),
          _ => LogMessage::String("other".to_string()),
        };
        let given: Vec<_> = arr(l, "fs").iter().enumerate().map(|(i, f)| field(&s(f, "k"), n(f, "v"), i)).collect();
        let mut fields = given.clone();
        chain.process(1, ty, &msg, &mut fields);
        let mut kept = fields.len() >= given.len() && fields[.. given.len()] == given[..];
        let mut added = if kept { fields.split_off(given.len()) } else { vec![] };
        let usage = take(&mut added, &USAGE.map(str::to_string));
        let cnt = take(&mut added, &KINDS.map(|k| format!("_{k}logs_count")));
        let tot = take(&mut added, &KINDS.map(|k| format!("_{k}logs_total_count")));
        let off = added.iter().any(|f| f.field.key == "_network_quality" && f.field.value.as_str() == Some("offline"));
        kept &= added.len() == usize::from(off);
        let rep = if cnt.is_empty() && tot.is_empty() { vec![] } else { vec![json!(cnt), json!(tot)] };
        log.op(op, json!({"q": q(), "usage": usage, "rep": rep, "off": off, "kept": kept}));
        continue;
      },
    }
    log.op(op, json!({"q": q()}));
  }
  let _ = std::fs::remove_dir_all(&dir);
}
