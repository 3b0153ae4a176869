use bd_log_primitives::{AnnotatedLogField, AnnotatedLogFields, LogField, LogFieldKind, LogFieldValue, LogFields};
use bd_logger::verif::Metadata;
use bd_logger::{LogType, MetadataProvider};
use drv_kit::{arr, b, json, n, s, Log, Value};
use parking_lot::Mutex;
use std::sync::Arc;

/// Values are numbers; even ones are binary.
fn value(v: i64) -> LogFieldValue {
  if v % 2 == 0 {
    LogFieldValue::Bytes(format!("{v}").into_bytes())
  } else {
    LogFieldValue::String(format!("{v}"))
  }
}
fn number(v: &LogFieldValue) -> i64 {
  let (t, even) = match v {
    LogFieldValue::String(t) => (t.clone(), false),
    LogFieldValue::Bytes(t) => (String::from_utf8_lossy(t).to_string(), true),
  };
  match t.parse::<i64>() {
    Ok(i) if (i % 2 == 0) == even => i,
    _ => -1,
  }
}
fn annotated(l: &[Value]) -> AnnotatedLogFields {
  l.iter()
    .map(|f| AnnotatedLogField {
      field: LogField { key: s(f, "k"), value: value(n(f, "v")) },
      kind: if s(f, "kind") == "ootb" { LogFieldKind::Ootb } else { LogFieldKind::Custom },
    })
    .collect()
}
fn plain(l: &LogFields) -> Value {
  l.iter().map(|f| json!({"k": f.key, "v": number(&f.value)})).collect::<Vec<_>>().into()
}

#[derive(Default)]
struct Provider(Mutex<Value>);
impl MetadataProvider for Provider {
  fn timestamp(&self) -> anyhow::Result<time::OffsetDateTime> {
    let o = self.0.lock();
    anyhow::ensure!(s(&o, "fault") != "ts", "no time");
    Ok(time::OffsetDateTime::from_unix_timestamp(n(&o, "ts"))?)
  }
  fn fields(&self) -> anyhow::Result<AnnotatedLogFields> {
    let o = self.0.lock();
    anyhow::ensure!(s(&o, "fault") != "fields", "no fields");
    Ok(annotated(arr(&o, "prov")))
  }
}

fn log_type(t: &str) -> LogType {
  match t {
    "Replay" => LogType::Replay,
    "Resource" => LogType::Resource,
    "InternalSDK" => LogType::InternalSDK,
    "Lifecycle" => LogType::Lifecycle,
    "Span" => LogType::Span,
    "Device" => LogType::Device,
    "View" => LogType::View,
    "UX" => LogType::UX,
    _ => LogType::Normal,
  }
}

pub fn test(test: &Value, log: &Log) {
  let p = Arc::new(Provider::default());
  let mut m = Metadata::new(p.clone());
  for op in arr(test, "ops") {
    let res = match s(op, "op").as_str() {
      "add" => json!({"ok": m.add(LogField { key: s(op, "k"), value: value(n(op, "v")) }).is_ok(), "ts": 0, "fields": [], "matching": []}),
      "remove" => {
        m.remove(&s(op, "k"));
        json!({"ok": true, "ts": 0, "fields": [], "matching": []})
      },
      _ => {
        *p.0.lock() = op.clone();
        match m.collect(annotated(arr(op, "log")), annotated(arr(op, "match")), log_type(&s(op, "type"))) {
          Ok(o) => json!({"ok": true, "ts": o.timestamp.unix_timestamp(), "fields": plain(&o.fields), "matching": plain(&o.matching_fields)}),
          Err(_) => json!({"ok": false, "ts": 0, "fields": [], "matching": []}),
        }
      },
    };
    let _ = b(op, "x");
    log.op(op, res);
  }
}
