//! What emit-metric actions record, from the log that triggers them.
use crate::build::*;
use bd_client_stats::DynamicStats;
use bd_client_stats_store::{Collector, MetricData};
use bd_log_primitives::{FieldsRef, LogField, LogFieldValue, LogRef};
use bd_proto::protos::client::metric::metric::Data;
use bd_runtime::runtime::ConfigLoader;
use bd_workflows::config::WorkflowsConfiguration;
use bd_workflows::engine::{WorkflowsEngine, WorkflowsEngineConfig};
use drv_kit::*;
use std::collections::BTreeSet;
use std::sync::Arc;

fn act(a: &Value) -> Value {
  let tags: Vec<Value> =
    arr(a, "tags").iter().map(|t| json!([t["n"], if b(t, "x") { format!("${}", s(t, "v")) } else { s(t, "v") }])).collect();
  let v = if a["x"].is_string() && !s(a, "x").is_empty() { json!(s(a, "x")) } else { a["v"].clone() };
  json!({"k": "m", "id": a["id"], "tags": tags, "hist": a["h"], "v": v})
}

fn conf(cfg: &Value, limit_to: usize) -> WorkflowsEngineConfig {
  let ds: Vec<Value> = arr(cfg, "wfs")
    .iter()
    .take(limit_to)
    .enumerate()
    .map(|(i, w)| {
      let ts: Vec<Value> =
        arr(w, "ms").iter().map(|m| json!({"to": 2, "m": m, "n": 1, "acts": arr(w, "acts").iter().map(act).collect::<Vec<_>>()})).collect();
      json!({"id": format!("w{i}"), "excl": w["excl"], "st": [ts, []]})
    })
    .collect();
  let mut c = workflows(&ds.iter().collect::<Vec<_>>());
  for (w, d) in c.workflows.iter_mut().zip(arr(cfg, "wfs")) {
    if b(d, "bad") {
      // An action this version does not know.
      w.states[0].transitions[0].actions.push(Default::default());
    }
  }
  WorkflowsEngineConfig::new(WorkflowsConfiguration::new(&c), BTreeSet::new(), BTreeSet::new())
}

fn fields(v: &Value) -> Vec<LogField> {
  v.as_array()
    .unwrap()
    .iter()
    .map(|f| LogField {
      key: s(f, "k"),
      value: if b(f, "b") { LogFieldValue::Bytes(s(f, "v").into_bytes()) } else { LogFieldValue::String(s(f, "v")) },
    })
    .collect()
}

pub fn run(test: &Value, log_: &Log) {
  let confs: Value = serde_json::from_str(&std::env::args().nth(4).unwrap()).unwrap();
  let cfg = &confs[n(&test["cfg"], "k") as usize - 1];
  let dir = scratch().join("sdk");
  let _ = std::fs::remove_dir_all(&dir);
  std::fs::create_dir_all(&dir).unwrap();
  let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
  rt.block_on(async {
    let collector = Collector::default();
    let scope = collector.scope("t");
    let loader = ConfigLoader::new(&dir);
    loader.update_snapshot(&runtime(&[("workflows.traversals_global_count_limit", 100), ("stats.max_dynamic_stats", 500)]));
    let (tx, _rx) = tokio::sync::mpsc::channel(64);
    let dynamic = Arc::new(DynamicStats::new(&scope, &loader));
    let (mut engine, _flush_rx) = WorkflowsEngine::new(&scope, &dir, &loader, tx, dynamic.clone());
    engine.start(conf(cfg, usize::MAX));
    let dest = BTreeSet::new();
    for op in arr(test, "ops") {
      match s(op, "op").as_str() {
        "log" => {
          let l = &arr(cfg, "logs")[n(op, "f") as usize - 1];
          let (f, m) = (fields(&l["fs"]), fields(&l["ms"]));
          engine.process_log(
            &LogRef {
              log_type: bd_log_primitives::LogType(n(l, "ty") as u32),
              log_level: n(l, "lvl") as u32,
              message: &s(op, "m").as_str().into(),
              session_id: "s",
              occurred_at: time::OffsetDateTime::UNIX_EPOCH + time::Duration::seconds(1000),
              fields: &FieldsRef::new(&f, &m),
            },
            &dest,
          );
          log_.op(op, json!([]));
        },
        "keep" => {
          engine.update(conf(cfg, n(op, "n") as usize));
          log_.op(op, json!([]));
        },
        "collect" => {
          let mut out = vec![];
          dynamic.collector_for_test().retain(|id, m| {
            if let Some(d) = m.snap() {
              let hist = id.name.ends_with("workflows_dyn:histogram");
              assert!(hist || id.name.ends_with("workflows_dyn:action"), "{}", id.name);
              let tags: Vec<Value> = id.labels.iter().map(|(k, v)| json!([k, v])).collect();
              let (n, sum) = match &d {
                MetricData::Counter(c) => (0, c.get() as f64),
                MetricData::Histogram(_) => match d.to_proto() {
                  Data::InlineHistogramValues(h) => (h.values.len() as i64, h.values.iter().sum()),
                  _ => (-1, 0.),
                },
              };
              if hist || sum != 0. {
                out.push(json!({"h": hist, "tags": tags, "n": n, "sum": (sum * 10.).round() as i64}));
              }
            }
            false
          });
          log_.op(op, Value::Array(out));
        },
        o => panic!("op {o}"),
      }
    }
  });
}
