//! The engine with its persisted state; upload negotiations are left unanswered.
use crate::build::*;
use bd_api::DataUpload;
use bd_client_stats::DynamicStats;
use bd_client_stats_store::{Collector, MetricData};
use bd_log_primitives::{log_level, FieldsRef, LogRef};
use bd_runtime::runtime::ConfigLoader;
use bd_workflows::actions_flush_buffers::BuffersToFlush;
use bd_workflows::config::WorkflowsConfiguration;
use bd_workflows::engine::{WorkflowsEngine, WorkflowsEngineConfig};
use drv_kit::*;
use std::collections::{BTreeMap, BTreeSet};
use std::path::PathBuf;
use std::sync::Arc;

const COUNTERS: [(&str, &str, &str); 19] = [
  ("runs_total", "operation", "start"),
  ("runs_total", "operation", "advance"),
  ("runs_total", "operation", "stop"),
  ("runs_total", "operation", "completion"),
  ("traversals_total", "operation", "start"),
  ("traversals_total", "operation", "advance"),
  ("traversals_total", "operation", "stop"),
  ("traversals_total", "operation", "completion"),
  ("traversals_count_limit_hit_total", "", ""),
  ("workflow_resets_total", "type", "exclusive"),
  ("workflow_potential_forks_total", "type", "exclusive"),
  ("matched_logs_total", "", ""),
  ("workflows_total", "operation", "start"),
  ("workflows_total", "operation", "stop"),
  ("state_persistences_total", "result", "success"),
  ("state_persistences_total", "result", "failure"),
  ("state_loads_total", "result", "success"),
  ("state_loads_total", "result", "failure"),
  ("buffers_to_flush_channel_send_failures_total", "", ""),
];

pub struct World {
  pub dir: PathBuf,
  pub engine: WorkflowsEngine,
  pub flush_rx: tokio::sync::mpsc::Receiver<BuffersToFlush>,
  pub upload_rx: tokio::sync::mpsc::Receiver<DataUpload>,
  collector: Collector,
  pub dynamic: Arc<DynamicStats>,
  seen: Vec<i64>,
}

pub fn set(ids: &[String]) -> BTreeSet<std::borrow::Cow<'static, str>> {
  ids.iter().map(|i| std::borrow::Cow::Owned(i.clone())).collect()
}

impl World {
  /// To be called within a tokio runtime.
  pub fn new(dir: PathBuf, limit: u32, conf: WorkflowsEngineConfig) -> Self {
    let collector = Collector::default();
    let scope = collector.scope("t");
    let rt = ConfigLoader::new(&dir);
    rt.update_snapshot(&runtime(&[
      ("workflows.traversals_global_count_limit", limit),
      ("workflows.persistence_write_interval_ms", 3_600_000),
      ("stats.max_dynamic_stats", 500),
    ]));
    let (tx, upload_rx) = tokio::sync::mpsc::channel(64);
    let dynamic = Arc::new(DynamicStats::new(&scope, &rt));
    let (mut engine, flush_rx) = WorkflowsEngine::new(&scope, &dir, &rt, tx, dynamic.clone());
    engine.start(conf);
    Self { dir, engine, flush_rx, upload_rx, collector, dynamic, seen: vec![0; COUNTERS.len()] }
  }

  pub fn counts(&mut self) -> Vec<i64> {
    let now: Vec<i64> = COUNTERS
      .iter()
      .map(|(name, k, v)| {
        let labels = if k.is_empty() { BTreeMap::new() } else { BTreeMap::from([((*k).to_string(), (*v).to_string())]) };
        self.collector.inner().find_counter(&format!("t:workflows:{name}"), labels).map_or(-1, |c| c.get() as i64)
      })
      .collect();
    let d = now.iter().zip(&self.seen).map(|(a, b)| a - b).collect();
    self.seen = now;
    d
  }

  /// What the last log observed as the number of active traversals.
  pub fn active(&self) -> i64 {
    let mut v = -1.;
    self.collector.inner().retain(|id, m| {
      if id.name == "t:workflows:traversal_active_total" {
        if let Some(d) = m.snap() {
          v = last(&d);
        }
      }
      true
    });
    v as i64
  }

  /// Dynamic metrics since the last call: labels and value.
  pub fn metrics(&self) -> Vec<(BTreeMap<String, String>, String, f64)> {
    let mut out = Vec::new();
    self.dynamic.collector_for_test().retain(|id, m| {
      if let Some(d) = m.snap() {
        match &d {
          MetricData::Counter(c) if c.get() == 0 => (),
          MetricData::Counter(c) => out.push((id.labels.clone(), id.name.clone(), c.get() as f64)),
          MetricData::Histogram(_) => out.push((id.labels.clone(), id.name.clone(), last(&d))),
        }
      }
      false
    });
    out
  }
}

fn last(m: &MetricData) -> f64 {
  use bd_proto::protos::client::metric::metric::Data;
  match m.to_proto() {
    Data::InlineHistogramValues(h) => h.values.last().copied().unwrap_or(-1.),
    _ => -2.,
  }
}

pub async fn log<'a>(w: &'a mut World, m: &str, t: i64, sess: &str, dest: &'a BTreeSet<std::borrow::Cow<'a, str>>) -> (Vec<String>, Vec<String>, Vec<String>, bool) {
  let fields = vec![];
  let none = vec![];
  let r = w.engine.process_log(
    &LogRef {
      log_type: bd_log_primitives::LogType(0),
      log_level: log_level::DEBUG,
      message: &m.into(),
      session_id: sess,
      occurred_at: time::OffsetDateTime::UNIX_EPOCH + time::Duration::seconds(1000 + t),
      fields: &FieldsRef::new(&fields, &none),
    },
    dest,
  );
  (
    r.log_destination_buffer_ids.iter().map(|s| s.to_string()).collect(),
    r.triggered_flush_buffers_action_ids.iter().map(|s| s.to_string()).collect(),
    r.triggered_flushes_buffer_ids.iter().map(|s| s.to_string()).collect(),
    r.capture_screenshot,
  )
}

pub async fn settle() {
  for _ in 0 .. 30 {
    tokio::task::yield_now().await;
  }
}

fn conf(cfg: &Value, i: i64) -> WorkflowsEngineConfig {
  let ids = arr(cfg, "confs")[i as usize - 1].as_array().unwrap();
  let ds: Vec<&Value> = ids.iter().map(|d| &arr(cfg, "defs")[d.as_u64().unwrap() as usize - 1]).collect();
  WorkflowsEngineConfig::new(WorkflowsConfiguration::new(&workflows(&ds)), BTreeSet::new(), BTreeSet::new())
}

pub fn run(test: &Value, log_: &Log) {
  let cfg = &test["cfg"];
  let dir = scratch().join("sdk");
  let _ = std::fs::remove_dir_all(&dir);
  std::fs::create_dir_all(&dir).unwrap();
  let file = dir.join("workflows_state_snapshot.4.bin");
  let limit = |i: i64| arr(cfg, "lims")[i as usize - 1].as_u64().unwrap() as u32;
  let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
  rt.block_on(async {
    let mut w = World::new(dir.clone(), limit(n(cfg, "lim")), conf(cfg, n(cfg, "conf")));
    w.counts();
    let mut t = 0;
    let no = BTreeSet::new();
    for op in arr(test, "ops") {
      match s(op, "op").as_str() {
        "log" => {
          t += n(op, "dt");
          let (_, flushes, _, shot) = log(&mut w, &s(op, "m"), t, &s(op, "sess"), &no).await;
          let mut acts: Vec<Value> = flushes.iter().map(|f| json!({"k": "f", "id": f})).collect();
          if shot {
            acts.push(json!({"k": "s", "id": "s"}));
          }
          for (l, _, v) in w.metrics() {
            for _ in 0 .. v as i64 {
              acts.push(json!({"k": "m", "id": l.get("_id")}));
            }
          }
          let c = w.counts();
          log_.op(op, json!({"n": w.active(), "acts": acts, "c": c[.. 12]}));
          settle().await;
        },
        "persist" => {
          w.engine.maybe_persist(b(op, "force")).await;
          let c = w.counts();
          log_.op(op, json!({"wrote": c[14] > 0}));
        },
        "damage" => {
          let data = std::fs::read(&file).unwrap_or_default();
          let cut = if data.is_empty() { 0 } else { n(op, "x") as usize * 7919 % data.len() };
          if file.exists() {
            std::fs::write(&file, &data[.. cut]).unwrap();
          }
          log_.op(op, json!({"wrote": false}));
        },
        "update" => {
          w.engine.update(conf(cfg, n(op, "conf")));
          let c = w.counts();
          log_.op(op, json!({"ws": c[12], "we": c[13], "rs": c[0], "re": c[2], "te": c[6], "lh": c[8], "bad": c[17] > 0}));
        },
        "restart" => {
          drop(w);
          settle().await;
          w = World::new(dir.clone(), limit(n(op, "lim")), conf(cfg, n(op, "conf")));
          let c = w.counts();
          log_.op(op, json!({"ws": c[12], "we": c[13], "rs": c[0], "re": c[2], "te": c[6], "lh": c[8], "bad": c[17] > 0}));
        },
        o => panic!("op {o}"),
      }
    }
  });
}
