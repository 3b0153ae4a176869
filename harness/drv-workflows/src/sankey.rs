//! Sankey paths: the driver plays the server.
use crate::build::workflows;
use crate::engine::{settle, World};
use bd_api::upload::{IntentDecision, IntentResponse, UploadResponse};
use bd_api::DataUpload;
use bd_log_primitives::{log_level, FieldsRef, LogField, LogRef};
use bd_workflows::config::WorkflowsConfiguration;
use bd_workflows::engine::WorkflowsEngineConfig;
use drv_kit::*;
use std::collections::BTreeSet;

fn conf(cfg: &Value) -> WorkflowsEngineConfig {
  let field = |v: &Value| if v == "$" { json!("$f") } else { v.clone() };
  let t = |m: &str, to: i64| {
    let ext: Vec<Value> = arr(&cfg["ext"], m).iter().map(|e| json!({"id": e["id"], "counts": e["counts"], "v": field(&e["v"])})).collect();
    let acts: Vec<Value> = arr(&cfg["emit"], m)
      .iter()
      .map(|e| {
        let tags: Vec<Value> = arr(e, "tags").iter().map(|t| json!([t[0], field(&t[1])])).collect();
        json!({"k": "k", "id": e["id"], "limit": cfg["limit"][s(e, "id")], "tags": tags})
      })
      .collect();
    json!({"m": [m], "n": 1, "to": to, "acts": acts, "ext": ext})
  };
  let d = json!({"id": "w", "excl": true, "lim": 0, "dur": 0, "st": [[t("a", 2)], [t("b", 2), t("e", 2), t("f", 3)], []]});
  WorkflowsEngineConfig::new(WorkflowsConfiguration::new(&workflows(&[&d])), BTreeSet::new(), BTreeSet::new())
}

fn log(w: &mut World, m: &str, f: &str) {
  let fields: Vec<LogField> = if f.is_empty() { vec![] } else { vec![LogField { key: "f".to_string(), value: f.to_string().into() }] };
  let none = vec![];
  w.engine.process_log(
    &LogRef {
      log_type: bd_log_primitives::LogType(0),
      log_level: log_level::DEBUG,
      message: &m.into(),
      session_id: "s",
      occurred_at: time::OffsetDateTime::UNIX_EPOCH + time::Duration::seconds(1000),
      fields: &FieldsRef::new(&fields, &none),
    },
    &BTreeSet::new(),
  );
}

fn answer(u: DataUpload, a: &str) {
  match u {
    DataUpload::SankeyPathUploadIntentRequest(u) if a != "close" => {
      let decision = if a == "yes" { IntentDecision::UploadImmediately } else { IntentDecision::Drop };
      let _ = u.response_tx.send(IntentResponse { uuid: u.uuid, decision });
    },
    DataUpload::SankeyPathUpload(u) if a != "close" => {
      let _ = u.response_tx.send(UploadResponse { success: a == "yes", uuid: u.uuid });
    },
    _ => (),
  }
}

pub fn run(test: &Value, log_: &Log) {
  let cfg = &test["cfg"];
  let dir = scratch().join("sdk");
  let _ = std::fs::remove_dir_all(&dir);
  std::fs::create_dir_all(&dir).unwrap();
  let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
  rt.block_on(async {
    let mut w = World::new(dir.clone(), 1000, conf(cfg));
    w.counts();
    // Paths are numbered in the order in which they are completed.
    let mut seen: Vec<(String, String)> = vec![];
    let mut flying: Option<DataUpload> = None;
    let mut fresh = 0;
    macro_rules! mets {
      () => {{
        let mut ms = w.metrics();
        ms.sort_by_key(|(l, _, _)| l.get("_id").cloned());
        let mut out = vec![];
        for (mut l, name, v) in ms {
          let x = (l.remove("_id").unwrap_or_default(), l.remove("_path_id").unwrap_or_default());
          if !seen.contains(&x) {
            seen.push(x.clone());
          }
          let tags: Vec<(String, String)> = l.into_iter().collect();
          out.push(json!({"id": x.0, "n": seen.iter().position(|y| *y == x).unwrap() + 1, "tags": tags, "v": v, "name": name}));
        }
        out
      }};
    }
    macro_rules! reqs {
      () => {{
        settle().await;
        let mut out = vec![];
        while let Ok(u) = w.upload_rx.try_recv() {
          let (k, x, nodes) = match &u {
            DataUpload::SankeyPathUploadIntentRequest(u) => ("intent", (u.payload.sankey_diagram_id.clone(), u.payload.path_id.clone()), vec![]),
            DataUpload::SankeyPathUpload(u) => {
              ("upload", (u.payload.id.clone(), u.payload.path_id.clone()), u.payload.nodes.iter().map(|n| n.extracted_value.clone()).collect())
            },
            _ => panic!(),
          };
          out.push(json!({"k": k, "id": x.0, "n": seen.iter().position(|y| *y == x).map_or(0, |i| i + 1), "nodes": nodes}));
          flying = Some(u);
        }
        out
      }};
    }
    for op in arr(test, "ops") {
      match s(op, "op").as_str() {
        "log" => {
          log(&mut w, &s(op, "m"), &s(op, "f"));
          let m = mets!();
          log_.op(op, json!({"mets": m, "reqs": reqs!()}));
        },
        "answer" => {
          if let Some(u) = flying.take() {
            answer(u, &s(op, "a"));
          }
          log_.op(op, json!({"reqs": reqs!()}));
        },
        "fill" => {
          for _ in 0 .. n(op, "k") {
            log(&mut w, "a", &format!("n{fresh}"));
            mets!();
            reqs!();
            log(&mut w, "f", "");
            mets!();
            reqs!();
            while let Some(u) = flying.take() {
              answer(u, "no");
              reqs!();
            }
            fresh += 1;
          }
          log_.op(op, json!({"reqs": reqs!()}));
        },
        "persist" => {
          w.engine.maybe_persist(true).await;
          log_.op(op, json!({"reqs": reqs!()}));
        },
        "restart" => {
          drop(w);
          settle().await;
          flying = None;
          w = World::new(dir.clone(), 1000, conf(cfg));
          w.counts();
          log_.op(op, json!({"reqs": reqs!()}));
        },
        o => panic!("op {o}"),
      }
    }
  });
}
