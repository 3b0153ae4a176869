//! Triggered uploads: the driver plays the server and whoever flushes the buffers.
use crate::build::workflows;
use crate::engine::{log, set, settle, World};
use bd_api::upload::{IntentDecision, IntentResponse, Intent_type};
use bd_api::DataUpload;
use bd_workflows::config::WorkflowsConfiguration;
use bd_workflows::engine::WorkflowsEngineConfig;
use drv_kit::*;

fn conf(cfg: &Value, i: i64) -> WorkflowsEngineConfig {
  let c = &arr(cfg, "confs")[i as usize - 1];
  let defs: Vec<Value> = arr(cfg, "acts")
    .iter()
    .enumerate()
    .map(|(i, a)| {
      let mut act = json!({"k": "f", "id": a["id"], "bufs": a["bufs"]});
      if b(a, "strm") {
        act["dest"] = a["dest"].clone();
        act["max"] = a["max"].clone();
      }
      json!({"id": format!("w{}", i + 1), "excl": true, "lim": 0, "dur": 0, "st": [[{"m": [format!("m{}", i + 1), "all"], "n": 1, "to": 2, "acts": [act], "ext": []}], []]})
    })
    .collect();
  let defs: Vec<&Value> = if b(c, "wf") { defs.iter().collect() } else { vec![] };
  WorkflowsEngineConfig::new(WorkflowsConfiguration::new(&workflows(&defs)), set(&crate::build::text(&c["trig"])), set(&crate::build::text(&c["cont"])))
}

pub fn run(test: &Value, log_: &Log) {
  let cfg = &test["cfg"];
  let dir = scratch().join("sdk");
  let _ = std::fs::remove_dir_all(&dir);
  std::fs::create_dir_all(&dir).unwrap();
  let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
  rt.block_on(async {
    let mut w = World::new(dir.clone(), 1000, conf(cfg, n(cfg, "conf")));
    w.counts();
    let mut flying = Vec::new();
    let mut open = Vec::new();
    let mut t = 0;
    // What the server was asked since the last call.
    macro_rules! reqs {
      () => {{
        settle().await;
        let mut out = vec![];
        while let Ok(u) = w.upload_rx.try_recv() {
          let DataUpload::LogsUploadIntentRequest(u) = u else { panic!() };
          let Some(Intent_type::WorkflowActionUpload(a)) = &u.payload.intent_type else { panic!() };
          out.push(json!({"id": a.workflow_action_ids.join("+"), "buf": u.payload.buffer_id}));
          flying.push(u);
        }
        out
      }};
    }
    for op in arr(test, "ops") {
      match s(op, "op").as_str() {
        "log" => {
          t += 1;
          let dest = set(&crate::build::text(&op["dest"]));
          let (dest, ids, bufs, _) = log(&mut w, &s(op, "m"), t, &s(op, "sess"), &dest).await;
          log_.op(op, json!({"dest": dest, "ids": ids, "bufs": bufs, "reqs": reqs!()}));
        },
        "answer" => {
          if !flying.is_empty() {
            let u = flying.remove(0);
            let decision = match s(op, "a").as_str() {
              "accept" => Some(IntentDecision::UploadImmediately),
              "drop" => Some(IntentDecision::Drop),
              _ => None,
            };
            if let Some(decision) = decision {
              let _ = u.response_tx.send(IntentResponse { uuid: u.uuid, decision });
            }
          }
          log_.op(op, json!({"reqs": reqs!()}));
        },
        "flushed" => {
          let k = n(op, "k") as usize - 1;
          if k < open.len() {
            let tx: tokio::sync::oneshot::Sender<()> = open.remove(k);
            if s(op, "how") == "done" {
              let _ = tx.send(());
            }
          }
          log_.op(op, json!({"fl": []}));
        },
        "run" | "update" => {
          if s(op, "op") == "update" {
            w.engine.update(conf(cfg, n(op, "conf")));
            settle().await;
          } else {
            tokio::select! {
              () = w.engine.run() => (),
              () = settle() => (),
            }
          }
          let mut out = vec![];
          while let Ok(f) = w.flush_rx.try_recv() {
            out.push(json!(f.buffer_ids));
            open.push(f.response_tx);
          }
          log_.op(op, json!({"fl": out}));
        },
        "persist" => {
          w.engine.maybe_persist(true).await;
          let c = w.counts();
          log_.op(op, json!({"wrote": c[14] > 0}));
        },
        "restart" => {
          drop(w);
          settle().await;
          w = World::new(dir.clone(), 1000, conf(cfg, n(op, "conf")));
          w.counts();
          flying.clear();
          open.clear();
          log_.op(op, json!({"reqs": reqs!()}));
        },
        o => panic!("op {o}"),
      }
    }
  });
}
