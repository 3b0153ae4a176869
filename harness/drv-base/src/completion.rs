use crate::exec::Task;
use drv_kit::{json, n, s, Log, Value};
use std::collections::BTreeMap;
use std::time::{Duration, Instant};

enum Rx {
  Idle(bd_completion::Receiver<u64>),
  Waiting(Task<anyhow_result::R>),
  Blocking(std::thread::JoinHandle<anyhow_result::R>),
}
mod anyhow_result {
  pub type R = Result<u64, ()>;
}

fn show(r: Result<u64, ()>) -> i64 {
  r.map_or(-1, |v| v as i64)
}

pub fn test(test: &Value, log: &Log) {
  let mut tx: BTreeMap<i64, bd_completion::Sender<u64>> = BTreeMap::new();
  let mut rx: BTreeMap<i64, Rx> = BTreeMap::new();
  for op in drv_kit::arr(test, "ops") {
    let id = n(op, "id");
    match s(op, "op").as_str() {
      "new" => {
        let (t, r) = bd_completion::Sender::new();
        tx.insert(id, t);
        rx.insert(id, Rx::Idle(r));
      },
      "send" => tx.remove(&id).unwrap().send(n(op, "v") as u64),
      "drops" => drop(tx.remove(&id)),
      "dropr" | "abort" => drop(rx.remove(&id)),
      "recv" => {
        if let Some(Rx::Idle(r)) = rx.remove(&id) {
          rx.insert(id, Rx::Waiting(Task::new(async move { r.recv().await.map_err(|_| ()) })));
        }
      },
      "block" => {
        if let Some(Rx::Idle(r)) = rx.remove(&id) {
          rx.insert(id, Rx::Blocking(std::thread::spawn(move || r.blocking_recv().map_err(|_| ()))));
          std::thread::sleep(Duration::from_micros(n(op, "d") as u64));
        }
      },
      _ => {},
    }
    let mut got = vec![];
    let ids: Vec<i64> = rx.keys().copied().collect();
    for id in ids {
      match rx.get_mut(&id).unwrap() {
        Rx::Waiting(t) => {
          if let Some(r) = t.run() {
            rx.remove(&id);
            got.push(json!([id, show(r)]));
          }
        },
        Rx::Blocking(t) => {
          let deadline = Instant::now() + Duration::from_secs(20);
          while !tx.contains_key(&id) && !t.is_finished() && Instant::now() < deadline {
            std::thread::sleep(Duration::from_micros(20));
          }
          if t.is_finished() {
            if let Some(Rx::Blocking(t)) = rx.remove(&id) {
              got.push(json!([id, show(t.join().unwrap_or(Err(())))]));
            }
          }
        },
        Rx::Idle(_) => {},
      }
    }
    log.op(op, json!({"got": got}));
  }
  tx.clear();
}
