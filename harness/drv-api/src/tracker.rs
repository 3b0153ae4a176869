//! The tracker of outstanding uploads and intents alone.
use bd_api::upload::{IntentDecision, IntentResponse, StateTracker, Tracked, UploadResponse};
use drv_kit::*;
use tokio::sync::oneshot::{error::TryRecvError, Receiver};

pub enum Rx {
  U(Receiver<UploadResponse>),
  I(Receiver<IntentResponse>),
}

impl Rx {
  /// The outcome, if there is one.
  pub fn poll(&mut self, id: &str) -> Option<String> {
    let (uuid, r) = match self {
      Self::U(rx) => match rx.try_recv() {
        Ok(r) => (r.uuid, if r.success { "ok" } else { "fail" }),
        Err(TryRecvError::Closed) => return Some("gone".into()),
        Err(TryRecvError::Empty) => return None,
      },
      Self::I(rx) => match rx.try_recv() {
        Ok(r) => (r.uuid, if matches!(r.decision, IntentDecision::Drop) { "drop" } else { "yes" }),
        Err(TryRecvError::Closed) => return Some("gone".into()),
        Err(TryRecvError::Empty) => return None,
      },
    };
    Some(if uuid == id { r.to_string() } else { format!("{r} for {uuid}") })
  }
}

#[derive(Default)]
pub struct Waiters(pub Vec<Option<(i64, String, Rx)>>);

impl Waiters {
  pub fn add(&mut self, id: String, rx: Rx) {
    let n = self.0.len() as i64 + 1;
    self.0.push(Some((n, id, rx)));
  }
  pub fn done(&mut self) -> Vec<Value> {
    let mut out = vec![];
    for w in &mut self.0 {
      if let Some((n, id, rx)) = w {
        if let Some(r) = rx.poll(id) {
          out.push(json!({"n": *n, "r": r}));
          *w = None;
        }
      }
    }
    out
  }
}

pub fn run(test: &Value, log: &Log) {
  let mut t = StateTracker::new();
  let mut w = Waiters::default();
  for op in arr(test, "ops") {
    let id = s(op, "id");
    let mut res = "ok";
    match op["op"].as_str().unwrap() {
      "track" if op["k"] == "intent" => {
        let (x, rx) = Tracked::new(id.clone(), 7);
        assert_eq!(t.track_intent(x), 7);
        w.add(id, Rx::I(rx));
      },
      "track" => {
        let (x, rx) = Tracked::new(id.clone(), 7);
        assert_eq!(t.track_upload(x), 7);
        w.add(id, Rx::U(rx));
      },
      "leave" => w.0[n(op, "n") as usize - 1] = None,
      "end" => t = StateTracker::default(),
      "answer" => {
        let r = if op["k"] == "intent" {
          let decision = if op["r"] == "yes" { IntentDecision::UploadImmediately } else { IntentDecision::Drop };
          t.resolve_intent(&id, IntentResponse { uuid: id.clone(), decision })
        } else {
          t.resolve_pending_upload(&id, if op["r"] == "ok" { "" } else { "broken" })
        };
        if r.is_err() {
          res = "err";
        }
      },
      o => panic!("{o}"),
    }
    log.op(op, json!({"res": res, "done": w.done()}));
  }
}
