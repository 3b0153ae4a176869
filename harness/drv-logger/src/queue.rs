//! The queues in front of log processing (C31).
use bd_client_stats_store::{Collector, Counter, Scope};
use bd_logger::verif::{channel, MemorySized, PreConfigBuffer, PreError, PushCounters, Receiver, SendCounters, Sender, TrySendError};
use bd_stats_common::labels;
use drv_kit::{arr, b, json, n, s, Log, Value};
use futures_util::FutureExt;
use std::sync::atomic::{AtomicI64, Ordering};
use std::sync::{Arc, Barrier};

#[derive(Debug)]
struct Item {
  id: i64,
  size: usize,
}
impl MemorySized for Item {
  fn size(&self) -> usize {
    self.size
  }
}

enum Queue {
  Chan { tx: Vec<Sender<Item>>, rx: Option<Receiver<Item>>, cnt: SendCounters },
  Pre { buf: Option<PreConfigBuffer<Item>>, cnt: PushCounters },
}

struct Counts([Counter; 4]);
impl Counts {
  fn new(scope: &Scope, name: &str) -> Self {
    Self(["success", "failure_count_overflow", "failure_size_overflow", "failure_closed"].map(|r| scope.counter_with_labels(name, labels!("result" => r))))
  }
  fn get(&self) -> [i64; 4] {
    [0, 1, 2, 3].map(|i| self.0[i].get() as i64)
  }
}
fn cnt(a: [i64; 4], b: [i64; 4]) -> Value {
  json!({"ok": a[0] - b[0], "count": a[1] - b[1], "size": a[2] - b[2], "closed": a[3] - b[3]})
}
fn why(r: &Result<(), TrySendError<Item>>) -> (&'static str, Option<i64>) {
  match r {
    Ok(()) => ("ok", None),
    Err(TrySendError::FullCountOverflow(i)) => ("count", Some(i.id)),
    Err(TrySendError::FullSizeOverflow(i)) => ("size", Some(i.id)),
    Err(TrySendError::Closed(i)) => ("closed", Some(i.id)),
  }
}

fn race(op: &Value, tx: &Sender<Item>, rx: &mut Receiver<Item>, counters: &SendCounters) -> (Vec<Vec<&'static str>>, Vec<i64>, i64) {
  let (t, k, size, recv) = (n(op, "t"), n(op, "n"), n(op, "size") as usize, b(op, "recv"));
  let start = Arc::new(Barrier::new(t as usize + 1));
  let done = Arc::new(AtomicI64::new(0));
  let begun = Arc::new(AtomicI64::new(0));
  let left = Arc::new(AtomicI64::new(t));
  let held = Arc::new(AtomicI64::new(0));
  let mut got = vec![];
  let res = std::thread::scope(|sc| {
    let hs: Vec<_> = (1 ..= t)
      .map(|i| {
        let (tx, start, done, begun, left, held) = (tx.clone(), start.clone(), done.clone(), begun.clone(), left.clone(), held.clone());
        sc.spawn(move || {
          start.wait();
          let mut out = vec![];
          for j in 1 ..= k {
            let r = tx.try_send(Item { id: i * 10000 + j, size });
            counters.record(&r);
            let (w, back) = why(&r);
            out.push(if back.is_some_and(|id| id != i * 10000 + j) { "other" } else { w });
            if r.is_ok() {
              // at least this many are held: those sent before now, less all whose removal had begun by a later instant
              let d = done.fetch_add(1, Ordering::SeqCst) + 1;
              held.fetch_max(d - begun.load(Ordering::SeqCst), Ordering::SeqCst);
            }
            if recv {
              std::thread::yield_now();
            }
          }
          left.fetch_sub(1, Ordering::SeqCst);
          out
        })
      })
      .collect();
    start.wait();
    while recv && left.load(Ordering::SeqCst) > 0 {
      begun.fetch_add(1, Ordering::SeqCst);
      match rx.recv().now_or_never() {
        Some(Some(i)) => got.push(i.id),
        _ => {
          begun.fetch_sub(1, Ordering::SeqCst);
        },
      }
    }
    hs.into_iter().map(|h| h.join().unwrap()).collect::<Vec<_>>()
  });
  while let Some(Some(i)) = rx.recv().now_or_never() {
    got.push(i.id);
  }
  (res, got, held.load(Ordering::SeqCst))
}

pub fn test(test: &Value, log: &Log) {
  let cfg = &test["cfg"];
  let (maxc, maxb) = (n(cfg, "maxc") as usize, n(cfg, "maxb") as usize);
  let scope = Collector::default().scope("q");
  let pre = s(cfg, "kind") == "pre";
  let counts = Counts::new(&scope, if pre { "log_enqueueing" } else { "send" });
  let mut q = if pre {
    Queue::Pre { buf: Some(PreConfigBuffer::new(maxc, maxb)), cnt: PushCounters::new(&scope) }
  } else {
    let (tx, rx) = channel(maxc, maxb);
    Queue::Chan { tx: vec![tx], rx: Some(rx), cnt: SendCounters::new(&scope, "send") }
  };
  let mut id = 0;
  for op in arr(test, "ops") {
    let mut got: Vec<Value> = vec![];
    let mut extra = None;
    let before = counts.get();
    let o = s(op, "op");
    let r: &str = match &mut q {
      Queue::Pre { buf, cnt } => match o.as_str() {
        "send" => {
          id += 1;
          let r = buf.as_mut().unwrap().push(Item { id, size: n(op, "size") as usize });
          cnt.record(&r);
          match r {
            Ok(()) => "ok",
            Err(PreError::FullCountOverflow) => "count",
            Err(PreError::FullSizeOverflow) => "size",
          }
        },
        _ => {
          let old = buf.replace(PreConfigBuffer::new(maxc, maxb)).unwrap();
          got = old.pop_all().map(|i| json!([i.id, i.size])).collect();
          "all"
        },
      },
      Queue::Chan { tx, rx, cnt } => match o.as_str() {
        "send" => {
          id += 1;
          let at = id as usize % tx.len();
          let r = tx[at].try_send(Item { id, size: n(op, "size") as usize });
          cnt.record(&r);
          let (w, back) = why(&r);
          if back.is_some_and(|b| b != id) { "other" } else { w }
        },
        "recv" => match rx.as_mut().unwrap().recv().now_or_never() {
          Some(Some(i)) => {
            got = vec![json!([i.id, i.size])];
            "item"
          },
          Some(None) => "end",
          None => "none",
        },
        "clone" => {
          tx.push(tx[0].clone());
          "ok"
        },
        "droptx" => {
          tx.remove(0);
          "ok"
        },
        "droprx" => {
          *rx = None;
          "ok"
        },
        _ => {
          extra = Some(race(op, &tx[0], rx.as_mut().unwrap(), cnt));
          "race"
        },
      },
    };
    let now = counts.get();
    log.op(
      op,
      match extra {
        // the counters of a race are not part of the model's totals: they are reported apart
        Some((res, got, held)) => {
          for (i, c) in counts.0.iter().enumerate() {
            let d = (now[i] - before[i]) as u64;
            c.inc_by(0u64.wrapping_sub(d));
          }
          json!({"r": "race", "res": res, "got": got, "held": held, "maxc": maxc, "maxb": maxb, "cnt": cnt(now, before)})
        },
        None => json!({"r": r, "got": got, "cnt": cnt(now, [0; 4])}),
      },
    );
  }
}
