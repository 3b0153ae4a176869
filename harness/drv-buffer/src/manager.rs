//! The set of buffers of bd_buffer::Manager.
use crate::pool::{count_threads, Own, Pool};
use crate::ring::{code, pattern, serial_of, COPIER};
use bd_buffer::{Buffer, BufferEvent, BufferEventWithResponse, BuffersWithAck, Consumer, CursorConsumer, Manager, Producer};
use bd_client_stats_store::Collector;
use bd_proto::protos::config::v1::config::{buffer_config, BufferConfig, BufferConfigList};
use drv_kit::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::future::Future;
use std::path::PathBuf;
use std::sync::Arc;
use std::task::{Context, Poll, Wake};

struct Noop;
impl Wake for Noop {
  fn wake(self: Arc<Self>) {}
}

fn now<T>(f: impl Future<Output = T>) -> Option<T> {
  let mut f = std::pin::pin!(f);
  match f.as_mut().poll(&mut Context::from_waker(&Arc::new(Noop).into())) {
    Poll::Ready(v) => Some(v),
    Poll::Pending => None,
  }
}

type Answer = std::pin::Pin<Box<dyn Future<Output = anyhow::Result<()>>>>;

enum Reader {
  Cursor(CursorConsumer),
  Plain(Consumer),
}

struct Used {
  cont: bool,
  reader: Option<Reader>,
  producer: Producer,
  _buffer: Arc<Buffer>,
}

struct World {
  dir: PathBuf,
  hold: bool,
  mgr: Arc<Manager>,
  events: tokio::sync::mpsc::Receiver<BufferEventWithResponse>,
  used: HashMap<String, Used>,
  flush: Option<tokio::sync::mpsc::Sender<BuffersWithAck>>,
  pool: Pool<()>,
  waiting: Vec<(String, bd_completion::Receiver<()>)>,
  recs: HashMap<u8, i64>,
  serial: u8,
  bufs: BTreeMap<String, String>,
}

fn start(dir: &PathBuf) -> (Arc<Manager>, tokio::sync::mpsc::Receiver<BufferEventWithResponse>, tokio::sync::mpsc::Sender<BuffersWithAck>, Pool<()>) {
  let rt = bd_runtime::runtime::ConfigLoader::new(dir.parent().unwrap());
  let (mgr, events) = Manager::new(dir.clone(), &Collector::default().scope("t"), &rt);
  let (tx, rx) = tokio::sync::mpsc::channel(8);
  let mut pool = Pool::new();
  pool.others = true;
  let m = Own(mgr.clone());
  pool.thread("flush", move || {
    let m = m;
    let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
    let _ = rt.block_on(m.0.process_flushes(rx));
  });
  (mgr, events, tx, pool)
}

impl World {
  fn settle(&mut self) {
    let _ = self.pool.settle();
  }

  fn update(&mut self, op: &Value) -> (String, Vec<String>, Vec<Value>, String) {
    let conf = BufferConfigList {
      buffer_config: arr(op, "conf")
        .iter()
        .map(|e| BufferConfig {
          name: s(e, "id"),
          id: s(e, "id"),
          type_: if s(e, "bad") == "type" {
            protobuf::EnumOrUnknown::from_i32(77)
          } else if s(e, "t") == "c" {
            buffer_config::Type::CONTINUOUS.into()
          } else {
            buffer_config::Type::TRIGGER.into()
          },
          buffer_sizes: Some(buffer_config::BufferSizes {
            volatile_buffer_size_bytes: if s(e, "bad") == "size" { 100 } else { 32 },
            non_volatile_buffer_size_bytes: 80,
            ..Default::default()
          })
          .into(),
          ..Default::default()
        })
        .collect(),
      ..Default::default()
    };
    let mgr = self.mgr.clone();
    let mut fut = Box::pin(mgr.update_from_config(&conf, b(op, "stream")));
    let waker = Arc::new(Noop).into();
    let mut cx = Context::from_waker(&waker);
    let mut held = Vec::new();
    let mut out = None;
    let mut idle = 0;
    while out.is_none() && idle < 3 {
      if let Poll::Ready(r) = fut.as_mut().poll(&mut cx) {
        out = Some(r);
      }
      match self.events.try_recv() {
        Ok(e) => {
          held.push(e);
          idle = 0;
        },
        Err(_) => idle += 1,
      }
    }
    while let Ok(e) = self.events.try_recv() {
      held.push(e);
    }
    let (mut rem, mut add, mut stream) = (Vec::new(), Vec::new(), "no".to_string());
    let mut early = out.is_some() && !held.is_empty();
    let total = held.len();
    for (i, e) in held.into_iter().enumerate() {
      match &e.event {
        BufferEvent::ContinuousBufferCreated(id, buf) => add.push((id.clone(), "c", buf.clone())),
        BufferEvent::TriggerBufferCreated(id, buf) => add.push((id.clone(), "t", buf.clone())),
        BufferEvent::BufferRemoved(id) => rem.push(id.clone()),
        BufferEvent::StreamBufferAdded(_) => stream = "added".into(),
        BufferEvent::StreamBufferRemoved(_) => stream = "removed".into(),
      }
      drop(e);
      if out.is_none() {
        if let Poll::Ready(r) = fut.as_mut().poll(&mut cx) {
          early |= i + 1 < total;
          out = Some(r);
        }
      }
    }
    drop(fut);
    let added = add.iter().map(|(i, t, _)| json!({"id": i, "t": t})).collect();
    for id in &rem {
      if !self.hold {
        self.used.remove(id);
      }
    }
    for (id, t, buffer) in add {
      let producer = buffer.new_thread_local_producer().expect("producer");
      self.used.insert(id, Used { cont: t == "c", reader: None, producer, _buffer: buffer });
    }
    let r = match out {
      None => "pending",
      Some(_) if early => "early",
      Some(Ok(sb)) if sb.is_some() != b(op, "stream") || self.mgr.stream_buffer().is_some() != sb.is_some() => "stream",
      Some(Ok(_)) => "ok",
      Some(Err(_)) => "err",
    };
    (r.into(), rem, added, stream)
  }

  fn name(&mut self, d: &[u8]) -> String {
    serial_of(d).and_then(|s| self.recs.get(&s)).map_or_else(|| format!("garbage:{d:?}"), |r| format!("rec:{r}"))
  }

  fn op(&mut self, op: &Value) -> Value {
    let id = s(op, "id");
    let (mut rem, mut add, mut stream) = (Vec::new(), Vec::new(), "no".to_string());
    let r: String = match op["op"].as_str().unwrap() {
      "update" => {
        let u = self.update(op);
        (rem, add, stream) = (u.1, u.2, u.3);
        u.0
      },
      "write" => {
        self.serial = self.serial % 250 + 1;
        self.recs.insert(self.serial, n(op, "rec"));
        let p = &mut self.used.get_mut(&id).unwrap().producer;
        match p.write(&pattern(self.serial, 12)) {
          Ok(()) => "ok".into(),
          Err(e) => code(&e),
        }
      },
      "open" => {
        let u = self.used.get_mut(&id).unwrap();
        let cont = u.cont;
        let r = if cont {
          u._buffer.create_continous_consumer().map(Reader::Cursor)
        } else {
          u._buffer.new_consumer().map(Reader::Plain)
        };
        match r {
          Ok(r) => {
            u.reader = Some(r);
            "ok".into()
          },
          Err(e) => e.to_string(),
        }
      },
      "read" => {
        let r = match self.used.get_mut(&id).unwrap().reader.as_mut().unwrap() {
          Reader::Cursor(c) => now(async { c.read().await.map(<[u8]>::to_vec).map_err(|e| e.to_string()) }).unwrap_or_else(|| Err("Unavailable".into())),
          Reader::Plain(c) => c.try_read().map_err(|e| code(&e)),
        };
        match r {
          Ok(d) => self.name(&d),
          Err(e) => e,
        }
      },
      "ack" => match self.used.get_mut(&id).unwrap().reader.as_mut().unwrap() {
        Reader::Cursor(c) => c.advance_read_cursor().map_or_else(|e| e.to_string(), |()| "ok".into()),
        Reader::Plain(_) => "no".into(),
      },
      "close" => {
        self.used.get_mut(&id).unwrap().reader = None;
        "ok".into()
      },
      "letgo" => {
        self.used.remove(&id);
        "ok".into()
      },
      "flush" => {
        let (tx, rx) = bd_completion::Sender::new();
        let ids: Vec<String> = arr(op, "ids").iter().map(|i| i.as_str().unwrap().to_string()).collect();
        let m = if ids.is_empty() { BuffersWithAck::new_all_buffers(Some(tx)) } else { BuffersWithAck::new(ids, Some(tx)) };
        self.waiting.push((s(op, "q"), rx));
        self.flush.as_ref().unwrap().try_send(m).map_or_else(|_| "refused".into(), |()| "wait".into())
      },
      "restart" => {
        self.stop();
        let (mgr, events, flush, pool) = start(&self.dir);
        (self.mgr, self.events, self.flush, self.pool) = (mgr, events, Some(flush), pool);
        "ok".into()
      },
      "corrupt" => {
        let mut d = std::fs::read(self.dir.join(&id)).unwrap();
        d[n(op, "x").unsigned_abs() as usize % 40] ^= 0x55;
        std::fs::write(self.dir.join(&id), d).unwrap();
        "ok".into()
      },
      o => panic!("{o}"),
    };
    // Reading a trigger buffer must itself wait for what was written right before.
    if !(op["op"] == "write" && !self.used[&id].cont) {
      self.settle();
    }
    let mut done = Vec::new();
    let mut keep = Vec::new();
    for (q, rx) in std::mem::take(&mut self.waiting) {
      let mut rx: Answer = Box::pin(rx.recv());
      match rx.as_mut().poll(&mut Context::from_waker(&Arc::new(Noop).into())) {
        Poll::Ready(Ok(())) => done.push(json!({"a": q, "r": "ok"})),
        Poll::Ready(Err(_)) => done.push(json!({"a": q, "r": "lost"})),
        Poll::Pending => keep.push((q, rx)),
      }
    }
    self.pend(keep);
    let mut r = r;
    if op["op"] == "flush" {
      if let Some(i) = done.iter().position(|d| d["a"] == op["q"]) {
        r = s(&done.remove(i), "r");
      }
    }
    let files: BTreeSet<String> = std::fs::read_dir(&self.dir).unwrap().map(|f| f.unwrap().file_name().into_string().unwrap()).collect();
    // The set of buffers cannot be looked at while one of them is being flushed.
    if self.waiting.is_empty() {
      self.bufs = self.mgr.buffers().into_iter().map(|(k, (t, _))| (k, if t == buffer_config::Type::CONTINUOUS { "c" } else { "t" }.to_string())).collect();
    }
    let bufs: Vec<_> = self.bufs.iter().collect();
    json!({"r": r, "done": done, "rem": rem, "add": add, "stream": stream, "files": files, "bufs": bufs})
  }

  fn pend(&mut self, keep: Vec<(String, Answer)>) {
    for (q, f) in keep {
      let (tx, rx) = bd_completion::Sender::new();
      // Forwards the answer when it comes.
      self.pool.future("fwd", async move {
        if f.await.is_ok() {
          tx.send(());
        }
      });
      self.waiting.push((q, rx));
    }
  }

  fn stop(&mut self) {
    self.used.clear();
    self.flush = None;
    self.settle();
    let (_, e) = tokio::sync::mpsc::channel(1);
    self.events = e;
    let rt = bd_runtime::runtime::ConfigLoader::new(self.dir.parent().unwrap());
    self.mgr = Manager::new(self.dir.clone(), &Collector::default().scope("x"), &rt).0;
    self.settle();
    while count_threads(COPIER) > 0 && self.waiting.is_empty() {
      std::thread::yield_now();
    }
  }
}

pub fn run(test: &Value, log: &Log) {
  let dir = scratch().join("buffers");
  let _ = std::fs::remove_dir_all(&dir);
  std::fs::create_dir_all(&dir).unwrap();
  let (mgr, events, flush, pool) = start(&dir);
  let mut w = World {
    dir,
    hold: b(&test["cfg"], "hold"),
    mgr,
    events,
    used: HashMap::new(),
    flush: Some(flush),
    pool,
    waiting: Vec::new(),
    recs: HashMap::new(),
    serial: 0,
    bufs: BTreeMap::new(),
  };
  w.settle();
  for op in arr(test, "ops") {
    let r = w.op(op);
    log.op(op, r);
  }
  // A request may still be waiting for a full buffer: read on.
  for _ in 0 .. 20 {
    if w.waiting.is_empty() {
      break;
    }
    let mut used = std::mem::take(&mut w.used);
    for u in used.values_mut() {
      if u.reader.is_none() {
        u.reader = u._buffer.create_continous_consumer().ok().map(Reader::Cursor);
      }
      if let Some(Reader::Cursor(c)) = &mut u.reader {
        let _ = c.advance_read_cursor();
        let _ = now(async { c.read().await.is_ok() });
        let _ = c.advance_read_cursor();
      }
    }
    w.used = used;
    w.settle();
    let keep = std::mem::take(&mut w.waiting);
    for (q, rx) in keep {
      let mut f: Answer = Box::pin(rx.recv());
      if f.as_mut().poll(&mut Context::from_waker(&Arc::new(Noop).into())).is_pending() {
        w.pend(vec![(q, f)]);
      }
    }
  }
  if w.waiting.is_empty() {
    w.stop();
  } else {
    std::mem::forget(w);
  }
}
