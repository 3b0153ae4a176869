use crate::pool::{count_threads, Own, Pool};

pub const COPIER: &str = "io.bitdrift.cap";

use bd_buffer::buffer::{
  AggregateRingBuffer,
  BlockWhenReservingIntoConcurrentRead,
  LockHandle,
  NonVolatileRingBuffer,
  OptionalStatGetter,
  RingBufferCursorConsumer,
  RingBufferProducer,
  VolatileRingBuffer,
};
use bd_buffer::{AllowOverwrite, Error, PerRecordCrc32Check, RingBuffer, RingBufferConsumer, RingBufferStats, StatsHelper};
use bd_client_stats_store::Collector;
use drv_kit::*;
use std::collections::{HashMap, HashSet};
use std::path::{Path, PathBuf};
use std::sync::Arc;

pub fn code(e: &Error) -> String {
  match e {
    Error::AbslStatus(c, _) => format!("{c:?}"),
    e => format!("{e:?}"),
  }
}

pub fn pattern(serial: u8, len: usize) -> Vec<u8> {
  (0 .. len).map(|i| if i == 0 { serial } else { serial.wrapping_mul(31).wrapping_add((i as u8).wrapping_mul(17)) }).collect()
}

pub fn serial_of(d: &[u8]) -> Option<u8> {
  (!d.is_empty() && pattern(d[0], d.len()) == d).then(|| d[0])
}

fn counters(s: &RingBufferStats) -> [i64; 12] {
  [
    s.records_written.get_value(),
    s.records_read.get_value(),
    s.records_overwritten.get_value(),
    s.records_refused.get_value(),
    s.records_corrupted.get_value(),
    s.bytes_written.get_value(),
    s.bytes_read.get_value(),
    s.total_bytes_written.get_value(),
    s.total_bytes_read.get_value(),
    s.bytes_overwritten.get_value(),
    s.bytes_refused.get_value(),
    s.total_data_loss.get_value(),
  ]
  .map(|v| v as i64)
}

#[derive(Clone)]
struct Cfg {
  kind: String,
  n: u32,
  /// Of the part in memory.
  vn: u32,
  crc: bool,
  blk: bool,
  cur: bool,
}

impl Cfg {
  fn agg(&self) -> bool {
    self.kind == "agg"
  }

  fn open_all(&self, path: &Path, stats: Arc<RingBufferStats>, vstats: Arc<RingBufferStats>) -> Result<Arc<dyn RingBuffer>, Error> {
    if !self.agg() {
      return self.open(path, 0, stats);
    }
    let before = count_threads(COPIER);
    let r = AggregateRingBuffer::new(
      "agg",
      self.vn,
      path,
      self.n + 40,
      PerRecordCrc32Check::Yes,
      if self.cur { AllowOverwrite::Block } else { AllowOverwrite::Yes },
      vstats,
      stats,
    )?;
    while count_threads(COPIER) <= before {
      std::thread::yield_now();
    }
    Ok(r)
  }

  fn open(&self, path: &Path, extra: u32, stats: Arc<RingBufferStats>) -> Result<Arc<dyn RingBuffer>, Error> {
    if self.kind == "vol" {
      return Ok(VolatileRingBuffer::new("v".into(), self.n, stats));
    }
    Ok(NonVolatileRingBuffer::new(
      "nv".into(),
      path,
      self.n + 40 + extra,
      if self.kind == "nvo" { AllowOverwrite::Yes } else { AllowOverwrite::Block },
      if self.blk { BlockWhenReservingIntoConcurrentRead::Yes } else { BlockWhenReservingIntoConcurrentRead::No },
      if self.crc { PerRecordCrc32Check::Yes } else { PerRecordCrc32Check::No },
      stats,
    )?)
  }
}

pub enum Reader {
  Plain(Box<dyn RingBufferConsumer>),
  Cursor(Box<dyn RingBufferCursorConsumer>),
}

impl Reader {
  fn register(b: &Arc<dyn RingBuffer>, cur: bool) -> Result<Self, Error> {
    Ok(if cur { Self::Cursor(b.clone().register_cursor_consumer()?) } else { Self::Plain(b.clone().register_consumer()?) })
  }
  fn start(&mut self, block: bool) -> Result<&[u8], Error> {
    match self {
      Self::Plain(c) => c.start_read(block),
      Self::Cursor(c) => c.start_read(block),
    }
  }
  fn finish(&mut self) -> Result<(), Error> {
    match self {
      Self::Plain(c) => c.finish_read(),
      Self::Cursor(c) => c.advance_read_pointer(),
    }
  }
}

#[derive(Clone, Copy)]
struct Mem(usize, usize);
impl Mem {
  fn of(d: &[u8]) -> Self {
    Self(d.as_ptr() as usize, d.len())
  }
  fn get<'a>(self) -> &'a mut [u8] {
    unsafe { std::slice::from_raw_parts_mut(self.0 as *mut u8, self.1) }
  }
}

/// What a waiting operation returned.
enum Out {
  Reserved { p: i64, id: i64, r: Result<Mem, Error> },
  Read(Result<Mem, Error>),
  Plain,
}

struct World {
  cfg: Cfg,
  path: PathBuf,
  stats: Arc<RingBufferStats>,
  seen: [i64; 12],
  vstats: Arc<RingBufferStats>,
  vseen: [i64; 12],
  buffer: Option<Arc<dyn RingBuffer>>,
  producers: HashMap<i64, Box<Box<dyn RingBufferProducer>>>,
  reader: Option<Box<Reader>>,
  locks: Vec<Arc<Box<dyn LockHandle>>>,
  held: HashMap<i64, (Mem, u8)>,
  reading: std::collections::VecDeque<(Mem, Vec<u8>)>,
  serial: u8,
  ids: HashMap<i64, (u8, usize)>,
  committed: HashSet<(u8, usize)>,
  snaps: Vec<Vec<u8>>,
  files: u32,
  pool: Pool<Out>,
  /// Operations of others that the current one let complete.
  done: Vec<Value>,
}

fn stats() -> Arc<RingBufferStats> {
  StatsHelper::new(&Collector::default().scope("t")).stats
}

impl World {
  fn new(cfg: Cfg) -> Self {
    let path = scratch().join("ring0");
    let _ = std::fs::remove_file(&path);
    let (stats, vstats) = (stats(), stats());
    let buffer = cfg.open_all(&path, stats.clone(), vstats.clone()).expect("open");
    let mut pool = Pool::new();
    if cfg.agg() {
      pool.others = true;
      while pool.settle().len() > 0 {}
    }
    Self {
      vstats,
      vseen: [0; 12],
      pool,
      cfg,
      path,
      stats,
      seen: [0; 12],
      buffer: Some(buffer),
      producers: HashMap::new(),
      reader: None,
      locks: Vec::new(),
      held: HashMap::new(),
      reading: Default::default(),
      serial: 0,
      ids: HashMap::new(),
      committed: HashSet::new(),
      snaps: Vec::new(),
      files: 0,
      done: Vec::new(),
    }
  }

  fn buf(&self) -> Arc<dyn RingBuffer> {
    self.buffer.clone().unwrap()
  }

  fn name(&self, d: &[u8]) -> String {
    let Some(s) = serial_of(d) else { return format!("garbage:{d:?}") };
    self.ids.iter().find(|(_, v)| **v == (s, d.len())).map_or_else(|| format!("stale:{d:?}"), |(id, _)| format!("rec:{id}"))
  }

  fn took(&mut self, out: Out) -> String {
    match out {
      Out::Reserved { p, id, r: Ok(m) } => {
        self.serial = self.serial % 250 + 1;
        let d = m.get();
        d.copy_from_slice(&pattern(self.serial, d.len()));
        self.held.insert(p, (m, self.serial));
        self.ids.insert(id, (self.serial, d.len()));
        "ok".into()
      },
      Out::Read(Ok(m)) => {
        let d = m.get().to_vec();
        let n = self.name(&d);
        self.reading.push_back((m, d));
        n
      },
      Out::Reserved { r: Err(e), .. } | Out::Read(Err(e)) => code(&e),
      Out::Plain => "ok".into(),
    }
  }

  fn simple(&mut self, r: Result<(), Error>) -> String {
    r.map_or_else(|e| code(&e), |()| "ok".into())
  }

  fn drop_all(&mut self) {
    self.reader = None;
    self.producers.clear();
    self.locks.clear();
    self.held.clear();
    self.reading.clear();
    self.settle();
    self.buffer = None;
  }

  fn reopen(&mut self) {
    let b = self.cfg.open_all(&self.path, self.stats.clone(), self.vstats.clone());
    self.buffer = Some(b.unwrap_or_else(|e| panic!("reopening: {e:?}")));
  }

  fn op(&mut self, op: &Value) -> Value {
    let actor;
    let mut extra = json!(null);
    let p = n(op, "p");
    let r: Option<String> = match op["op"].as_str().unwrap() {
      "regp" => {
        let r = self.buf().register_producer();
        Some(match r {
          Ok(h) => {
            self.producers.insert(p, Box::new(h));
            "ok".into()
          },
          Err(e) => code(&e),
        })
      },
      "dropp" => {
        self.producers.remove(&p);
        self.held.remove(&p);
        Some("ok".into())
      },
      "regc" => {
        let r = Reader::register(&self.buf(), self.cfg.cur);
        Some(match r {
          Ok(h) => {
            self.reader = Some(Box::new(h));
            "ok".into()
          },
          Err(e) => code(&e),
        })
      },
      "regx" => Some(match Reader::register(&self.buf(), self.cfg.kind != "nvb" || !self.cfg.cur) {
        Ok(_) => "ok".into(),
        Err(e) => code(&e),
      }),
      "dropc" => {
        self.reader = None;
        self.reading.clear();
        Some("ok".into())
      },
      "reserve" => {
        actor = format!("p{p}");
        let h = Own(&mut **self.producers.get_mut(&p).unwrap() as *mut Box<dyn RingBufferProducer>);
        let (id, len, block) = (n(op, "id"), n(op, "len") as u32, b(op, "block"));
        let f = move || {
          let h = h;
          let r = unsafe { &mut *h.0 }.reserve(len, block).map(|m| Mem::of(m));
          Out::Reserved { p, id, r }
        };
        if self.cfg.kind == "vol" || self.cfg.agg() || !(block || self.cfg.blk) {
          let o = f();
          Some(self.took(o))
        } else {
          self.pool.thread(&actor, f);
          self.first(&actor)
        }
      },
      "commit" => {
        let bad = self.held.get(&p).map_or(false, |(m, s)| m.get() != pattern(*s, m.1));
        let r = self.producers.get_mut(&p).unwrap().commit();
        let ok = r.is_ok();
        if ok {
          if let Some((m, s)) = self.held.remove(&p) {
            self.committed.insert((s, m.1));
          }
        }
        Some(if bad { "clobbered".into() } else { self.simple(r) })
      },
      "start" => {
        let h = Own(&mut **self.reader.as_mut().unwrap() as *mut Reader);
        match op["how"].as_str().unwrap() {
          "no" => {
            let o = Out::Read(unsafe { &mut *h.0 }.start(false).map(Mem::of));
            Some(self.took(o))
          },
          "block" => {
            self.pool.thread("c", move || {
              let h = h;
              Out::Read(unsafe { &mut *h.0 }.start(true).map(Mem::of))
            });
            self.first("c")
          },
          _ => {
            self.pool.future("c", async move {
              Out::Read(match unsafe { &mut *h.0 } {
                Reader::Plain(c) => c.read().await.map(Mem::of),
                Reader::Cursor(c) => c.read().await.map(Mem::of),
              })
            });
            self.first("c")
          },
        }
      },
      "stop" => {
        self.pool.cancel("c");
        Some("ok".into())
      },
      "finish" => {
        let changed = self.reading.front().map_or(false, |(m, d)| m.get() != d.as_slice());
        let r = self.reader.as_mut().unwrap().finish();
        if r.is_ok() {
          self.reading.pop_front();
        }
        Some(if changed { "changed".into() } else { self.simple(r) })
      },
      "lock" => {
        self.locks.push(Arc::new(self.buf().lock()));
        Some("ok".into())
      },
      "unlock" => {
        self.locks.pop();
        Some("ok".into())
      },
      "await" => {
        let a = s(op, "a");
        let h = Own(self.locks[0].clone());
        self.pool.thread(&a, move || {
          let h = h;
          h.0.await_reservations_drained();
          Out::Plain
        });
        self.first(&a)
      },
      "drain" => {
        let a = s(op, "a");
        let h = self.buf();
        self.pool.thread(&a, move || {
          h.wait_for_drain();
          Out::Plain
        });
        self.first(&a)
      },
      "flush" => {
        let a = s(op, "a");
        let h = self.buf();
        self.pool.thread(&a, move || {
          h.flush();
          Out::Plain
        });
        self.first(&a)
      },
      "shutdown" if self.cfg.agg() => {
        let h = self.buf();
        self.pool.thread("x", move || {
          h.shutdown();
          Out::Plain
        });
        self.first("x")
      },
      "shutdown" => {
        self.buf().shutdown();
        Some("ok".into())
      },
      "crash" => {
        self.files += 1;
        let to = scratch().join(format!("ring{}", self.files));
        let _ = std::fs::remove_file(&to);
        std::fs::copy(&self.path, &to).unwrap();
        for (p, _) in std::mem::take(&mut self.held) {
          let _ = self.producers.get_mut(&p).unwrap().commit();
        }
        self.drop_all();
        let _ = std::fs::remove_file(&self.path);
        self.path = to;
        self.reopen();
        Some("ok".into())
      },
      "reopen" => {
        self.drop_all();
        self.reopen();
        Some("ok".into())
      },
      "probe" => {
        extra = self.probe(op);
        Some("ok".into())
      },
      o => panic!("{o}"),
    };
    self.settle();
    let done = std::mem::take(&mut self.done);
    let now = counters(&self.stats);
    let mut d: Vec<i64> = (0 .. 12).map(|i| now[i] - self.seen[i]).collect();
    if op["op"] == "crash" {
      // What ends the crashed process's handles is no part of the history.
      d.fill(0);
    }
    self.seen = now;
    let r = r.unwrap_or_else(|| "wait".into());
    let mut res = if self.cfg.agg() {
      let now = counters(&self.vstats);
      let mut dv: Vec<i64> = (0 .. 12).map(|i| now[i] - self.vseen[i]).collect();
      let dn = d;
      self.vseen = now;
      if op["op"] == "crash" {
        dv.fill(0);
      }
      json!({"r": r, "done": done, "dv": dv, "dn": dn})
    } else {
      json!({"r": r, "done": done, "d": d})
    };
    if !extra.is_null() {
      res["probe"] = extra;
    }
    if self.cfg.kind.starts_with("nv") {
      self.snaps.push(std::fs::read(&self.path).unwrap());
      if self.snaps.len() > 6 {
        self.snaps.remove(0);
      }
    }
    res
  }

  /// The result of an operation that was just started, unless it waits.
  fn first(&mut self, actor: &str) -> Option<String> {
    self.settle();
    let i = self.done.iter().position(|d| d["a"] == actor)?;
    Some(s(&self.done.remove(i), "r"))
  }

  fn settle(&mut self) {
    for (a, o) in self.pool.settle() {
      let r = self.took(o);
      self.done.push(json!({"a": a, "r": r}));
    }
  }

  fn probe(&mut self, op: &Value) -> Value {
    let mut img = std::fs::read(&self.path).unwrap();
    let (k, x) = (s(op, "k"), n(op, "x") as usize);
    let flip = 1 + ((x / 64) % 255) as u8;
    let mut extra = 0;
    let mut wild = false;
    match k.as_str() {
      "none" => {},
      "resize" => extra = 1 + (x as u32 % 40),
      "hdr" => img[x % 40] ^= flip,
      "rec" => {
        let (off, len) = (n(op, "off") as usize, n(op, "len") as usize);
        let i = x % (4 + len);
        img[40 + off + if i < 4 { i } else { i + 4 }] ^= flip;
      },
      "size" => {
        wild = true;
        img[40 + n(op, "off") as usize + 4 + x % 4] ^= flip;
      },
      "free" => {
        let f = arr(op, "free");
        let f: Vec<usize> = f.iter().map(|v| v.as_u64().unwrap() as usize).collect();
        if !f.is_empty() {
          img[40 + f[x % f.len()]] ^= flip;
        }
      },
      "torn" => {
        wild = true;
        let old = self.snaps.get(x % self.snaps.len().max(1)).cloned().unwrap_or_else(|| img.clone());
        let g = [1usize, 4, 8, 13, 40][(x / 7) % 5];
        let mut rng = Rng(x as u64);
        for c in 0 .. img.len().div_ceil(g) {
          if rng.below(2) == 0 {
            let (a, z) = (c * g, ((c + 1) * g).min(img.len()));
            img[a .. z].copy_from_slice(&old[a .. z]);
          }
        }
      },
      k => panic!("{k}"),
    }
    let path = scratch().join("probe");
    let _ = std::fs::remove_file(&path);
    std::fs::write(&path, &img).unwrap();
    let st = stats();
    let (open, b) = match self.cfg.open(&path, extra, st.clone()) {
      Ok(b) => ("ok".to_string(), b),
      Err(e) => {
        std::fs::remove_file(&path).unwrap();
        (code(&e), self.cfg.open(&path, extra, st.clone()).expect("after deletion"))
      },
    };
    let mut ids = Vec::new();
    let mut foreign = 0;
    let mut ok_ids: Vec<i64> = Vec::new();
    let mut reader = Reader::register(&b, self.cfg.cur).unwrap();
    let mut again = "ok".to_string();
    for i in 0 .. 200 {
      match reader.start(false) {
        Ok(d) => {
          let d = d.to_vec();
          ids.push(self.name(&d));
          if !serial_of(&d).map_or(false, |s| self.committed.contains(&(s, d.len()))) {
            foreign += 1;
          }
          if let Some((id, _)) = self.ids.iter().find(|(_, v)| serial_of(&d) == Some(v.0) && v.1 == d.len()) {
            ok_ids.push(*id);
          }
        },
        Err(e) => {
          if code(&e) != "Unavailable" {
            again = format!("reading: {}", code(&e));
          }
          break;
        },
      }
      if let Err(e) = reader.finish() {
        again = format!("releasing: {}", code(&e));
      }
      if i == 199 {
        again = "endless".into();
      }
    }
    if again == "ok" && !wild {
      let mut p = b.clone().register_producer().unwrap();
      let r = p.reserve(1, false).map(|m| m.copy_from_slice(&[7]));
      again = match r.and_then(|()| p.commit()) {
        Err(e) => format!("writing: {}", code(&e)),
        Ok(()) => match reader.start(false) {
          Ok([7]) => "ok".into(),
          Ok(d) => format!("read {d:?}"),
          Err(e) => format!("reading back: {}", code(&e)),
        },
      };
    }
    let c = counters(&st);
    json!({"open": open, "ids": ids, "good": ok_ids, "foreign": foreign, "corrupted": c[4], "lost": c[11], "again": again})
  }
}

pub fn run(test: &Value, log: &Log) {
  let c = &test["cfg"];
  let cfg = if c.get("vn").is_some() {
    Cfg { kind: "agg".into(), n: n(c, "nn") as u32, vn: n(c, "vn") as u32, crc: true, blk: true, cur: !b(c, "over") }
  } else {
    Cfg { kind: s(c, "kind"), n: n(c, "n") as u32, vn: 0, crc: b(c, "crc"), blk: b(c, "blk"), cur: b(c, "cur") }
  };
  if test.get("threads").is_some() {
    return run_threads(&cfg, test, log);
  }
  let mut w = World::new(cfg);
  for op in arr(test, "ops") {
    let r = w.op(op);
    log.op(op, r);
  }
  // Nothing may keep a thread of ours waiting.
  if w.cfg.agg() {
    for (p, _) in std::mem::take(&mut w.held) {
      let _ = w.producers.get_mut(&p).unwrap().commit();
    }
    if !w.pool.is_pending("c") {
      w.reader = None;
    }
    w.settle();
    if !w.pool.is_pending("x") {
      let h = w.buf();
      w.pool.thread("x", move || {
        h.shutdown();
        Out::Plain
      });
    }
    w.settle();
  } else if let Some(b) = &w.buffer {
    b.shutdown();
  }
  if w.pool.pending.is_empty() {
    w.drop_all();
  } else {
    std::mem::forget(w);
  }
}

/// Producers and a consumer of an in-memory buffer that run at the same time.
static THREADED: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
fn run_threads(cfg: &Cfg, test: &Value, log: &Log) {
  let st = stats();
  let dir = drv_kit::scratch().join(format!("threads{}", THREADED.fetch_add(1, std::sync::atomic::Ordering::SeqCst)));
  std::fs::create_dir_all(&dir).unwrap();
  let buf = cfg.open(&dir.join("buffer"), 0, st).unwrap();
  let ts = arr(test, "threads");
  let barrier = std::sync::Barrier::new(ts.len());
  std::thread::scope(|sc| {
    for (t, ops) in ts.iter().enumerate() {
      let (buf, barrier) = (buf.clone(), &barrier);
      sc.spawn(move || {
        let mut prod: Option<Box<dyn RingBufferProducer>> = None;
        let mut reader: Option<Reader> = None;
        let mut held: Option<(Mem, u8)> = None;
        let mut reading: Option<(Mem, Vec<u8>)> = None;
        barrier.wait();
        for op in ops.as_array().unwrap() {
          std::thread::sleep(std::time::Duration::from_micros(n(op, "delay") as u64));
          log.inv(t, op);
          let unit = |r: Result<(), Error>| r.map_or_else(|e| code(&e), |()| "ok".into());
          let mut fresh = None;
          let r: String = match s(op, "op").as_str() {
            "regp" => unit(buf.clone().register_producer().map(|p| prod = Some(p))),
            "regc" => unit(Reader::register(&buf, false).map(|c| reader = Some(c))),
            "reserve" => match prod.as_mut().unwrap().reserve(n(op, "len") as u32, true).map(|m| Mem::of(m)) {
              Ok(m) => {
                fresh = Some(m);
                "ok".into()
              },
              Err(e) => code(&e),
            },
            "commit" => {
              let bad = held.as_ref().map_or(false, |(m, s)| m.get() != pattern(*s, m.1));
              let r = prod.as_mut().unwrap().commit();
              held = None;
              if bad { "clobbered".into() } else { unit(r) }
            },
            "start" => match reader.as_mut().unwrap().start(false).map(Mem::of) {
              Ok(m) => {
                let d = m.get().to_vec();
                let r = serial_of(&d).map_or_else(|| format!("garbage:{d:?}"), |s| format!("rec:{s}"));
                reading = Some((m, d));
                r
              },
              Err(e) => code(&e),
            },
            "finish" => {
              let changed = reading.as_ref().map_or(false, |(m, d)| m.get() != d.as_slice());
              let r = reader.as_mut().unwrap().finish();
              reading = None;
              if changed { "changed".into() } else { unit(r) }
            },
            o => panic!("{o}"),
          };
          log.ret(t, json!({"r": r}));
          if let Some(m) = fresh {
            let id = n(op, "id") as u8;
            let d = m.get();
            for (i, v) in pattern(id, d.len()).into_iter().enumerate() {
              d[i] = v;
              if i == d.len() / 2 {
                std::thread::yield_now();
              }
            }
            held = Some((m, id));
          }
        }
        // Handles stay registered until every thread is done, as in the specification.
        barrier.wait();
        if held.is_some() {
          std::mem::forget(prod);
        }
      });
    }
  });
}
