//! Key-value store (C03) and device identifier (C04).
use base64::Engine;
use bd_device::Device;
use bd_key_value::{Key, Storable, Store};
use drv_kit::{json, n, s, Log, Rng, Value};
use drv_store::Fake;
use parking_lot::Mutex;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::sync::Arc;
use std::time::Duration;

fn main() {
  if std::env::args().nth(3).as_deref() == Some("device") {
    drv_kit::main(device);
  } else {
    drv_kit::main(kv);
  }
}

//
// Key-value
//

#[derive(Serialize, Deserialize, PartialEq, Clone)]
struct Pair {
  a: u64,
  b: Option<String>,
  c: Vec<u8>,
  d: bool,
}
impl Storable for Pair {}

#[derive(Serialize, Deserialize, PartialEq, Clone)]
enum Sum {
  I(i64),
  S(String),
  U,
}
impl Storable for Sum {}

/// A type of value with a few concrete values and their wire form in shipped releases.
trait Palette: Storable + PartialEq + Clone {
  fn value(i: i64, rng: u64) -> Self;
  fn wire(&self) -> Vec<u8>;
}

fn len(n: usize) -> Vec<u8> {
  (n as u64).to_le_bytes().to_vec()
}
fn wire_str(s: &str) -> Vec<u8> {
  [len(s.len()), s.as_bytes().to_vec()].concat()
}

impl Palette for String {
  fn value(i: i64, rng: u64) -> Self {
    match (rng % 3, i) {
      (0, 1) => String::new(),
      (1, 1) => "\u{0}\u{1F600}\n".repeat(3),
      (_, 1) => "x".repeat(5000),
      (0, _) => format!("value {i}"),
      (1, _) => format!("é{i}"),
      _ => "\u{7f}".repeat(i as usize),
    }
  }
  fn wire(&self) -> Vec<u8> {
    wire_str(self)
  }
}
impl Palette for Pair {
  fn value(i: i64, rng: u64) -> Self {
    Self {
      a: if i == 1 { u64::MAX } else { i as u64 },
      b: (i % 2 == 0).then(|| format!("b{i}")),
      c: (0 .. (rng % 7) as u8).map(|x| x * 40 + i as u8).collect(),
      d: i % 3 == 0,
    }
  }
  fn wire(&self) -> Vec<u8> {
    let b = self.b.as_ref().map_or(vec![0], |b| [vec![1], wire_str(b)].concat());
    [self.a.to_le_bytes().to_vec(), b, len(self.c.len()), self.c.clone(), vec![u8::from(self.d)]].concat()
  }
}
impl Palette for Sum {
  fn value(i: i64, rng: u64) -> Self {
    match (i + rng as i64) % 3 {
      0 => Self::I(-i),
      1 => Self::S(format!("{i}")),
      _ if i == 1 => Self::U,
      _ => Self::I(i64::MIN + i),
    }
  }
  fn wire(&self) -> Vec<u8> {
    match self {
      Self::I(i) => [0u32.to_le_bytes().to_vec(), i.to_le_bytes().to_vec()].concat(),
      Self::S(s) => [1u32.to_le_bytes().to_vec(), wire_str(s)].concat(),
      Self::U => 2u32.to_le_bytes().to_vec(),
    }
  }
}

/// Malformed entries: never the encoding of any value of the type.
fn junk(wire: &[u8], rng: &mut Rng) -> String {
  let e = base64::engine::general_purpose::STANDARD;
  match rng.below(9) {
    0 => String::new(),
    1 => "%%%%".to_string(),
    2 => e.encode(&wire[.. wire.len() - 1]),
    3 => e.encode(&wire[.. rng.below(wire.len() as u64) as usize]),
    4 => "=".to_string(),
    5 => e.encode([0xffu8; 12]),
    6 => {
      let mut s = e.encode(wire);
      s.insert(s.len() / 2, ' ');
      s
    },
    7 => format!("{}!", e.encode(wire)),
    _ => "\u{1F600}".to_string(),
  }
}

const KEYS: [[&str; 3]; 4] = [
  ["a", "ab", "b"],
  ["state.1", "state.10", "state"],
  ["", " ", "\u{0}"],
  ["Key", "key", "KEY"],
];

struct Cell<T: Palette> {
  key: Key<T>,
  rng: u64,
}

trait AnyCell: Sync {
  fn key(&self) -> &str;
  fn set(&self, st: &Store, v: i64);
  fn seti(&self, st: &Store, v: i64) -> bool;
  fn get(&self, st: &Store) -> i64;
  fn geti(&self, st: &Store) -> (i64, bool);
  fn wire(&self, v: i64) -> Vec<u8>;
}

impl<T: Palette> Cell<T> {
  fn index(&self, v: Option<T>) -> i64 {
    v.map_or(0, |v| (1 .. 9).find(|i| T::value(*i, self.rng) == v).unwrap_or(99))
  }
}

impl<T: Palette + Sync + Send> AnyCell for Cell<T> {
  fn key(&self) -> &str {
    self.key.key()
  }
  fn set(&self, st: &Store, v: i64) {
    st.set(&self.key, &T::value(v, self.rng));
  }
  fn seti(&self, st: &Store, v: i64) -> bool {
    st.set_internal(&self.key, &T::value(v, self.rng)).is_ok()
  }
  fn get(&self, st: &Store) -> i64 {
    self.index(st.get(&self.key))
  }
  fn geti(&self, st: &Store) -> (i64, bool) {
    st.get_internal(&self.key).map_or((0, false), |v| (self.index(v), true))
  }
  fn wire(&self, v: i64) -> Vec<u8> {
    T::value(v, self.rng).wire()
  }
}

fn cells(rng: &mut Rng) -> HashMap<String, Box<dyn AnyCell>> {
  let names = KEYS[rng.below(4) as usize];
  let rot = rng.below(3) as usize;
  let mut out: HashMap<String, Box<dyn AnyCell>> = HashMap::new();
  for (i, k) in ["a", "b", "c"].iter().enumerate() {
    let name = names[i];
    let r = rng.below(3);
    let c: Box<dyn AnyCell> = match (i + rot) % 3 {
      0 => Box::new(Cell::<String> { key: Key::new(name), rng: r }),
      1 => Box::new(Cell::<Pair> { key: Key::new(name), rng: r }),
      _ => Box::new(Cell::<Sum> { key: Key::new(name), rng: r }),
    };
    out.insert((*k).to_string(), c);
  }
  out
}

fn hash(v: &Value) -> u64 {
  v.to_string().bytes().fold(drv_kit::seed(), |a, b| a.wrapping_mul(31).wrapping_add(u64::from(b)))
}

fn kv(test: &Value, log: &Log) {
  let mut rng = Rng(hash(test));
  let cells = cells(&mut rng);
  let disk = Fake::default();
  let keys: Vec<String> = drv_kit::arr(&test["cfg"], "keys").iter().map(|k| k.as_str().unwrap().to_string()).collect();
  let look = |w: &Fake| -> Value {
    keys
      .iter()
      .map(|k| {
        let c = &cells[k];
        let v = if w.has(c.key()) {
          match c.geti(&w.peek()) {
            (v, true) => v,
            _ => -1,
          }
        } else {
          0
        };
        (k.clone(), json!(v))
      })
      .collect::<drv_kit::Map>()
      .into()
  };
  let mut st = disk.store();
  if test.get("threads").is_some() {
    std::thread::scope(|sc| {
      for (t, ops) in drv_kit::arr(test, "threads").iter().enumerate() {
        let (st, cells) = (st.clone(), &cells);
        sc.spawn(move || {
          for op in ops.as_array().unwrap() {
            let c = &cells[&s(op, "k")];
            log.inv(t, op);
            let v = if s(op, "op") == "set" {
              c.set(&st, n(op, "v"));
              0
            } else {
              c.get(&st)
            };
            log.ret(t, json!({"v": v}));
          }
        });
      }
    });
    return;
  }
  for op in drv_kit::arr(test, "ops") {
    let f = s(op, "fault");
    disk.fault(&f);
    {
      let mut i = disk.0.lock();
      i.fail_write_after = f == "wa";
      i.fail_delete |= f == "x";
    }
    let c = cells.get(&s(op, "k"));
    let v = n(op, "v");
    let (v, ok) = match (s(op, "op").as_str(), c) {
      ("set", Some(c)) => {
        c.set(&st, v);
        (0, true)
      },
      ("seti", Some(c)) => (0, c.seti(&st, v)),
      ("get", Some(c)) => (c.get(&st), true),
      ("geti", Some(c)) => c.geti(&st),
      ("legacy", Some(c)) => {
        disk.put_raw(c.key(), Some(&base64::engine::general_purpose::STANDARD.encode(c.wire(v))));
        (0, true)
      },
      ("corrupt", Some(c)) => {
        let w = c.wire(1 + rng.below(3) as i64);
        disk.put_raw(c.key(), Some(&junk(&w, &mut rng)));
        (0, true)
      },
      _ => {
        st = disk.store();
        (0, true)
      },
    };
    disk.fault("none");
    disk.0.lock().fail_write_after = false;
    log.op(op, json!({"v": v, "ok": ok, "disk": look(&disk)}));
  }
}

//
// Device
//

const DEVICE_KEY: Key<String> = Key::new("device.state");

fn device(test: &Value, log: &Log) {
  let mut rng = Rng(hash(test));
  let disk = Fake::default();
  let ids: Mutex<HashMap<String, i64>> = Mutex::default();
  let id_of = |v: &str| -> i64 {
    let mut m = ids.lock();
    let next = m.len() as i64 + 1;
    *m.entry(v.to_string()).or_insert(next)
  };
  let look = |disk: &Fake| -> i64 {
    if disk.has("device.state") {
      disk.peek().get(&DEVICE_KEY).map_or(-1, |v: String| id_of(&v))
    } else {
      0
    }
  };
  match n(&test["cfg"], "disk") {
    0 => {},
    1 => {
      let v = ["", "0b6c7b3e-2a54-4b0f-9b0c-0123456789ab", "legacy \u{e9}"][rng.below(3) as usize];
      id_of(v);
      let raw = base64::engine::general_purpose::STANDARD.encode(wire_str(v));
      disk.put_raw("device.state", Some(&raw));
    },
    _ => disk.put_raw("device.state", Some(&junk(&wire_str("device"), &mut rng))),
  }
  let mut d = Arc::new(Device::new(disk.store()));
  if test.get("threads").is_some() {
    disk.0.lock().slow = Some(Duration::from_micros(rng.below(400)));
    let ts = drv_kit::arr(test, "threads");
    let barrier = std::sync::Barrier::new(ts.len());
    let seen: Mutex<Vec<(usize, i64)>> = Mutex::default();
    std::thread::scope(|sc| {
      for (t, ops) in ts.iter().enumerate() {
        let (d, barrier, disk, id_of, look, seen) = (d.clone(), &barrier, &disk, &id_of, &look, &seen);
        sc.spawn(move || {
          barrier.wait();
          for op in ops.as_array().unwrap() {
            std::thread::sleep(Duration::from_micros(n(op, "delay") as u64));
            log.inv(t, op);
            let id = d.id();
            let on_disk = look(disk);
            let id = id_of(&id);
            seen.lock().push((t, id));
            log.ret(t, json!({"id": id, "disk": on_disk}));
          }
        });
      }
    });
    return;
  }
  for op in drv_kit::arr(test, "ops") {
    disk.fault(&s(op, "fault"));
    let id = match s(op, "op").as_str() {
      "id" => id_of(&d.id()),
      "crash" => {
        disk.0.lock().die = Some(s(op, "at") == "after");
        let d2 = d.clone();
        let _ = std::thread::spawn(move || d2.id()).join();
        disk.0.lock().die = None;
        d = Arc::new(Device::new(disk.store()));
        0
      },
      "corrupt" => {
        let j = junk(&wire_str("device"), &mut rng);
        disk.put_raw("device.state", Some(&j));
        0
      },
      _ => {
        d = Arc::new(Device::new(disk.store()));
        0
      },
    };
    disk.fault("none");
    log.op(op, json!({"id": id, "disk": look(&disk)}));
  }
}
