//! The runtime configuration loader, its watches and its cache directory.
use bd_client_common::file::read_compressed_protobuf;
use bd_proto::protos::client::api::RuntimeUpdate;
use bd_proto::protos::client::runtime::runtime::{value, Value as RtValue};
use bd_proto::protos::client::runtime::Runtime;
use bd_runtime::runtime::{BoolWatch, ConfigLoader, DurationWatch, FeatureFlag, IntWatch, RuntimeManager};
use drv_kit::*;
use protobuf::Message;
use std::collections::HashMap;
use std::path::{Path, PathBuf};
use std::sync::{Arc, Barrier};

bd_runtime::int_feature_flag!(IntFlag, "t.int", 7);
bd_runtime::bool_feature_flag!(BoolFlag, "t.bool", true);
bd_runtime::duration_feature_flag!(DurFlag, "t.dur", time::Duration::milliseconds(500));
// The same path with another type.
bd_runtime::bool_feature_flag!(OddFlag, "t.int", true);

enum Handle {
  I(IntWatch<IntFlag>),
  B(BoolWatch<BoolFlag>),
  D(DurationWatch<DurFlag>),
}

impl Handle {
  fn new(l: &ConfigLoader, f: &str) -> anyhow::Result<Self> {
    Ok(match f {
      "int" => Self::I(IntFlag::register(l)?),
      "bool" => Self::B(BoolFlag::register(l)?),
      _ => Self::D(DurFlag::register(l)?),
    })
  }
  fn read(&self) -> i64 {
    match self {
      Self::I(w) => w.read().into(),
      Self::B(w) => w.read().into(),
      Self::D(w) => w.read().whole_milliseconds() as i64,
    }
  }
  fn mark(&mut self) -> i64 {
    match self {
      Self::I(w) => w.read_mark_update().into(),
      Self::B(w) => w.read_mark_update().into(),
      Self::D(w) => w.read_mark_update().whole_milliseconds() as i64,
    }
  }
  fn changed(&self) -> bool {
    match self {
      Self::I(w) => w.has_changed(),
      Self::B(w) => w.has_changed(),
      Self::D(w) => w.has_changed(),
    }
  }
  /// A waiter sees the change, and only once.
  fn wait(&mut self) -> bool {
    let f = async {
      tokio::select! {
        biased;
        r = async { match self {
          Self::I(w) => w.changed().await,
          Self::B(w) => w.changed().await,
          Self::D(w) => w.changed().await,
        }} => r.is_ok(),
        () = tokio::task::yield_now() => false,
      }
    };
    tokio::runtime::Builder::new_current_thread().build().unwrap().block_on(f)
  }
}

fn update(c: &Value) -> RuntimeUpdate {
  let mut values = HashMap::new();
  for (k, name) in [("int", "t.int"), ("bool", "t.bool"), ("dur", "t.dur"), ("str", "t.str")] {
    let v = n(c, k);
    let t = match (v, k) {
      (-1, _) => continue,
      (-2, "str") => value::Type::UintValue(3),
      (-2, _) => value::Type::StringValue("x".to_string()),
      (_, "bool") => value::Type::BoolValue(v != 0),
      (_, "str") => value::Type::StringValue(format!("s{v}")),
      _ => value::Type::UintValue(v as u32),
    };
    values.insert(name.to_string(), RtValue { type_: Some(t), ..Default::default() });
  }
  RuntimeUpdate { version_nonce: s(c, "v"), runtime: Some(Runtime { values, ..Default::default() }).into(), ..Default::default() }
}

/// Some(true): read as an empty configuration; Some(false): unreadable; None: neither.
fn reads(data: &[u8]) -> Option<bool> {
  match read_compressed_protobuf::<RuntimeUpdate>(data) {
    Ok(_) => None,
    Err(_) => match RuntimeUpdate::parse_from_bytes(data) {
      Ok(u) => (u.version_nonce.is_empty() && u.runtime.values.is_empty()).then_some(true),
      Err(_) => Some(false),
    },
  }
}

fn remove(p: &Path) {
  let _ = std::fs::remove_file(p);
  let _ = std::fs::remove_dir_all(p);
}

fn race(dir: &Path, cs: &Value, rounds: i64) -> i64 {
  let mut bad = 0;
  let confs: Vec<RuntimeUpdate> = cs.as_array().unwrap().iter().map(update).collect();
  for i in 0 .. rounds {
    let l = ConfigLoader::new(dir);
    l.update_snapshot(&confs[0]);
    let gate = Arc::new(Barrier::new(2));
    let (l2, g2, u) = (l.clone(), gate.clone(), confs[1].clone());
    let t = std::thread::spawn(move || {
      g2.wait();
      l2.update_snapshot(&u);
    });
    gate.wait();
    for _ in 0 .. i % 40 {
      std::hint::spin_loop();
    }
    let hs: Vec<Handle> = ["int", "bool", "dur"].iter().map(|f| Handle::new(&l, f).unwrap()).collect();
    t.join().unwrap();
    let snap = l.snapshot();
    let want = [
      i64::from(snap.get_integer("t.int", 7)),
      i64::from(snap.get_bool("t.bool", true)),
      snap.get_duration("t.dur", time::Duration::milliseconds(500)).whole_milliseconds() as i64,
    ];
    if hs.iter().zip(want).any(|(h, w)| h.read() != w) {
      bad += 1;
    }
  }
  bad
}

fn run(test: &Value, log: &Log) {
  let dir: PathBuf = scratch().join("sdk");
  let _ = std::fs::remove_dir_all(&dir);
  std::fs::create_dir_all(&dir).unwrap();
  let (pb, rc) = (dir.join("runtime/update.pb"), dir.join("runtime/retry_count"));
  let cs = &test["cfg"]["cs"];
  let conf = |op: &Value| update(&cs[n(op, "i") as usize - 1]);
  let mut l = ConfigLoader::new(&dir);
  let mut hs: Vec<Handle> = vec![];
  for op in arr(test, "ops") {
    let mut op = op.clone();
    let mut r = json!("ok");
    match op["op"].as_str().unwrap() {
      "new" => {
        hs.clear();
        l = ConfigLoader::new(&dir);
      },
      "load" => RuntimeManager::new(l.clone()).handle_cached_config(),
      "crashes" => {
        hs.clear();
        for _ in 0 .. n(&op, "n") {
          l = ConfigLoader::new(&dir);
          l.handle_cached_config();
        }
      },
      "update" => RuntimeManager::new(l.clone()).process_update(&conf(&op)),
      "half" => {
        // The process ends between the two writes of an update.
        let old = std::fs::read(&rc).ok();
        l.update_snapshot(&conf(&op));
        if !rc.is_dir() {
          match old {
            Some(o) => std::fs::write(&rc, o).unwrap(),
            None => remove(&rc),
          }
        }
        hs.clear();
        l = ConfigLoader::new(&dir);
      },
      "safe" => RuntimeManager::new(l.clone()).server_is_available(),
      "reg" => match Handle::new(&l, &s(&op, "f")) {
        Ok(h) => hs.push(h),
        Err(_) => r = json!("err"),
      },
      "odd" => r = json!(if OddFlag::register(&l).is_err() { "err" } else { "ok" }),
      "mark" => r = json!(hs[n(&op, "h") as usize - 1].mark().to_string()),
      "await" => r = json!(if hs[n(&op, "h") as usize - 1].wait() { "changed" } else { "same" }),
      "race" => r = json!(race(&scratch().join("sdk"), cs, n(&op, "n")).to_string()),
      "damage" => {
        let p = if op["w"] == "pb" { &pb } else { &rc };
        let old = std::fs::read(p).unwrap_or_default();
        remove(p);
        let x = n(&op, "x") as usize;
        let data = match op["how"].as_str().unwrap() {
          "del" => None,
          "dir" => {
            std::fs::create_dir(p).unwrap();
            None
          },
          "cut" if op["w"] == "pb" => Some(old[.. x % old.len()].to_vec()),
          "flip" => {
            let mut d = old.clone();
            let i = x % d.len();
            d[i] ^= 1 << (x / 1000 % 8);
            Some(d)
          },
          "plain" => Some(conf(&op).write_to_bytes().unwrap()),
          "num" => Some(n(&op, "x").to_string().into_bytes()),
          "empty" | "cut" => Some(vec![]),
          _ => Some(b"-3".to_vec()),
        };
        if let Some(mut d) = data {
          if op["w"] == "pb" && op["how"] != "plain" {
            let e = reads(&d).unwrap_or_else(|| {
              d = vec![0xff];
              false
            });
            op["raw"] = json!(e);
          }
          std::fs::write(p, d).unwrap();
        }
      },
      o => panic!("{o}"),
    }
    let snap = l.snapshot();
    let text = snap.get_string("t.str", "s9");
    let nonce = RuntimeManager::new(l.clone()).version_nonce().unwrap_or_default();
    log.op(
      &op,
      json!({
        "r": r,
        "nonce": nonce,
        "get": [
          snap.get_integer("t.int", 7),
          i64::from(snap.get_bool("t.bool", true)),
          snap.get_duration("t.dur", <DurFlag as FeatureFlag<time::Duration>>::default()).whole_milliseconds() as i64,
          text.strip_prefix('s').map_or(0, |t| t.parse().unwrap()),
        ],
        "hs": hs.iter().map(|h| json!({"v": h.read(), "chg": h.changed()})).collect::<Vec<_>>(),
      }),
    );
  }
}

struct Quiet;
impl bd_client_common::error::Reporter for Quiet {
  fn report(&self, _: &str, _: &Option<String>, _: &HashMap<std::borrow::Cow<'_, str>, std::borrow::Cow<'_, str>>) {}
}

fn main() {
  // A damaged cache is reported; in the product the report does not stop the process.
  bd_client_common::error::UnexpectedErrorHandler::set_reporter(Arc::new(Quiet));
  drv_kit::main(run);
}
