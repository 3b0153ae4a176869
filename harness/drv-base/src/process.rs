//! The policies of a process: how many threads it uses and what a panic does to it.  Each history runs in a process of its own.
use drv_kit::{arr, b, json, n, s, Log, Value};
use std::io::Write;
use std::sync::{Mutex, OnceLock};

static OUT: OnceLock<Mutex<std::fs::File>> = OnceLock::new();
fn out(v: &Value) {
  let mut f = OUT.get().unwrap().lock().unwrap();
  writeln!(f, "{v}").unwrap();
  f.flush().unwrap();
}

struct Lines;
impl log::Log for Lines {
  fn enabled(&self, _: &log::Metadata<'_>) -> bool {
    true
  }
  fn log(&self, r: &log::Record<'_>) {
    if r.level() == log::Level::Error && r.target().starts_with("bd_panic") {
      out(&json!({"log": r.args().to_string()}));
    }
  }
  fn flush(&self) {}
}

fn boom(payload: &str, i: usize) {
  match payload {
    "string" => panic!("boom-{i}"),
    "str" => std::panic::panic_any(["boom-0", "boom-1", "boom-2", "boom-3", "boom-4", "boom-5", "boom-6", "boom-7"].get(i).copied().unwrap_or("boom-x")),
    _ => std::panic::panic_any(i),
  }
}

pub fn child() {
  let args: Vec<String> = std::env::args().collect();
  let _ = OUT.set(Mutex::new(std::fs::File::create(&args[2]).unwrap()));
  let _ = log::set_logger(&Lines);
  log::set_max_level(log::LevelFilter::Error);
  let ops: Value = serde_json::from_str(&std::fs::read_to_string(&args[1]).unwrap()).unwrap();
  let default = std::thread::available_parallelism().map_or(1, usize::from);
  for (i, op) in ops.as_array().unwrap().iter().enumerate() {
    let mut count = 0;
    let mut res = "";
    match s(op, "op").as_str() {
      "env" => match s(op, "v").as_str() {
        "unset" => std::env::remove_var("NUM_CPUS"),
        v => std::env::set_var("NUM_CPUS", v),
      },
      "cpus" => count = bd_rt::num_cpus(),
      "once" => count = *bd_rt::NUM_CPUS,
      "rt" => {
        let rt = bd_rt::new_runtime().unwrap();
        count = rt.metrics().num_workers();
        // It does run what it is given.
        if rt.block_on(async { tokio::spawn(async { tokio::time::sleep(std::time::Duration::from_micros(1)).await; 7 }).await.unwrap() }) != 7 {
          res = "wrong";
        }
      },
      "install" => {
        if b(op, "log") {
          std::env::set_var("LOG_PANIC", "1");
        } else {
          std::env::remove_var("LOG_PANIC");
        }
        bd_panic::default(if b(op, "abort") { bd_panic::PanicType::ForceAbort } else { bd_panic::PanicType::BacktraceOnly });
      },
      "panic" => {
        let payload = s(op, "p");
        let ended = match s(op, "at").as_str() {
          "thread" => std::thread::spawn(move || boom(&payload, i)).join().is_err(),
          "task" => {
            let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(1).build().unwrap();
            rt.block_on(async { tokio::spawn(async move { boom(&payload, i) }).await.is_err() })
          },
          _ => std::panic::catch_unwind(|| boom(&payload, i)).is_err(),
        };
        res = if ended { "caught" } else { "none" };
      },
      o => panic!("op {o}"),
    }
    out(&json!({"n": count, "d": default, "r": res}));
  }
}

pub fn test(test: &Value, log: &Log) {
  static RUNS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
  let base = drv_kit::scratch().join(format!("proc{}", RUNS.fetch_add(1, std::sync::atomic::Ordering::SeqCst)));
  let (i, o) = (base.with_extension("in"), base.with_extension("out"));
  std::fs::write(&i, test["ops"].to_string()).unwrap();
  let r = std::process::Command::new(std::env::current_exe().unwrap())
    .args([i.as_os_str(), o.as_os_str(), "process-child".as_ref()])
    .env_remove("NUM_CPUS")
    .env_remove("LOG_PANIC")
    .output()
    .unwrap();
  let text = String::from_utf8_lossy(&r.stderr).to_string();
  let got = std::fs::read_to_string(&o).unwrap_or_default();
  let mut lines = got.lines().map(|l| serde_json::from_str::<Value>(l).unwrap());
  for (k, op) in arr(test, "ops").iter().enumerate() {
    let mut logs = vec![];
    let mut end = None;
    for l in lines.by_ref() {
      match l["log"].as_str() {
        Some(m) => logs.push(describe(m, k)),
        None => {
          end = Some(l);
          break;
        },
      }
    }
    let shown = text.contains(&format!("boom-{k}"));
    match end {
      Some(e) => log.op(op, json!({"alive": true, "n": n(&e, "n"), "d": n(&e, "d"), "r": s(&e, "r"), "logs": logs, "shown": shown})),
      None => {
        log.op(op, json!({"alive": false, "n": r.status.code().unwrap_or(-1), "d": 0, "r": "", "logs": logs, "shown": shown}));
        break;
      },
    }
  }
  let _ = std::fs::remove_file(i);
  let _ = std::fs::remove_file(o);
}

/// A logged line without what differs from place to place.
fn describe(m: &str, k: usize) -> String {
  if let Some(r) = m.strip_prefix("panic: message=\"").and_then(|r| r.split_once("\" location=")) {
    let place = r.1.rsplit_once(':').is_some_and(|(f, n)| f.ends_with("process.rs") && n.parse::<u32>().is_ok());
    return match r.0 {
      x if x == format!("boom-{k}") && place => "text".to_string(),
      "<none>" if place => "none".to_string(),
      _ => m.to_string(),
    };
  }
  if m == "Forcing process exit after panic" { "exit".to_string() } else { m.to_string() }
}
