"""Planted bugs, first group."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seed import add

SESS = '''
use bd_session::fixed::{Callbacks, Strategy as Fixed};
use bd_session::Strategy;
use drv_store::Fake;
use std::sync::Arc;
use std::sync::atomic::{AtomicUsize, Ordering};
struct Cb { n: AtomicUsize, fail: std::sync::atomic::AtomicBool, slow: bool }
impl Callbacks for Cb {
  fn generate_session_id(&self) -> anyhow::Result<String> {
    if self.slow { std::thread::sleep(std::time::Duration::from_millis(200)); }
    anyhow::ensure!(!self.fail.load(Ordering::SeqCst), "no id");
    Ok(format!("id{}", self.n.fetch_add(1, Ordering::SeqCst)))
  }
}
fn mk(d: &Fake, slow: bool) -> (Arc<Cb>, Strategy) {
  let cb = Arc::new(Cb { n: AtomicUsize::new(0), fail: false.into(), slow });
  (cb.clone(), Strategy::Fixed(Fixed::new(d.store(), cb)))
}
'''
F = "bd-session/src/fixed.rs"
add("c01-prev-from-own", "C01", "a first-ever process that starts more than one session", "the previous-process session id becomes a session id of the running process",
    [(F, "        previous_process_session_id: state.previous_process_session_id.clone(),\n      },\n    );",
      "        previous_process_session_id: state\n          .previous_process_session_id\n          .clone()\n          .or_else(|| self.store.get(&STATE_KEY).map(|state: State| state.session_id)),\n      },\n    );")],
    ["bd-session", "drv-store", "anyhow"], SESS + '''
fn main() {
  let d = Fake::default();
  let (_, s) = mk(&d, false);
  s.session_id();
  s.start_new_session();
  assert_eq!(None, s.previous_process_session_id());
  s.start_new_session();
  assert_eq!(None, s.previous_process_session_id());
}
''')
if 0: add("c01-failed-callback-flag", "C01", "the application callback fails once", "after a failed callback every read on that thread sees a different session id",
    [(F, """      let session_id = self.callbacks.generate_session_id().unwrap_or_else(|_| {
        let id = Uuid::new_v4().to_string();
        log::warn!(
          "failed to generate a new session ID, using a random UUID instead {:?}",
          id
        );
        id
      });
      cell.set(false);

      session_id
""", """      let Ok(session_id) = self.callbacks.generate_session_id() else {
        let id = Uuid::new_v4().to_string();
        log::warn!(
          "failed to generate a new session ID, using a random UUID instead {:?}",
          id
        );
        return id;
      };
      cell.set(false);

      session_id
""")],
    ["bd-session", "drv-store", "anyhow"], SESS + '''
fn main() {
  let d = Fake::default();
  let (cb, s) = mk(&d, false);
  cb.fail.store(true, Ordering::SeqCst);
  let a = s.session_id();
  cb.fail.store(false, Ordering::SeqCst);
  assert_eq!(a, s.session_id());
}
''')
add("c01-unlocked-callback", "C01", "two threads read the session id for the first time at once", "two threads see different current session ids",
    [(F, """    let mut guard = self.state.lock();
    // Clippy's proposal leads to code that doesn't compile.
    #[allow(clippy::option_if_let_else)]
    if let Some(state) = guard.as_ref() {
      state.session_id.clone()
    } else {
""", """    // Do not hold the lock while calling into the application.
    let current = self.state.lock().clone();
    // Clippy's proposal leads to code that doesn't compile.
    #[allow(clippy::option_if_let_else)]
    if let Some(state) = current.as_ref() {
      state.session_id.clone()
    } else {
"""), (F, "      *guard = Some(state.clone());\n\n      self.store", "      *self.state.lock() = Some(state.clone());\n\n      self.store")],
    ["bd-session", "drv-store", "anyhow"], SESS + '''
fn main() {
  let d = Fake::default();
  let (_, s) = mk(&d, true);
  let s = Arc::new(s);
  let h: Vec<_> = (0 .. 4).map(|_| { let s = s.clone(); std::thread::spawn(move || s.session_id()) }).collect();
  let ids: Vec<String> = h.into_iter().map(|h| h.join().unwrap()).collect();
  for i in &ids { assert_eq!(*i, s.session_id()); }
}
''')

KV = "bd-key-value/src/lib.rs"
add("c03-skip-unchanged", "C03", "an entry goes bad underneath, is read (and removed), and the same value is stored again", "a stored value is not returned: the write was skipped as unchanged although the entry had been removed",
    [(KV, "pub struct Store {\n  storage: Box<dyn Storage + Sync + Send>,\n}", "pub struct Store {\n  storage: Box<dyn Storage + Sync + Send>,\n  // The last value written per key, used to avoid writing the same value over and over.\n  written: std::sync::Mutex<std::collections::HashMap<&'static str, String>>,\n}"),
     (KV, "    Self { storage }", "    Self {\n      storage,\n      written: std::sync::Mutex::default(),\n    }"),
     (KV, """    if let Err(e) = self.storage.set_string(key.key, &base64) {
      anyhow::bail!("failed to set string: {:?}", e);
    }
""", """    if self.written.lock().unwrap().get(key.key) == Some(&base64) {
      return Ok(());
    }
    if let Err(e) = self.storage.set_string(key.key, &base64) {
      anyhow::bail!("failed to set string: {:?}", e);
    }
    self.written.lock().unwrap().insert(key.key, base64);
""")],
    ["bd-key-value", "drv-store"], '''
use bd_key_value::Key;
static K: Key<String> = Key::new("k");
fn main() {
  let d = drv_store::Fake::default();
  let s = d.store();
  let v = "v".to_string();
  s.set(&K, &v);
  d.put_raw("k", Some("%%"));
  assert_eq!(None, s.get(&K));
  s.set(&K, &v);
  assert_eq!(Some(v), s.get(&K));
}
''')
add("c03-keep-unreadable", "C03", "stored bytes are not valid base64", "a malformed entry stays in the storage after it was read",
    [(KV, """        Ok(result.map_or_else(
          |e| anyhow::bail!("failed to decode base64 value: {:?}", e),
          |bytes|""", """        Ok(result.map_or_else(
          |e| {
            log::debug!("failed to decode base64 value: {e:?}");
            Ok(None)
          },
          |bytes|""")],
    ["bd-key-value", "drv-store"], '''
use bd_key_value::Key;
static K: Key<String> = Key::new("k");
fn main() {
  let d = drv_store::Fake::default();
  let s = d.store();
  d.put_raw("k", Some("%%"));
  assert_eq!(None, s.get(&K));
  assert!(!d.has("k"));
}
''')

D = "bd-device/src/lib.rs"
add("c04-double-checked", "C04", "two threads ask for the first identifier at once, and the process restarts", "the durable identifier differs from the one handed out",
    [(D, """    let mut guard = self.id.lock();

    #[allow(clippy::option_if_let_else)]
    if let Some(id) = guard.as_ref() {
      id.to_string()
""", """    let cached = self.id.lock().clone();

    #[allow(clippy::option_if_let_else)]
    if let Some(id) = cached {
      id
"""), (D, "      *guard = Some(id.clone());\n      id\n", "      // Another caller may have been faster.\n      self.id.lock().get_or_insert(id).clone()\n")],
    ["bd-device", "drv-store"], '''
use bd_device::Device;
use std::sync::Arc;
fn main() {
  for _ in 0 .. 10 {
    let d = drv_store::Fake::default();
    d.0.lock().slow = Some(std::time::Duration::from_millis(5));
    let dev = Arc::new(Device::new(d.store()));
    let h: Vec<_> = (0 .. 4u64).map(|i| { let s = dev.clone(); std::thread::spawn(move || { std::thread::sleep(std::time::Duration::from_millis(i)); s.id() }) }).collect();
    let ids: Vec<String> = h.into_iter().map(|h| h.join().unwrap()).collect();
    let next = Device::new(d.store()).id();
    for i in &ids { assert_eq!(*i, next); }
  }
}
''')
add("c04-cache-only-durable", "C04", "the first write of the identifier fails", "an identifier handed out once is replaced by another one in the same process",
    [(D, "      *guard = Some(id.clone());\n      id\n", "      // Only what can be read back is worth caching.\n      if self.store.get(&DEVICE_ID_KEY).is_some() {\n        *guard = Some(id.clone());\n      }\n      id\n")],
    ["bd-device", "drv-store"], '''
use bd_device::Device;
fn main() {
  let d = drv_store::Fake::default();
  d.fault("w");
  let dev = Device::new(d.store());
  let a = dev.id();
  assert_eq!(a, dev.id());
}
''')

A = "bd-logger/src/app_version.rs"
APPV = '''
use bd_logger::verif::AppVersions;
use bd_logger::AppVersionExtra as E;
'''
add("c05-kind-ignored", "C05", "the build discriminator changes its kind but reads the same", "a change of the kind of the build discriminator is not reported",
    [(A, "#[derive(Eq, PartialEq, serde::Serialize, serde::Deserialize, Debug)]\npub enum AppVersionExtra {", "#[derive(Eq, serde::Serialize, serde::Deserialize, Debug)]\npub enum AppVersionExtra {"),
     (A, "impl AppVersionExtra {", "impl PartialEq for AppVersionExtra {\n  fn eq(&self, other: &Self) -> bool {\n    self.string_value() == other.string_value()\n  }\n}\n\nimpl AppVersionExtra {")],
    ["bd-logger", "drv-store"], APPV + '''
fn main() {
  let d = drv_store::Fake::default();
  let r = AppVersions::new(d.store());
  assert!(r.set("1".into(), E::AppVersionCode(7)).is_none());
  assert!(r.set("1".into(), E::BuildNumber("7".into())).is_some());
}
''')
if 0: add("c05-asking-consumes", "C05", "the version changed and then changed back before being recorded", "merely asking consumes the report when the build alone changed",
    [(A, "    app_version != &previous_app_version\n", """    let changed = app_version != &previous_app_version;
    if changed && app_version.app_version == previous_app_version.app_version {
      // Same release, keep the build up to date.
      self.store.set(&APP_VERSION_KEY, app_version);
    }
    changed
""")],
    ["bd-logger", "drv-store"], APPV + '''
fn main() {
  let d = drv_store::Fake::default();
  let r = AppVersions::new(d.store());
  assert!(r.set("1".into(), E::AppVersionCode(7)).is_none());
  assert!(r.has_changed("1".into(), E::AppVersionCode(8)));
  assert!(r.set("1".into(), E::AppVersionCode(8)).is_some());
}
''')

M = "bd-logger/src/metadata.rs"
META = '''
use bd_logger::verif::Metadata;
use bd_logger::LogType;
use bd_logger::AnnotatedLogField;
use bd_log_metadata::{AnnotatedLogFields, LogFieldKind, MetadataProvider};
use bd_log_primitives::LogField;
use std::sync::Arc;
fn f(k: &str, v: &str, kind: LogFieldKind) -> AnnotatedLogField { AnnotatedLogField { field: LogField { key: k.into(), value: v.into() }, kind } }
struct P(Vec<(&'static str, &'static str, bool)>);
impl MetadataProvider for P {
  fn timestamp(&self) -> anyhow::Result<time::OffsetDateTime> { Ok(time::OffsetDateTime::UNIX_EPOCH) }
  fn fields(&self) -> anyhow::Result<AnnotatedLogFields> {
    Ok(self.0.iter().map(|(k, v, o)| f(k, v, if *o { LogFieldKind::Ootb } else { LogFieldKind::Custom })).collect())
  }
}
'''
MD = ["bd-logger", "bd-log-metadata", "bd-log-primitives", "anyhow", "time"]
add("c06-internal-captured", "C06", "an internal SDK log with provider fields", "provider fields are captured on internal logs",
    [(M, "    let (provider_fields, provider_matching_fields) = if log_type == LogType::Replay\n      || log_type == LogType::Resource\n      || log_type == LogType::InternalSDK\n    {",
      "    let (provider_fields, provider_matching_fields) = if log_type == LogType::Replay\n      || log_type == LogType::Resource\n    {")],
    MD, META + '''
fn main() {
  let m = Metadata::new(Arc::new(P(vec![("os", "x", true)])));
  let r = m.collect(vec![], vec![], LogType::InternalSDK).unwrap();
  assert!(r.fields.is_empty());
}
''')
add("c06-reserved-case", "C06", "a custom matching-only field with a reserved name", "a reserved name is taken from a custom source when the field is only for matching",
    [(M, "    let matching_fields = partition_fields(matching_fields);\n", """    let matching_fields = {
      let (ootb, custom): (Vec<_>, Vec<_>) = matching_fields
        .into_iter()
        .partition(|f| matches!(f.kind, LogFieldKind::Ootb));
      PartitionedFields {
        ootb: ootb.into_iter().map(|f| f.field).collect(),
        custom: custom.into_iter().map(|f| f.field).collect(),
      }
    };
""")],
    MD, META + '''
fn main() {
  let m = Metadata::new(Arc::new(P(vec![])));
  let r = m.collect(vec![], vec![f("os", "x", LogFieldKind::Custom)], LogType::Normal).unwrap();
  assert!(r.matching_fields.is_empty());
}
''')

SD = "bd-shutdown/src/lib.rs"
add("c07-send-without-receivers", "C07", "shutdown is triggered while no component exists, and a component is created from a handle afterwards", "a component that starts waiting after the trigger is never woken",
    [(SD, """  pub async fn shutdown(self) {
    self
      .status_tx
      .send_replace(ComponentStatus::PendingShutdown);
""", """  pub async fn shutdown(self) {
    let _ignored = self.status_tx.send(ComponentStatus::PendingShutdown);
""")],
    ["bd-shutdown", "tokio"], '''
use bd_shutdown::ComponentShutdownTrigger;
#[tokio::main]
async fn main() {
  let t = ComponentShutdownTrigger::default();
  let h = t.make_handle();
  t.shutdown().await;
  let mut s = h.make_shutdown();
  tokio::time::timeout(std::time::Duration::from_secs(2), s.cancelled()).await.expect("never woken");
}
''')
add("c07-blocking-counts", "C07", "blocking shutdown while two waiters made by cloning are still held", "blocking shutdown completes although one component still holds its waiter",
    [(SD, "    while !self.status_tx.is_closed() {", "    while self.status_tx.receiver_count() > usize::from(Arc::strong_count(&self.status_tx) > 1) {")],
    ["bd-shutdown"], '''
use bd_shutdown::ComponentShutdownTrigger;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
fn main() {
  let t = ComponentShutdownTrigger::default();
  let _h = t.make_handle();
  let s = t.make_shutdown();
  let done = Arc::new(AtomicBool::new(false));
  let d = done.clone();
  let j = std::thread::spawn(move || { t.shutdown_blocking(); d.store(true, Ordering::SeqCst) });
  std::thread::sleep(std::time::Duration::from_millis(600));
  assert!(!done.load(Ordering::SeqCst), "completed early");
  drop(s);
  j.join().unwrap();
}
''')

L = "bd-runtime-config/src/loader.rs"
LOAD = '''
use bd_runtime_config::loader::{StatsCallbacks, WatchedFileLoader};
use std::sync::Arc;
struct S;
impl StatsCallbacks for S { fn on_deserialize_success(&self) {} fn on_deserialize_failure(&self) {} fn on_io_failure(&self) {} }
fn put(d: &std::path::Path, v: &str) { std::fs::write(d.join("tmp"), v).unwrap(); std::fs::rename(d.join("tmp"), d.join("f")).unwrap(); }
'''
LD = ["bd-runtime-config", "tokio", "filetime"]
add("c08-same-stamp", "C08", "a replacement file with the size and modification time of the file it replaces", "a replacement is never observed when size and modification time are unchanged",
    [(L, """          cloned_loader
            .snapshot_sender
""", """          // Renames of other files in the directory do not need a reload.
          let stamp = std::fs::metadata(&cloned_file_to_load)
            .ok()
            .map(|m| (m.len(), m.modified().ok()));
          if stamp.is_some() && stamp == last_stamp {
            continue;
          }
          last_stamp = stamp;

          cloned_loader
            .snapshot_sender
"""), (L, "    let cloned_file_to_load = std::path::PathBuf::from(file_to_load);\n", "    let cloned_file_to_load = std::path::PathBuf::from(file_to_load);\n    let mut last_stamp = std::fs::metadata(file_to_load)\n      .ok()\n      .map(|m| (m.len(), m.modified().ok()));\n")],
    ["bd-runtime-config", "tokio"], LOAD + '''
#[tokio::main]
async fn main() {
  let d = std::path::PathBuf::from(std::env::var("SCRATCH").unwrap()).join("d");
  std::fs::create_dir_all(&d).unwrap();
  let at = std::time::SystemTime::UNIX_EPOCH + std::time::Duration::from_secs(1_000_000);
  let put = |v: &str| {
    std::fs::write(d.join("tmp"), v).unwrap();
    std::fs::File::options().write(true).open(d.join("tmp")).unwrap().set_modified(at).unwrap();
    std::fs::rename(d.join("tmp"), d.join("f")).unwrap();
  };
  put("1");
  let l = WatchedFileLoader::<u64>::new_loader(&d, d.join("f"), |c: Option<u64>| c.map(Arc::new), S).unwrap();
  let mut w = l.snapshot_watch();
  put("2");
  tokio::time::timeout(std::time::Duration::from_secs(5), w.wait_for(|v| v.as_deref() == Some(&2))).await.expect("never observed").unwrap();
  l.shutdown().await;
}
''')
add("c08-drain-after-load", "C08", "a file is replaced while the previous replacement is being loaded", "the latest replacement is never observed",
    [(L, """            ))
            .unwrap();
        }
""", """            ))
            .unwrap();

          // One reload covers everything that is queued.
          while rx.try_recv().is_ok() {}
        }
""")],
    ["bd-runtime-config", "tokio"], LOAD + '''
#[tokio::main]
async fn main() {
  let d = std::path::PathBuf::from(std::env::var("SCRATCH").unwrap()).join("d");
  std::fs::create_dir_all(&d).unwrap();
  put(&d, "1");
  let l = WatchedFileLoader::<u64>::new_loader(&d, d.join("f"), |c: Option<u64>| { if c == Some(2) { std::thread::sleep(std::time::Duration::from_millis(500)); } c.map(Arc::new) }, S).unwrap();
  let mut w = l.snapshot_watch();
  put(&d, "2");
  tokio::time::sleep(std::time::Duration::from_millis(200)).await;
  put(&d, "3");
  tokio::time::timeout(std::time::Duration::from_secs(5), w.wait_for(|v| v.as_deref() == Some(&3))).await.expect("never observed").unwrap();
  l.shutdown().await;
}
''')

FF = "bd-runtime-config/src/feature_flags.rs"
FLAGS = '''
use bd_runtime_config::feature_flags::new_memory_feature_flags_loader;
use bd_server_stats::stats::Collector;
'''
add("c09-signed", "C09", "a negative number in the configuration", "a percentage below zero enables the feature for everyone",
    [(FF, "  Integer(u64),", "  Integer(i64),"),
     (FF, "        0 => false,\n        1 ..= 9_999 => random() % 10_000 < *i,", "        0 => false,\n        1 ..= 9_999 => random() % 10_000 < i.unsigned_abs(),"),
     (FF, "      Some(FeatureFlagValue::Integer(i)) => *i,", "      Some(FeatureFlagValue::Integer(i)) => i.unsigned_abs(),")],
    ["bd-runtime-config", "bd-server-stats", "tokio"], FLAGS + '''
use bd_runtime_config::feature_flags::FeatureFlags;
#[tokio::main]
async fn main() {
  let d = std::path::PathBuf::from(std::env::var("SCRATCH").unwrap()).join("d");
  std::fs::create_dir_all(&d).unwrap();
  std::fs::write(d.join("f"), "values:\\n  a: -5\\n").unwrap();
  let c = Collector::default();
  let l = new_memory_feature_flags_loader(&d, d.join("f"), bd_runtime_config::loader::Stats::new(&c.scope("x"))).unwrap();
  let w = l.snapshot_watch();
  assert!(!w.feature_enabled("a", false));
  assert_eq!(3, w.get_integer("a", 3));
  l.shutdown().await;
}
''')
if 0: add("c09-off-by-one", "C09", "a rollout percentage of one ten-thousandth", "a rollout enables with a larger probability than configured",
    [(FF, "        1 ..= 9_999 => random() % 10_000 < *i,", "        1 ..= 9_999 => random() % 10_000 <= *i,")],
    ["bd-runtime-config", "bd-server-stats", "tokio"], FLAGS + '''
use bd_runtime_config::feature_flags::FeatureFlags;
#[tokio::main]
async fn main() {
  let d = std::path::PathBuf::from(std::env::var("SCRATCH").unwrap()).join("d");
  std::fs::create_dir_all(&d).unwrap();
  std::fs::write(d.join("f"), "values:\\n  a: 1\\n").unwrap();
  let c = Collector::default();
  let l = new_memory_feature_flags_loader(&d, d.join("f"), bd_runtime_config::loader::Stats::new(&c.scope("x"))).unwrap();
  let w = l.snapshot_watch();
  let n = (0 .. 4_000_000).filter(|_| w.feature_enabled("a", false)).count();
  assert!(n < 600, "{n}");
  l.shutdown().await;
}
''')

ST = "bd-server-stats/src/stats.rs"
add("c10-refused-remembered", "C10", "a label set refused by the limit is asked for again", "the number of distinct label values exceeds the limit",
    [(ST, """        if self.label_count.load(Ordering::Relaxed) < self.max_labels {
          entry.insert(());
          self""", """        entry.insert(());
        if self.label_count.load(Ordering::Relaxed) < self.max_labels {
          self""")],
    ["bd-server-stats"], '''
use bd_server_stats::stats::*;
fn main() {
  let c = Collector::new_with_label_limit(1);
  let b = c.scope("s").labeled_metric_builder(&["l"]);
  let m = b.build_counter("c");
  for _ in 0 .. 2 { for v in ["a", "b", "d"] {
    let mut x: LateInitializedCounter = m.new_metric();
    x.get(&v.to_string()).inc();
  } }
  let out = String::from_utf8(c.prometheus_output()).unwrap();
  assert!(!out.contains("l=\\"b\\"") && !out.contains("l=\\"d\\""), "{out}");
}
''')
add("c10-histogram-identity", "C10", "two histograms of one name in scopes with different labels", "histograms of different labels are one metric",
    [(ST, """      .histograms
      .entry(Id::new(
        name.clone(),
        self.labels.clone().into_iter().collect(),
      ))""", """      .histograms
      .entry(Id::new(
        name.clone(),
        self.labels.keys().cloned().map(|l| (l, String::new())).collect(),
      ))""")],
    ["bd-server-stats"], '''
use bd_server_stats::stats::*;
use std::collections::HashMap;
fn main() {
  let c = Collector::default();
  let s = c.scope("s");
  for v in ["a", "b"] {
    s.scope_with_labels("", HashMap::from([("l".to_string(), v.to_string())])).histogram("h").observe(1.0);
  }
  let out = String::from_utf8(c.prometheus_output()).unwrap();
  assert!(out.contains("s:h_count{l=\\"a\\"} 1") && out.contains("s:h_count{l=\\"b\\"} 1"), "{out}");
}
''')

C = "bd-completion/src/lib.rs"
add("c11-blocking-lost", "C11", "a blocking receiver whose sender sends only after a long time", "a blocking receiver reports an error although its sender sends",
    [(C, "    Ok(self.rx.blocking_recv()?)", """    let mut rx = self.rx;
    // Do not wait for a stuck component forever.
    for _ in 0 .. 1_000 {
      match rx.try_recv() {
        Err(tokio::sync::oneshot::error::TryRecvError::Empty) => {
          std::thread::sleep(std::time::Duration::from_millis(1));
        },
        r => return Ok(r?),
      }
    }
    anyhow::bail!("timed out")""")],
    ["bd-completion"], '''
use bd_completion::Sender;
fn main() {
  let (tx, rx) = Sender::new();
  let j = std::thread::spawn(move || rx.blocking_recv());
  std::thread::sleep(std::time::Duration::from_secs(3));
  tx.send(1);
  assert_eq!(1, j.join().unwrap().unwrap());
}
''')

R = "bd-log/src/rate_limit_log.rs"
add("c12-split-lock", "C12", "two threads hit the same site at once", "concurrent occurrences produce two emissions for one period",
    [(R, """    let mut last_used_time = self.last_used_time.lock();
    let warn = last_used_time.map_or(true, |last_used_time| now - last_used_time > duration);
    if warn {
      *last_used_time = Some(now);""", """    let last_used_time = *self.last_used_time.lock();
    let warn = last_used_time.map_or(true, |last_used_time| now - last_used_time > duration);
    if warn {
      *self.last_used_time.lock() = Some(now);""")],
    ["bd-log", "time", "tokio"], '''
use bd_log::rate_limit_log::WarnTracker;
use std::sync::{Arc, Barrier};
fn main() {
  for _ in 0 .. 20_000 {
    let t = Arc::new(WarnTracker::default());
    let b = Arc::new(Barrier::new(4));
    let h: Vec<_> = (0 .. 4).map(|_| { let (t, b) = (t.clone(), b.clone()); std::thread::spawn(move || { b.wait(); t.should_warn(time::Duration::hours(1)) }) }).collect();
    let n = h.into_iter().filter(|_| true).map(|h| h.join().unwrap()).filter(|w| *w).count();
    assert_eq!(1, n);
  }
}
''')
add("c12-boundary", "C12", "two occurrences exactly one period apart", "two emissions exactly one period apart",
    [(R, "now - last_used_time > duration)", "now - last_used_time >= duration)")],
    ["bd-log", "time", "tokio"], '''
use bd_log::rate_limit_log::WarnTracker;
#[tokio::main(flavor = "current_thread", start_paused = true)]
async fn main() {
  let t = WarnTracker::default();
  assert!(t.should_warn(time::Duration::seconds(1)));
  tokio::time::advance(std::time::Duration::from_secs(1)).await;
  assert!(!t.should_warn(time::Duration::seconds(1)));
}
''')

MM = "bd-metadata/src/lib.rs"
add("c39-version-overridable", "C39", "an application that supplies its own sdk_version key", "the SDK version sent is the application's",
    [(MM, '    inner.insert("sdk_version".to_string(), self.sdk_version().to_string());\n', '    inner\n      .entry("sdk_version".to_string())\n      .or_insert_with(|| self.sdk_version().to_string());\n')],
    ["bd-metadata"], '''
use bd_metadata::*;
use std::collections::HashMap;
struct M(Platform);
impl Metadata for M {
  fn sdk_version(&self) -> &'static str { "1" }
  fn platform(&self) -> &Platform { &self.0 }
  fn collect_inner(&self) -> HashMap<String, String> { HashMap::from([("sdk_version".to_string(), "9".to_string())]) }
}
fn main() { assert_eq!("1", M(Platform::Ios).collect()["sdk_version"]); }
''')
