use bd_runtime_config::feature_flags::{new_memory_feature_flags_loader, FeatureFlags, FeatureFlagsWatch};
use bd_runtime_config::loader::StatsCallbacks;
use drv_kit::{b, json, n, s, Log, Value};
use std::sync::Arc;

struct NoStats;
impl StatsCallbacks for NoStats {
  fn on_deserialize_success(&self) {}
  fn on_deserialize_failure(&self) {}
  fn on_io_failure(&self) {}
}

/// Integers travel as decimal strings: they do not fit the specification's.
pub fn test(test: &Value, log: &Log) {
  let cfg = &test["cfg"];
  let mut rng = drv_kit::Rng(drv_kit::seed() ^ n(cfg, "seed") as u64);
  let dir = drv_kit::scratch().join(format!("g{}", rng.next()));
  std::fs::create_dir_all(&dir).unwrap();
  if s(cfg, "kind") != "missing" {
    std::fs::write(dir.join("f.yaml"), s(cfg, "text")).unwrap();
  }
  let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
  rt.block_on(async {
    let loader = new_memory_feature_flags_loader(&dir, dir.join("f.yaml"), NoStats).unwrap();
    let watch: FeatureFlagsWatch = loader.snapshot_watch();
    let direct = watch.borrow().clone();
    for op in drv_kit::arr(test, "ops") {
      let name = s(op, "name");
      // The object itself or the watch that hands it out.
      let f: &dyn FeatureFlags = if b(op, "via") { &watch } else { direct.as_deref().expect("flags") };
      match s(op, "op").as_str() {
        "bool" => log.op(op, json!(if f.get_bool(&name, b(op, "def")) { "true" } else { "false" })),
        "int" => log.op(op, json!(f.get_integer(&name, s(op, "def").parse().unwrap()).to_string())),
        "str" => {
          let def = Arc::new(s(op, "def"));
          log.op(op, json!(*f.get_string(&name, &def)));
        },
        "enabled" => {
          let k = n(op, "n");
          let d = b(op, "def");
          let c = (0 .. k).filter(|_| f.feature_enabled(&name, d)).count();
          log.op(op, json!(c));
        },
        _ => {},
      }
    }
    loader.shutdown().await;
  });
  drop(rt);
  let _ = std::fs::remove_dir_all(&dir);
}
