use bd_metadata::{Metadata, Platform};
use drv_kit::{json, s, Log, Value};
use std::collections::HashMap;

struct M {
  platform: Platform,
  version: &'static str,
  app: HashMap<String, String>,
}
impl Metadata for M {
  fn sdk_version(&self) -> &'static str {
    self.version
  }
  fn platform(&self) -> &Platform {
    &self.platform
  }
  fn collect_inner(&self) -> HashMap<String, String> {
    self.app.clone()
  }
}

fn leak(v: &str) -> &'static str {
  Box::leak(v.to_string().into_boxed_str())
}

pub fn test(test: &Value, log: &Log) {
  for op in drv_kit::arr(test, "ops") {
    let m = M {
      platform: match s(op, "platform").as_str() {
        "android" => Platform::Android,
        "ios" => Platform::Ios,
        "pulse" => Platform::Pulse,
        _ => Platform::Other(leak(&s(op, "os")), leak(&s(op, "kind"))),
      },
      version: leak(&s(op, "version")),
      app: drv_kit::arr(op, "app").iter().map(|p| (p[0].as_str().unwrap().into(), p[1].as_str().unwrap().into())).collect(),
    };
    for _ in 0 .. 2 {
      let out: Vec<Value> = m.collect().into_iter().map(|(k, v)| json!([k, v])).collect();
      log.op(op, json!(out));
    }
  }
}
