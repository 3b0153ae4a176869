//! A key-value storage that survives "process restarts" and can be told to fail or to die.
use bd_key_value::{Storage, Store};
use parking_lot::Mutex;
use std::collections::BTreeMap;
use std::sync::Arc;

#[derive(Default)]
pub struct Inner {
  pub map: BTreeMap<String, String>,
  pub fail_read: bool,
  pub fail_write: bool,
  pub fail_delete: bool,
  /// The process dies at the next durable write, before or after it took effect.
  pub die: Option<bool>,
  /// Writes take effect but are reported as failed.
  pub fail_write_after: bool,
  pub slow: Option<std::time::Duration>,
  pub sets: usize,
  pub gets: usize,
  pub deletes: usize,
}

#[derive(Clone, Default)]
pub struct Fake(pub Arc<Mutex<Inner>>);

pub const DIED: &str = "process died";

impl Fake {
  pub fn store(&self) -> Arc<Store> {
    Arc::new(Store::new(Box::new(self.clone())))
  }

  /// A store over a copy of the current content, for looking without touching.
  pub fn peek(&self) -> Arc<Store> {
    let copy = Self::default();
    copy.0.lock().map = self.0.lock().map.clone();
    copy.store()
  }

  pub fn fault(&self, f: &str) {
    let mut i = self.0.lock();
    i.fail_read = f == "r" || f == "d";
    i.fail_write = f == "w";
    i.fail_delete = f == "d";
  }

  pub fn has(&self, key: &str) -> bool {
    self.0.lock().map.contains_key(key)
  }

  pub fn raw(&self, key: &str) -> Option<String> {
    self.0.lock().map.get(key).cloned()
  }

  pub fn put_raw(&self, key: &str, v: Option<&str>) {
    let mut i = self.0.lock();
    match v {
      Some(v) => {
        i.map.insert(key.to_string(), v.to_string());
      },
      None => {
        i.map.remove(key);
      },
    }
  }
}

impl Storage for Fake {
  fn set_string(&self, key: &str, value: &str) -> anyhow::Result<()> {
    let mut i = self.0.lock();
    i.sets += 1;
    if let Some(after) = i.die.take() {
      if after {
        i.map.insert(key.to_string(), value.to_string());
      }
      drop(i);
      std::panic::resume_unwind(Box::new(DIED));
    }
    anyhow::ensure!(!i.fail_write, "write failed");
    let slow = i.slow;
    if let Some(d) = slow {
      drop(i);
      std::thread::sleep(d);
      i = self.0.lock();
    }
    i.map.insert(key.to_string(), value.to_string());
    anyhow::ensure!(!i.fail_write_after, "write failed");
    Ok(())
  }

  fn get_string(&self, key: &str) -> anyhow::Result<Option<String>> {
    let mut i = self.0.lock();
    i.gets += 1;
    anyhow::ensure!(!i.fail_read, "read failed");
    let v = i.map.get(key).cloned();
    let slow = i.slow;
    drop(i);
    if let Some(d) = slow {
      std::thread::sleep(d);
    }
    Ok(v)
  }

  fn delete(&self, key: &str) -> anyhow::Result<()> {
    let mut i = self.0.lock();
    i.deletes += 1;
    anyhow::ensure!(!i.fail_delete, "delete failed");
    i.map.remove(key);
    Ok(())
  }
}
