use bd_logger::verif::AppVersions;
use bd_logger::AppVersionExtra as E;
use drv_kit::{json, n, s, Log, Rng, Value};
use drv_store::Fake;

const KEY: &str = "app_version.state.1";

/// Versions that differ pairwise, some only in kind or in how a number is written.
fn version(i: i64, pal: u64) -> (String, E) {
  let v: [(&str, E); 6] = match pal % 4 {
    0 => [
      ("1.0", E::AppVersionCode(1)),
      ("1.0", E::BuildNumber("1".into())),
      ("1.0", E::AppVersionCode(2)),
      ("1.1", E::AppVersionCode(1)),
      ("1.0 ", E::BuildNumber("01".into())),
      ("", E::BuildNumber(String::new())),
    ],
    1 => [
      ("", E::AppVersionCode(0)),
      ("0", E::AppVersionCode(0)),
      ("", E::BuildNumber("0".into())),
      ("", E::AppVersionCode(i64::MIN)),
      ("0", E::BuildNumber("0".into())),
      ("00", E::AppVersionCode(0)),
    ],
    2 => [
      ("1.2.3", E::BuildNumber("1.2.3".into())),
      ("1.2.3", E::BuildNumber("1.2.3.0".into())),
      ("1.2.3", E::BuildNumber("1.2.4".into())),
      ("1.2.3.0", E::BuildNumber("1.2.3".into())),
      ("V1.2.3", E::BuildNumber("1.2.3".into())),
      ("v1.2.3", E::BuildNumber("1.2.3".into())),
    ],
    _ => [
      ("9", E::AppVersionCode(i64::MAX)),
      ("9", E::AppVersionCode(-1)),
      ("9", E::AppVersionCode(1)),
      ("9", E::BuildNumber("-1".into())),
      ("\u{1F600}", E::AppVersionCode(1)),
      ("9", E::AppVersionCode(4_294_967_297)),
    ],
  };
  let (a, b) = &v[(i - 1) as usize];
  ((*a).to_string(), match b {
    E::AppVersionCode(c) => E::AppVersionCode(*c),
    E::BuildNumber(c) => E::BuildNumber(c.clone()),
  })
}

fn index(v: &(String, E), pal: u64) -> i64 {
  (1 ..= 6)
    .find(|i| {
      let w = version(*i, pal);
      w.0 == v.0
        && match (&w.1, &v.1) {
          (E::AppVersionCode(a), E::AppVersionCode(b)) => a == b,
          (E::BuildNumber(a), E::BuildNumber(b)) => a == b,
          _ => false,
        }
    })
    .unwrap_or(99)
}

/// What is stored, as a later process will see it: the one version that has not changed.
fn look(disk: &Fake, pal: u64) -> i64 {
  if !disk.has(KEY) {
    return 0;
  }
  let copy = disk.peek();
  let same: Vec<i64> = (1 ..= 6)
    .filter(|i| {
      let (v, e) = version(*i, pal);
      // The copy must not be initialized by asking.
      let c = Fake::default();
      c.0.lock().map = disk.0.lock().map.clone();
      let r = AppVersions::new(c.store());
      !r.has_changed(v, e) && c.raw(KEY) == disk.raw(KEY)
    })
    .collect();
  drop(copy);
  match same.as_slice() {
    [i] => *i,
    [] => -1,
    _ => 98,
  }
}

const JUNK: [&str; 6] = ["", "%%%", "AAAA", "=", "AQAAAAAAAAD/", "////////////////"];

pub fn test(test: &Value, log: &Log) {
  let ops = drv_kit::arr(test, "ops");
  let mut rng = Rng(drv_kit::seed() ^ test.to_string().bytes().map(u64::from).sum::<u64>());
  let pal = rng.below(4);
  let disk = Fake::default();
  let mut repo = std::sync::Arc::new(AppVersions::new(disk.store()));
  for op in ops {
    disk.fault(&s(op, "fault"));
    let name = s(op, "op");
    let (changed, prev) = match name.as_str() {
      "changed" => {
        let (v, e) = version(n(op, "v"), pal);
        (repo.has_changed(v, e), 0)
      },
      "set" => {
        let (v, e) = version(n(op, "v"), pal);
        (false, repo.set(v, e).map_or(0, |p| index(&p, pal)))
      },
      "crash" => {
        disk.0.lock().die = Some(s(op, "at") == "after");
        let (r, vi) = (repo.clone(), n(op, "v"));
        let _ = std::thread::spawn(move || {
          let (v, e) = version(vi, pal);
          let _ = r.set(v, e);
        })
        .join();
        disk.0.lock().die = None;
        repo = std::sync::Arc::new(AppVersions::new(disk.store()));
        (false, 0)
      },
      "corrupt" => {
        disk.put_raw(KEY, Some(JUNK[rng.below(6) as usize]));
        (false, 0)
      },
      _ => {
        repo = std::sync::Arc::new(AppVersions::new(disk.store()));
        (false, 0)
      },
    };
    disk.fault("none");
    log.op(op, json!({"changed": changed, "prev": prev, "disk": look(&disk, pal)}));
  }
}
