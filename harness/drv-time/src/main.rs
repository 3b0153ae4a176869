//! Time conversions and tickers (C40).  A 64-bit count of seconds is given as
//! (dh * 10^6 + dl) days and s seconds of the day.
use bd_time::{OffsetDateTimeExt, ProtoDurationExt, TimeDurationExt, TimestampExt, ToProtoDuration};
use drv_kit::{arr, json, n, s, Log, Value};
use protobuf::well_known_types::duration::Duration as PD;
use protobuf::well_known_types::timestamp::Timestamp;
use std::panic::{catch_unwind, AssertUnwindSafe};
use time::OffsetDateTime;

const DAY: i128 = 86_400;

fn secs(v: &Value) -> i64 {
  i64::try_from((i128::from(n(v, "dh")) * 1_000_000 + i128::from(n(v, "dl"))) * DAY + i128::from(n(v, "s"))).unwrap()
}

fn split(v: i128) -> (i64, i64, i64) {
  let (d, s) = (v.div_euclid(DAY), v.rem_euclid(DAY));
  (d.div_euclid(1_000_000) as i64, d.rem_euclid(1_000_000) as i64, s as i64)
}

fn val(v: i128, nanos: i64) -> Value {
  let (dh, dl, s) = split(v);
  json!({"dh": dh, "dl": dl, "s": s, "n": nanos})
}

fn or_refused(f: impl FnOnce() -> Value) -> Value {
  catch_unwind(AssertUnwindSafe(f)).unwrap_or_else(|_| json!({"dh": 0, "dl": 0, "s": -1, "n": 0}))
}

fn odt(v: &Value) -> OffsetDateTime {
  OffsetDateTime::from_unix_timestamp(secs(v)).unwrap() + time::Duration::nanoseconds(n(v, "n"))
}

fn from_odt(t: OffsetDateTime) -> Value {
  val(t.unix_timestamp_nanos().div_euclid(1_000_000_000), t.unix_timestamp_nanos().rem_euclid(1_000_000_000) as i64)
}

fn convert(op: &Value) -> Value {
  let v = &op["v"];
  match s(op, "op").as_str() {
    "ts" => or_refused(|| {
      let p: Timestamp = odt(v).into_proto().unwrap();
      val(i128::from(p.seconds), i64::from(p.nanos))
    }),
    "tsoff" => or_refused(|| {
      let off = time::UtcOffset::from_hms(n(op, "h") as i8, 0, 0).unwrap();
      let p: Timestamp = odt(v).to_offset(off).into_proto().unwrap();
      val(i128::from(p.seconds), i64::from(p.nanos))
    }),
    "fromts" => or_refused(|| {
      from_odt(Timestamp { seconds: secs(v), nanos: n(v, "n") as i32, ..Default::default() }.to_offset_date_time())
    }),
    "ms" => or_refused(|| {
      let ms = i128::from(odt(v).unix_timestamp_ms());
      val(ms.div_euclid(1_000), ms.rem_euclid(1_000) as i64)
    }),
    "floor" => or_refused(|| from_odt(odt(v).floor(time::Duration::seconds(n(op, "i"))))),
    "ceil" => or_refused(|| from_odt(odt(v).ceil(time::Duration::seconds(n(op, "i"))))),
    // Durations: whole seconds and nanoseconds of one sign.
    "dur" => or_refused(|| {
      let d = time::Duration::new(secs(v), n(v, "n") as i32);
      let p: PD = d.into_proto().unwrap();
      val(i128::from(p.seconds), i64::from(p.nanos))
    }),
    "stddur" => or_refused(|| {
      let d = std::time::Duration::new(secs(v) as u64, n(v, "n") as u32);
      let p: PD = d.into_proto().unwrap();
      val(i128::from(p.seconds), i64::from(p.nanos))
    }),
    "fromdur" => or_refused(|| {
      let d = PD { seconds: secs(v), nanos: n(v, "n") as i32, ..Default::default() }.to_time_duration();
      val(i128::from(d.whole_seconds()), i64::from(d.subsec_nanoseconds()))
    }),
    "abs" => or_refused(|| {
      let d = PD { seconds: secs(v), nanos: n(v, "n") as i32, ..Default::default() }.to_std_duration_absolute();
      val(i128::from(d.as_secs()), i64::from(d.subsec_nanos()))
    }),
    _ => or_refused(|| {
      match (PD { seconds: secs(v), nanos: n(v, "n") as i32, ..Default::default() }).to_std_duration_checked() {
        Some(d) => val(i128::from(d.as_secs()), i64::from(d.subsec_nanos())),
        None => json!({"dh": 0, "dl": 0, "s": -1, "n": 0}),
      }
    }),
  }
}

/// Milliseconds (of virtual time) at which the ticker fired, the clock moving one millisecond at a time.
fn ticker(op: &Value) -> Value {
  let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
  rt.block_on(async {
    let d = time::Duration::milliseconds(n(op, "i"));
    let t0 = tokio::time::Instant::now();
    let ms = || t0.elapsed().as_millis() as i64;
    let mut fired = vec![];
    match s(op, "kind").as_str() {
      "sleep" => {
        d.sleep().await;
        fired.push(ms());
      },
      "timeout" => {
        let r = d.timeout(std::future::pending::<()>()).await;
        fired.push(if r.is_err() { ms() } else { -1 });
      },
      "timeoutok" => {
        let r = d.timeout(tokio::time::sleep(std::time::Duration::from_millis(n(op, "i") as u64 / 2))).await;
        fired.push(if r.is_ok() { ms() } else { -1 });
      },
      "now" => {
        tokio::time::sleep_until(d.add_tokio_now()).await;
        fired.push(ms());
      },
      "instant" => {
        let at = d.add_tokio_instant(t0 + std::time::Duration::from_millis(7));
        tokio::time::sleep_until(at).await;
        fired.push(ms());
      },
      "advance" => {
        d.advance().await;
        fired.push(ms());
      },
      k => {
        let mut t = match k {
          "interval" => d.interval(),
          "interval_at" => d.interval_at(),
          _ => d.jittered_interval_at(),
        };
        for _ in 0 .. n(op, "k") {
          t.tick().await;
          fired.push(ms());
        }
      },
    }
    json!(fired)
  })
}

fn main() {
  drv_kit::main(|test: &Value, log: &Log| {
    for op in arr(test, "ops") {
      let r = if s(op, "op") == "tick" { ticker(op) } else { convert(op) };
      log.op(op, r);
    }
  });
}
