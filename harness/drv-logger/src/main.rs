//! Application version (C05), log field metadata (C06), queues (C31), upload rate limit (C32), usage summaries (C33), the way of a log (C34), remote configuration (C36).
mod appver;
mod conf;
mod errors;
mod fields;
mod pipe;
mod queue;
mod rate;
mod uploads;
mod usage;

fn main() {
  let args: Vec<String> = std::env::args().collect();
  // the fourth argument is a JSON value some modes need
  let extra: drv_kit::Value = args.get(4).map_or(drv_kit::Value::Null, |a| serde_json::from_str(a).unwrap());
  let list = extra.as_array().cloned().unwrap_or_default();
  match args.get(3).map(String::as_str) {
    Some("appver") => drv_kit::main(appver::test),
    Some("errors") => drv_kit::main(errors::parent),
    Some("errors-child") => drv_kit::main(errors::child),
    Some("usage") => drv_kit::main(usage::test),
    Some("queue") => drv_kit::main(queue::test),
    Some("uploads") => drv_kit::main(move |t, l| uploads::test(t, l, &list)),
    Some("pipe") => drv_kit::main(move |t, l| pipe::test(t, l, &list)),
    Some("pipe-race") => drv_kit::main(move |t, l| pipe::race(t, l, &list)),
    Some("conf") => drv_kit::main(move |t, l| conf::test(t, l, &list)),
    Some("rate") => drv_kit::main(move |t, l| rate::test(t, l, &list)),
    _ => drv_kit::main(fields::test),
  }
}
