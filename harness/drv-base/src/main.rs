//! Small components: shutdown (C07), watched files (C08), feature flags (C09), server metrics (C10),
//! completion (C11), rate-limited logging (C12), SDK metadata (C39), process policies (C45).
mod completion;
mod exec;
mod flags;
mod loader;
mod metadata;
mod metrics;
mod process;
mod ratelimit;
mod shutdown;

fn main() {
  match std::env::args().nth(3).as_deref() {
    Some("shutdown") => drv_kit::main(shutdown::test),
    Some("completion") => drv_kit::main(completion::test),
    Some("metadata") => drv_kit::main(metadata::test),
    Some("ratelimit") => drv_kit::main(ratelimit::test),
    Some("loader") => drv_kit::main(loader::test),
    Some("flags") => drv_kit::main(flags::test),
    Some("process") => drv_kit::main(process::test),
    Some("process-child") => process::child(),
    Some("metrics") => drv_kit::main(metrics::test),
    m => panic!("mode {m:?}"),
  }
}
