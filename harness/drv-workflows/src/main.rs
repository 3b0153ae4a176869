mod build;
mod engine;
mod flush;
mod metrics;
mod sankey;

fn main() {
  match std::env::args().nth(3).unwrap_or_default().as_str() {
    "sankey" => drv_kit::main(sankey::run),
    "metrics" => drv_kit::main(metrics::run),
    "flush" => drv_kit::main(flush::run),
    _ => drv_kit::main(engine::run),
  }
}
