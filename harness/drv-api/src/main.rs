mod stream;
mod tracker;

fn main() {
  match std::env::args().nth(3).unwrap_or_default().as_str() {
    "tracker" => drv_kit::main(tracker::run),
    _ => drv_kit::main(stream::run),
  }
}
