mod manager;
mod pool;
mod ring;

fn main() {
  match std::env::args().nth(3).unwrap_or_default().as_str() {
    "manager" => drv_kit::main(manager::run),
    "ring" => drv_kit::main(ring::run),
    m => panic!("{m}"),
  }
}
