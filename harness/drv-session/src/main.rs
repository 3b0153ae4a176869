//! Fixed (C01) and activity-based (C02) session strategies.
mod activity;
mod fixed;

fn main() {
  if std::env::args().nth(3).as_deref() == Some("activity") {
    drv_kit::main(activity::test);
  } else {
    drv_kit::main(fixed::test);
  }
}
