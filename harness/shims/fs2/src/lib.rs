//! Stand-in for the one fs2 call the repository uses.
use std::os::fd::AsRawFd;
pub trait FileExt {
  fn try_lock_exclusive(&self) -> std::io::Result<()>;
  fn lock_exclusive(&self) -> std::io::Result<()>;
  fn unlock(&self) -> std::io::Result<()>;
}
fn flock(f: &std::fs::File, op: i32) -> std::io::Result<()> {
  if unsafe { libc::flock(f.as_raw_fd(), op) } == 0 {
    Ok(())
  } else {
    Err(std::io::Error::last_os_error())
  }
}
impl FileExt for std::fs::File {
  fn try_lock_exclusive(&self) -> std::io::Result<()> {
    flock(self, libc::LOCK_EX | libc::LOCK_NB)
  }
  fn lock_exclusive(&self) -> std::io::Result<()> {
    flock(self, libc::LOCK_EX)
  }
  fn unlock(&self) -> std::io::Result<()> {
    flock(self, libc::LOCK_UN)
  }
}
