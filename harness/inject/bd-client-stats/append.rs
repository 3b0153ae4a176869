
/// Access for the verification drivers (appended to a copy of this crate).
#[doc(hidden)]
pub mod verif {
  pub use crate::file_manager::{FileManager, FileSystem, RealFileSystem};
}
