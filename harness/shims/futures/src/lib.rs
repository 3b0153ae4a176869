//! Stand-in for the futures facade crate: what it re-exports comes from the same futures-util.
pub use futures_util::*;
pub use futures_channel as channel;
