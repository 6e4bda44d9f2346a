//! Stand-in for the futures crate: signatures only.
pub use std::future::Future;
pub mod future { pub use std::future::{Future, ready, pending}; }
