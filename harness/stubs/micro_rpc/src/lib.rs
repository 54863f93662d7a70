//! Facade of the simulated Oak.
pub use oak_stub::rpc::{Status, StatusCode};
