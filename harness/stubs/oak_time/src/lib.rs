//! Facade of the simulated Oak.
pub use oak_stub::time::{Clock, Instant, UNIX_EPOCH, clock};
