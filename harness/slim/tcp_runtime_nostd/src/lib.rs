//! The modules of the runtime which need neither Oak nor raft.
extern crate alloc;
extern crate slog;
extern crate tcp_proto;

#[path = "/repo/runtime/src/logger.rs"]
pub mod logger;
#[path = "/repo/runtime/src/platform.rs"]
pub mod platform;

use std::error::Error as StdError;
