//! Facade of the simulated Oak.
pub use oak_stub::session::ContainersSessionBinder as InstanceSessionBinder;
