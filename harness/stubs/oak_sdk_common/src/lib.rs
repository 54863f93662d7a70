//! Facade of the simulated Oak.
pub use oak_stub::attestation::StaticAttester;
