//! Facade of the simulated Oak.
pub mod attester { pub use oak_stub::attestation::Attester; }
pub mod endorser { pub use oak_stub::attestation::Endorser; }
