//! Facade of the simulated Oak.
pub mod verifier { pub use oak_stub::attestation::AttestationVerifier; }
