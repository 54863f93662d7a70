//! Facade of the simulated Oak.
pub mod attestation { pub use oak_stub::attestation::InstanceAttester; }
pub mod crypto { pub use oak_stub::session::InstanceSessionBinder; }
pub mod testing { pub use oak_stub::attestation::{InstanceAttester as MockAttester, MockSigner}; }
