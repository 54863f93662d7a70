//! Facade of the simulated Oak.
pub mod encryptor { pub use oak_stub::crypto::{Encryptor, Payload}; }
pub mod noise_handshake { pub use oak_stub::crypto::{OrderedCrypter, SYMMETRIC_KEY_LEN}; }
