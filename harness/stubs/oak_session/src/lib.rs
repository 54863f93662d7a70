//! Facade of the simulated Oak.
pub mod aggregators { pub use oak_stub::session::PassThrough; }
pub mod attestation { pub use oak_stub::session::AttestationType; }
pub mod config { pub use oak_stub::session::{EncryptorProvider, SessionConfig}; }
pub mod encryptors { pub use oak_stub::crypto::UnorderedChannelEncryptor; }
pub mod generator { pub use oak_stub::session::BindableAssertionGenerator; }
pub mod handshake { pub use oak_stub::session::HandshakeType; }
pub mod key_extractor {
    pub use oak_stub::session::{DefaultBindingKeyExtractor, DefaultSigningKeyExtractor, KeyExtractor};
}
pub mod session { pub use oak_stub::session::{ClientSession, ServerSession, Session}; }
pub mod session_binding {
    pub use oak_stub::session::{
        SessionBinder, SignatureBinder, SignatureBinderBuilder, SignatureBindingVerifierProvider,
    };
}
pub mod verifier { pub use oak_stub::session::BoundAssertionVerifier; }
pub use oak_stub::session::ProtocolEngine;
