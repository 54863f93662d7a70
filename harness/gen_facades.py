#!/usr/bin/env python3
"""Writes the facade crates: one per Oak crate name the platform imports, re-exporting oak_stub."""
import os
here = os.path.dirname(os.path.abspath(__file__))
F = {
 "oak_time": "pub use oak_stub::time::{Clock, Instant, UNIX_EPOCH, clock};",
 "micro_rpc": "pub use oak_stub::rpc::{Status, StatusCode};",
 "oak_attestation": "",
 "oak_attestation_types": """pub mod attester { pub use oak_stub::attestation::Attester; }
pub mod endorser { pub use oak_stub::attestation::Endorser; }""",
 "oak_attestation_verification": """pub use oak_stub::attestation::{
    AmdSevSnpDiceAttestationVerifier, AmdSevSnpPolicy, ContainerPolicy, FirmwarePolicy,
    InsecureAttestationVerifier, KernelPolicy, SystemPolicy,
};""",
 "oak_attestation_verification_types": "pub mod verifier { pub use oak_stub::attestation::AttestationVerifier; }",
 "oak_crypto": """pub mod encryptor { pub use oak_stub::crypto::{Encryptor, Payload}; }
pub mod noise_handshake { pub use oak_stub::crypto::{OrderedCrypter, SYMMETRIC_KEY_LEN}; }""",
 "oak_dice_attestation_verifier": "pub use oak_stub::attestation::DiceAttestationVerifier;",
 "oak_restricted_kernel_sdk": """pub mod attestation { pub use oak_stub::attestation::InstanceAttester; }
pub mod crypto { pub use oak_stub::session::InstanceSessionBinder; }
pub mod testing { pub use oak_stub::attestation::{InstanceAttester as MockAttester, MockSigner}; }""",
 "oak_session": """pub mod aggregators { pub use oak_stub::session::PassThrough; }
pub mod attestation { pub use oak_stub::session::AttestationType; }
pub mod config { pub use oak_stub::session::{EncryptorProvider, SessionConfig}; }
pub mod encryptors { pub use oak_stub::crypto::UnorderedChannelEncryptor; }
pub mod generator { pub use oak_stub::session::BindableAssertionGenerator; }
pub mod handshake { pub use oak_stub::session::HandshakeType; }
pub mod key_extractor {
    pub use oak_stub::session::{DefaultBindingKeyExtractor, DefaultSigningKeyExtractor, KeyExtractor};
}
pub mod session { pub use oak_stub::session::{ClientSession, ServerSession, Session}; }
pub mod session_binding {
    pub use oak_stub::session::{
        SessionBinder, SignatureBinder, SignatureBinderBuilder, SignatureBindingVerifierProvider,
    };
}
pub mod verifier { pub use oak_stub::session::BoundAssertionVerifier; }
pub use oak_stub::session::ProtocolEngine;""",
 "oak_session_endorsed_evidence": "pub use oak_stub::session::{EndorsedEvidenceBindableAssertionGenerator, EndorsedEvidenceBoundAssertionVerifier};",
 "oak_sdk_common": "pub use oak_stub::attestation::StaticAttester;",
 "oak_sdk_containers": "pub use oak_stub::session::ContainersSessionBinder as InstanceSessionBinder;",

}
for name, body in F.items():
    d = os.path.join(here, "stubs", name)
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    ver = "0.0.0"
    open(os.path.join(d, "Cargo.toml"), "w").write(f"""[package]
name = "{name}"
version = "{ver}"
edition = "2021"

[lib]
doctest = false
test = false

[dependencies]
oak_stub = {{ path = "../oak_stub" }}
""")
    open(os.path.join(d, "src/lib.rs"), "w").write("//! Facade of the simulated Oak.\n" + body + "\n")
