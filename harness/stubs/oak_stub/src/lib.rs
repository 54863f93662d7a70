//! Stand-in for the Oak crates the platform builds on. The shapes are Oak's, so that the
//! platform's real code compiles and runs unchanged; the insides are a simulation:
//!
//! * "hardware" signs (measurement, binding key) pairs, and only this crate can sign;
//! * a session is the four step NoiseNN-with-mutual-attestation exchange of Oak (attest,
//!   attest, handshake, handshake + binding, binding), with a toy Diffie-Hellman, a
//!   SHA-256 key stream and a SHA-256 MAC;
//! * encrypted messages carry a counter nonce, and the unordered channel encryptor has
//!   Oak's sliding window semantics.
//!
//! It is deterministic given `det::seed`.

pub mod attestation;
pub mod crypto;
pub mod det;
pub mod rpc;
pub mod session;
pub mod time;
