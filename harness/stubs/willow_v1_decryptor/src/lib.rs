pub use willow_stub::{DecryptorState, WillowV1Decryptor};
