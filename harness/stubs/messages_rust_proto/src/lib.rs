pub use willow_stub::{DecryptorStateProto, PartialDecryptionRequestProto as PartialDecryptionRequest};
