pub use willow_stub::PartialDecryptionRequest;
