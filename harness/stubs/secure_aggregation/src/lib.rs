pub use willow_stub::decryptor as proto;
