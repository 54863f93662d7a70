pub use willow_stub::SecureAggregationDecryptor;
