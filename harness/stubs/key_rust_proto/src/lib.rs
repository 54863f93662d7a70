pub use willow_stub::Key;
