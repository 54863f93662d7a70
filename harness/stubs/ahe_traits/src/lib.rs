pub use willow_stub::AheBase;
