pub use willow_stub::ShellVahe;
