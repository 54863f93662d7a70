pub use willow_stub::create_shell_ahe_config;
