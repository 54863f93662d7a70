//! The tablet cache without its actor, which needs Oak.
#![feature(never_type)]

extern crate alloc;
extern crate hashbrown;
extern crate prost;
extern crate slog;
extern crate tcp_runtime;
extern crate tcp_tablet_store_service;

pub mod apps {
    pub mod tablet_cache {
        pub mod service {
            include!(concat!(env!("OUT_DIR"), "/apps.tablet_cache.service.rs"));
        }
    }
}

pub mod store;
pub mod transaction;
