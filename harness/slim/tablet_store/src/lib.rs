extern crate prost;

pub mod apps {
    pub mod tablet_store {
        pub mod service {
            include!(concat!(env!("OUT_DIR"), "/apps.tablet_store.service.rs"));
        }
    }
}
