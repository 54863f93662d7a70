pub mod prelude {
    pub use willow_stub::{Parse, Serialize};
}
