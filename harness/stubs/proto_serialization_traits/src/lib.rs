pub use willow_stub::{FromProto, ToProto};
