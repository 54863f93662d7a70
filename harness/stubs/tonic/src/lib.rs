//! The few shapes of tonic which the runtime uses.
pub mod transport {
    pub mod channel {
        pub use oak_stub::rpc::Channel;
    }
}

#[cfg(feature = "service")]
pub use async_trait::async_trait;

pub struct Request<T>(T);
impl<T> Request<T> {
    pub fn new(inner: T) -> Self {
        Self(inner)
    }
    pub fn into_inner(self) -> T {
        self.0
    }
}

#[derive(Debug)]
pub struct Response<T>(T);
impl<T> Response<T> {
    pub fn new(inner: T) -> Self {
        Self(inner)
    }
    pub fn into_inner(self) -> T {
        self.0
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Code(pub i32);
impl From<i32> for Code {
    fn from(code: i32) -> Self {
        Self(code)
    }
}

#[derive(Clone, Debug)]
pub struct Status {
    pub code: Code,
    pub message: String,
}
impl Status {
    pub fn new(code: Code, message: impl Into<String>) -> Self {
        Self { code, message: message.into() }
    }
    pub fn internal(message: impl Into<String>) -> Self {
        Self::new(Code(13), message)
    }
}
