//! Stand-in for jsonrpsee: types only, no transport.
pub mod proc_macros {
    pub use jsonrpsee_proc_macros::rpc;
}
pub mod types {
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct ErrorObjectOwned {
        code: i32,
        message: String,
    }
    impl ErrorObjectOwned {
        pub fn owned<S: serde::Serialize>(code: i32, message: impl Into<String>, _data: Option<S>) -> Self {
            Self { code, message: message.into() }
        }
        pub fn code(&self) -> i32 {
            self.code
        }
        pub fn message(&self) -> &str {
            &self.message
        }
    }
    impl std::fmt::Display for ErrorObjectOwned {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "{}: {}", self.code, self.message)
        }
    }
    impl std::error::Error for ErrorObjectOwned {}
    pub type ErrorObject<'a> = ErrorObjectOwned;
    pub mod error {
        pub use super::{ErrorObject, ErrorObjectOwned};
        pub const INTERNAL_ERROR_CODE: i32 = -32603;
        pub const INVALID_PARAMS_CODE: i32 = -32602;
    }
}
pub mod core {
    pub use async_trait::async_trait;
    pub use serde::{de::DeserializeOwned, Deserialize, Serialize};
    pub type RpcResult<T> = std::result::Result<T, crate::types::ErrorObjectOwned>;
    pub mod client {
        #[derive(Debug)]
        pub enum Error {
            Call(crate::types::ErrorObjectOwned),
            Custom(String),
        }
        impl std::fmt::Display for Error {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                write!(f, "{self:?}")
            }
        }
        impl std::error::Error for Error {}
    }
}
pub struct RpcModule<T>(pub T);
impl<T> RpcModule<T> {
    pub fn new(t: T) -> Self {
        Self(t)
    }
}
#[derive(Default, Clone)]
pub struct Methods;
impl Methods {
    pub fn new() -> Self {
        Self
    }
    pub fn merge<T>(&mut self, _m: T) -> Result<(), types::ErrorObjectOwned> {
        Ok(())
    }
}
impl<T> From<RpcModule<T>> for Methods {
    fn from(_: RpcModule<T>) -> Self {
        Methods
    }
}
pub mod server {
    use std::net::SocketAddr;
    #[derive(Clone, Debug)]
    pub struct ServerHandle;
    impl ServerHandle {
        pub fn stop(&self) -> Result<(), std::io::Error> {
            Ok(())
        }
        pub async fn stopped(self) {}
    }
    pub struct Server(SocketAddr);
    pub struct ServerBuilder;
    impl Server {
        pub fn builder() -> ServerBuilder {
            ServerBuilder
        }
        pub fn local_addr(&self) -> std::io::Result<SocketAddr> {
            Ok(self.0)
        }
        pub fn start<M>(self, _m: M) -> ServerHandle {
            ServerHandle
        }
    }
    impl ServerBuilder {
        pub async fn build<A: std::net::ToSocketAddrs>(self, a: A) -> std::io::Result<Server> {
            Ok(Server(a.to_socket_addrs()?.next().ok_or(std::io::Error::other("no address"))?))
        }
    }
}
