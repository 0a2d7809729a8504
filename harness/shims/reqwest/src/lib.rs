//! Type-level stand-in: every request fails, there is no network.
#[derive(Debug)]
pub struct Error;
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "no network")
    }
}
impl std::error::Error for Error {}
#[derive(Debug)]
pub struct Response(());
impl Response {
    pub async fn json<T: serde::de::DeserializeOwned>(self) -> Result<T, Error> {
        Err(Error)
    }
    pub async fn text(self) -> Result<String, Error> {
        Err(Error)
    }
}
#[derive(Debug, Clone, Default)]
pub struct Client;
pub struct RequestBuilder;
impl Client {
    pub fn new() -> Self {
        Client
    }
    pub fn get<U>(&self, _url: U) -> RequestBuilder {
        RequestBuilder
    }
}
impl RequestBuilder {
    pub fn timeout(self, _d: std::time::Duration) -> Self {
        self
    }
    pub async fn send(self) -> Result<Response, Error> {
        Err(Error)
    }
}
pub async fn get<U>(_url: U) -> Result<Response, Error> {
    Err(Error)
}
