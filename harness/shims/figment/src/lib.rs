//! Type-level stand-in: the drivers build their configuration directly, so nothing is ever read
//! through here.
pub struct Figment;
impl Figment {
    pub fn new() -> Self {
        Figment
    }
    pub fn merge<T>(self, _provider: T) -> Self {
        self
    }
    pub fn select<P>(self, _profile: P) -> Self {
        self
    }
    pub fn extract<T: for<'de> serde::Deserialize<'de>>(&self) -> Result<T, error::Error> {
        unimplemented!("configuration files are not read")
    }
}
pub mod error {
    #[derive(Debug)]
    pub enum Kind {
        MissingField(String),
        Message(String),
    }
    #[derive(Debug)]
    pub struct Error {
        pub kind: Kind,
    }
    impl std::fmt::Display for Error {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "{:?}", self.kind)
        }
    }
}
pub mod value {
    #[derive(Debug, Clone, serde::Serialize)]
    pub struct Value(String);
    impl<T: ToString> From<T> for Value {
        fn from(t: T) -> Self {
            Value(t.to_string())
        }
    }
}
pub mod providers {
    pub struct Serialized<T>(pub T);
    impl<T> Serialized<T> {
        pub fn from<P>(value: T, _profile: P) -> Self {
            Serialized(value)
        }
    }
    pub struct Toml;
    pub struct Data;
    impl Data {
        pub fn nested(self) -> Self {
            self
        }
    }
    pub trait Format {
        fn file<P>(_path: P) -> Data {
            Data
        }
    }
    impl Format for Toml {}
}
