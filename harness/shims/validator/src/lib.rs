pub use validator_derive::Validate;
use std::borrow::Cow;
#[derive(Debug, Clone, PartialEq)]
pub struct ValidationError {
    pub code: Cow<'static, str>,
    pub message: Option<Cow<'static, str>>,
}
impl ValidationError {
    pub fn new(code: &'static str) -> Self {
        Self { code: code.into(), message: None }
    }
}
impl std::fmt::Display for ValidationError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Validation error: {}", self.code)
    }
}
impl std::error::Error for ValidationError {}
#[derive(Debug, Clone, PartialEq, Default)]
pub struct ValidationErrors(Vec<(&'static str, ValidationError)>);
impl ValidationErrors {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn add(&mut self, f: &'static str, e: ValidationError) {
        self.0.push((f, e))
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
}
impl std::fmt::Display for ValidationErrors {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?}", self.0)
    }
}
impl std::error::Error for ValidationErrors {}
pub trait Validate {
    fn validate(&self) -> Result<(), ValidationErrors>;
}
