pub use rust_embed_derive::RustEmbed;
pub struct EmbeddedFile {
    pub data: std::borrow::Cow<'static, [u8]>,
}
