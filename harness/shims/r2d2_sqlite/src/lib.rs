pub use rusqlite;
use std::{path::{Path, PathBuf}, sync::atomic::{AtomicU64, Ordering}};
#[derive(Debug)]
enum Source {
    File(PathBuf),
    Memory(u64),
}
#[derive(Debug)]
pub struct SqliteConnectionManager(Source);
static NEXT: AtomicU64 = AtomicU64::new(0);
impl SqliteConnectionManager {
    pub fn file(p: impl AsRef<Path>) -> Self {
        Self(Source::File(p.as_ref().to_path_buf()))
    }
    pub fn memory() -> Self {
        Self(Source::Memory(NEXT.fetch_add(1, Ordering::SeqCst)))
    }
}
impl r2d2::ManageConnection for SqliteConnectionManager {
    type Connection = rusqlite::Connection;
    type Error = rusqlite::Error;
    fn connect(&self) -> Result<Self::Connection, Self::Error> {
        match &self.0 {
            Source::File(p) => rusqlite::Connection::open(p),
            Source::Memory(n) => rusqlite::Connection::open_uri(&format!("file:mem{n}?mode=memory&cache=shared")),
        }
    }
}
