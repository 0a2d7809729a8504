use std::path::{Path, PathBuf};
pub struct ProjectDirs(PathBuf);
impl ProjectDirs {
    pub fn from(_q: &str, _o: &str, app: &str) -> Option<Self> {
        std::env::var_os("HOME").map(|h| Self(PathBuf::from(h).join(".local/share").join(app)))
    }
    pub fn data_local_dir(&self) -> &Path {
        &self.0
    }
}
