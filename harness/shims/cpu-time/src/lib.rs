//! CPU time of the process; the wall clock does for what is shown in log lines.
pub struct ProcessTime(std::time::Instant);
impl ProcessTime {
    pub fn now() -> Self {
        Self(std::time::Instant::now())
    }
    pub fn elapsed(&self) -> std::time::Duration {
        self.0.elapsed()
    }
}
