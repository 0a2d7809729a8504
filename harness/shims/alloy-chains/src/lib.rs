#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Chain(u64);
impl Chain {
    pub const fn mainnet() -> Self {
        Self(1)
    }
    pub const fn sepolia() -> Self {
        Self(11155111)
    }
    pub const fn from_id(id: u64) -> Self {
        Self(id)
    }
    pub const fn id(&self) -> u64 {
        self.0
    }
}
