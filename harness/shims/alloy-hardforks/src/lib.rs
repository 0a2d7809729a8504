//! Activation points of the execution hard forks, with the interface of `alloy-hardforks`.
use alloy_primitives::U256;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum EthereumHardfork {
    Frontier,
    Homestead,
    Dao,
    Tangerine,
    SpuriousDragon,
    Byzantium,
    Constantinople,
    Petersburg,
    Istanbul,
    MuirGlacier,
    Berlin,
    London,
    ArrowGlacier,
    GrayGlacier,
    Paris,
    Shanghai,
    Cancun,
    Prague,
    Osaka,
}
use EthereumHardfork::*;
#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub enum ForkCondition {
    Block(u64),
    TTD { activation_block_number: u64, fork_block: Option<u64>, total_difficulty: U256 },
    Timestamp(u64),
    #[default]
    Never,
}
impl ForkCondition {
    pub const fn active_at_block(&self, n: u64) -> bool {
        match self {
            Self::Block(b) | Self::TTD { activation_block_number: b, .. } => n >= *b,
            _ => false,
        }
    }
    pub const fn active_at_timestamp(&self, t: u64) -> bool {
        matches!(self, Self::Timestamp(x) if t >= *x)
    }
}
const MAINNET: [(EthereumHardfork, u64); 14] = [
    (Frontier, 0),
    (Homestead, 1150000),
    (Dao, 1920000),
    (Tangerine, 2463000),
    (SpuriousDragon, 2675000),
    (Byzantium, 4370000),
    (Constantinople, 7280000),
    (Petersburg, 7280000),
    (Istanbul, 9069000),
    (MuirGlacier, 9200000),
    (Berlin, 12244000),
    (London, 12965000),
    (ArrowGlacier, 13773000),
    (GrayGlacier, 15050000),
];
const MAINNET_PARIS: u64 = 15537394;
const MAINNET_TS: [(EthereumHardfork, u64); 3] = [(Shanghai, 1681338455), (Cancun, 1710338135), (Prague, 1746612311)];
const SEPOLIA_PARIS: u64 = 1450409;
const SEPOLIA_TS: [(EthereumHardfork, u64); 3] = [(Shanghai, 1677557088), (Cancun, 1706655072), (Prague, 1741159776)];
impl EthereumHardfork {
    pub fn mainnet_activation_block(&self) -> Option<u64> {
        match self {
            Paris => Some(MAINNET_PARIS),
            Shanghai => Some(17034870),
            Cancun => Some(19426587),
            Prague => Some(22431084),
            _ => MAINNET.iter().find(|f| f.0 == *self).map(|f| f.1),
        }
    }
    pub fn mainnet_activation_timestamp(&self) -> Option<u64> {
        match self {
            Paris => Some(1663224162),
            _ => MAINNET_TS.iter().find(|f| f.0 == *self).map(|f| f.1),
        }
    }
}
#[derive(Clone, Debug)]
pub struct EthereumChainHardforks {
    forks: Vec<(EthereumHardfork, ForkCondition)>,
}
impl EthereumChainHardforks {
    pub fn new(forks: impl IntoIterator<Item = (EthereumHardfork, ForkCondition)>) -> Self {
        Self { forks: forks.into_iter().collect() }
    }
    fn build(blocks: &[(EthereumHardfork, u64)], paris: u64, ts: &[(EthereumHardfork, u64)]) -> Self {
        let mut v: Vec<_> = blocks.iter().map(|(f, b)| (*f, ForkCondition::Block(*b))).collect();
        v.push((Paris, ForkCondition::TTD { activation_block_number: paris, fork_block: None, total_difficulty: U256::ZERO }));
        v.extend(ts.iter().map(|(f, t)| (*f, ForkCondition::Timestamp(*t))));
        Self { forks: v }
    }
    pub fn mainnet() -> Self {
        Self::build(&MAINNET, MAINNET_PARIS, &MAINNET_TS)
    }
    pub fn sepolia() -> Self {
        let zero: Vec<_> = MAINNET.iter().map(|f| (f.0, 0)).collect();
        Self::build(&zero, SEPOLIA_PARIS, &SEPOLIA_TS)
    }
}
macro_rules! at_block {
    ($($n:ident $f:ident),*) => {$( fn $n(&self, b: u64) -> bool { self.is_ethereum_fork_active_at_block($f, b) } )*}
}
macro_rules! at_time {
    ($($n:ident $f:ident),*) => {$( fn $n(&self, t: u64) -> bool { self.is_ethereum_fork_active_at_timestamp($f, t) } )*}
}
pub trait EthereumHardforks {
    fn ethereum_fork_activation(&self, fork: EthereumHardfork) -> ForkCondition;
    fn is_ethereum_fork_active_at_timestamp(&self, fork: EthereumHardfork, t: u64) -> bool {
        self.ethereum_fork_activation(fork).active_at_timestamp(t)
    }
    fn is_ethereum_fork_active_at_block(&self, fork: EthereumHardfork, b: u64) -> bool {
        self.ethereum_fork_activation(fork).active_at_block(b)
    }
    at_block!(is_homestead_active_at_block Homestead, is_byzantium_active_at_block Byzantium, is_london_active_at_block London,
        is_spurious_dragon_active_at_block SpuriousDragon, is_constantinople_active_at_block Constantinople, is_berlin_active_at_block Berlin);
    fn is_paris_active_at_block(&self, b: u64) -> bool {
        self.is_ethereum_fork_active_at_block(Paris, b)
    }
    at_time!(is_shanghai_active_at_timestamp Shanghai, is_cancun_active_at_timestamp Cancun, is_prague_active_at_timestamp Prague, is_osaka_active_at_timestamp Osaka);
}
impl EthereumHardforks for EthereumChainHardforks {
    fn ethereum_fork_activation(&self, fork: EthereumHardfork) -> ForkCondition {
        self.forks.iter().find(|f| f.0 == fork).map(|f| f.1).unwrap_or_default()
    }
}
