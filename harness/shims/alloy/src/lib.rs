//! The parts of the `alloy` facade that trin uses.
pub use alloy_primitives as primitives;
pub use alloy_rlp as rlp;
pub use alloy_primitives::hex;
pub mod consensus;
pub mod eips;
pub mod rpc {
    pub mod types {
        pub use crate::eips::eip4895::{Withdrawal, Withdrawals};
        use serde::{Deserialize, Serialize};
        /// Events of a consensus node.
        pub mod beacon {
            pub mod events {
                use alloy_primitives::B256;
                #[derive(Clone, Copy, Debug, PartialEq, Eq)]
                pub enum BeaconNodeEventTopic {
                    ChainReorg,
                    FinalizedCheckpoint,
                    Head,
                    LightClientFinalityUpdate,
                    LightClientOptimisticUpdate,
                }
                #[derive(Clone, Debug, PartialEq)]
                pub struct HeadEvent {
                    pub slot: u64,
                    pub block: B256,
                    pub state: B256,
                    pub epoch_transition: bool,
                    pub previous_duty_dependent_root: B256,
                    pub current_duty_dependent_root: B256,
                    pub execution_optimistic: bool,
                }
                #[derive(Clone, Debug, PartialEq)]
                pub struct FinalizedCheckpointEvent {
                    pub block: B256,
                    pub state: B256,
                    pub epoch: u64,
                    pub execution_optimistic: bool,
                }
                #[derive(Clone, Debug, PartialEq)]
                pub struct BeaconHeader {
                    pub slot: u64,
                    pub proposer_index: u64,
                    pub parent_root: B256,
                    pub state_root: B256,
                    pub body_root: B256,
                }
                #[derive(Clone, Debug, PartialEq)]
                pub struct AttestedHeader {
                    pub beacon: BeaconHeader,
                }
                #[derive(Clone, Debug, PartialEq)]
                pub struct LightClientOptimisticUpdateData {
                    pub attested_header: AttestedHeader,
                    pub signature_slot: u64,
                }
                #[derive(Clone, Debug, PartialEq)]
                pub struct LightClientOptimisticUpdateEvent {
                    pub version: String,
                    pub data: LightClientOptimisticUpdateData,
                }
            }
        }
        #[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
        pub struct Block {}
        #[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
        pub struct BlockId {}
        #[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
        pub struct BlockNumberOrTag {}
        #[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
        pub struct TransactionRequest {}
    }
}
