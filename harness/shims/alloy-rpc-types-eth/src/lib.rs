pub use alloy::consensus::ReceiptEnvelope;
