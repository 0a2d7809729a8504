//! Merkle Patricia trie nodes with the interface of `eth_trie`.
pub mod nibbles;
pub mod node;
mod build;
pub use build::{ordered_root, trie_root, Trie as BuiltTrie};
use alloy_primitives::B256;
use alloy_rlp::{Header, PayloadView};
use nibbles::Nibbles;
use node::{empty_children, Node};

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum TrieError {
    DB(String),
    Decoder(alloy_rlp::Error),
    InvalidData,
    InvalidStateRoot,
    InvalidProof,
    MissingTrieNode { node_hash: B256, root_hash: B256, traversed: Option<Nibbles>, err_key: Option<Vec<u8>> },
}
impl std::fmt::Display for TrieError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "trie error: {self:?}")
    }
}
impl std::error::Error for TrieError {}
impl From<alloy_rlp::Error> for TrieError {
    fn from(e: alloy_rlp::Error) -> Self {
        Self::Decoder(e)
    }
}
/// Where nodes are kept.
pub trait DB: Send + Sync {
    type Error: std::error::Error;
    fn get(&self, key: &[u8]) -> Result<Option<Vec<u8>>, Self::Error>;
}
fn string<'a>(b: &mut &'a [u8]) -> Result<&'a [u8], TrieError> {
    Ok(Header::decode_bytes(b, false)?)
}
/// Decodes a node from its RLP encoding; nested encodings become inline nodes or hashes.
pub fn decode_node(data: &mut &[u8]) -> Result<Node, TrieError> {
    match Header::decode_raw(data)? {
        PayloadView::String(payload) => {
            if payload.is_empty() {
                Ok(Node::Empty)
            } else if payload.len() == 32 {
                Ok(Node::from_hash(B256::from_slice(payload)))
            } else {
                Err(TrieError::InvalidData)
            }
        }
        PayloadView::List(items) => match items.len() {
            2 => {
                let mut k = items[0];
                let key = Nibbles::from_compact(string(&mut k)?);
                let mut v = items[1];
                if key.is_leaf() {
                    Ok(Node::from_leaf(key, string(&mut v)?.to_vec()))
                } else {
                    Ok(Node::from_extension(key, decode_node(&mut v)?))
                }
            }
            17 => {
                let mut children = empty_children();
                for (i, it) in items.iter().take(16).enumerate() {
                    let mut it = *it;
                    children[i] = decode_node(&mut it)?;
                }
                let mut v = items[16];
                let v = string(&mut v)?;
                Ok(Node::from_branch(children, if v.is_empty() { None } else { Some(v.to_vec()) }))
            }
            _ => Err(TrieError::InvalidData),
        },
    }
}
