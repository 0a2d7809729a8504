use crate::nibbles::Nibbles;
use alloy_primitives::B256;
use std::sync::{Arc, RwLock};

#[derive(Debug, Clone, Default)]
pub enum Node {
    #[default]
    Empty,
    Leaf(Arc<LeafNode>),
    Extension(Arc<RwLock<ExtensionNode>>),
    Branch(Arc<RwLock<BranchNode>>),
    Hash(Arc<HashNode>),
}
#[derive(Debug)]
pub struct LeafNode {
    pub key: Nibbles,
    pub value: Vec<u8>,
}
#[derive(Debug)]
pub struct BranchNode {
    pub children: [Node; 16],
    pub value: Option<Vec<u8>>,
}
#[derive(Debug)]
pub struct ExtensionNode {
    pub prefix: Nibbles,
    pub node: Node,
}
#[derive(Debug)]
pub struct HashNode {
    pub hash: B256,
}
impl Node {
    pub fn from_leaf(key: Nibbles, value: Vec<u8>) -> Self {
        Node::Leaf(Arc::new(LeafNode { key, value }))
    }
    pub fn from_branch(children: [Node; 16], value: Option<Vec<u8>>) -> Self {
        Node::Branch(Arc::new(RwLock::new(BranchNode { children, value })))
    }
    pub fn from_extension(prefix: Nibbles, node: Node) -> Self {
        Node::Extension(Arc::new(RwLock::new(ExtensionNode { prefix, node })))
    }
    pub fn from_hash(hash: B256) -> Self {
        Node::Hash(Arc::new(HashNode { hash }))
    }
}
pub fn empty_children() -> [Node; 16] {
    Default::default()
}
