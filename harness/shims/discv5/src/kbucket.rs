//! Kademlia routing table with the same observable behaviour as discv5's.
use crate::enr::NodeId;
use alloy_primitives::U256;
use std::{collections::VecDeque, time::Duration};
use tokio::time::Instant;

pub const MAX_NODES_PER_BUCKET: usize = 16;
const NUM_BUCKETS: usize = 256;

#[derive(Clone, Debug)]
pub struct Key<T> {
    preimage: T,
    hash: [u8; 32],
}
impl<T> PartialEq for Key<T> {
    fn eq(&self, o: &Self) -> bool {
        self.hash == o.hash
    }
}
impl<T> Eq for Key<T> {}
impl<T> std::hash::Hash for Key<T> {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.hash.hash(h)
    }
}
impl<T> AsRef<Key<T>> for Key<T> {
    fn as_ref(&self) -> &Key<T> {
        self
    }
}
impl<T> Key<T> {
    pub fn new_raw(preimage: T, hash: impl Into<[u8; 32]>) -> Self {
        Self { preimage, hash: hash.into() }
    }
    pub fn preimage(&self) -> &T {
        &self.preimage
    }
    pub fn into_preimage(self) -> T {
        self.preimage
    }
    pub fn distance<U>(&self, o: &Key<U>) -> Distance {
        Distance(U256::from_be_bytes(self.hash) ^ U256::from_be_bytes(o.hash))
    }
    pub fn log2_distance<U>(&self, o: &Key<U>) -> Option<u64> {
        let d = self.distance(o).0;
        if d.is_zero() { None } else { Some(256 - d.leading_zeros() as u64) }
    }
}
impl From<NodeId> for Key<NodeId> {
    fn from(n: NodeId) -> Self {
        Key { preimage: n, hash: n.raw() }
    }
}
#[derive(Copy, Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug, Default)]
pub struct Distance(pub U256);

#[derive(Copy, Clone, PartialEq, Eq, Debug, Hash)]
pub enum ConnectionState {
    Connected,
    Disconnected,
}
#[derive(Copy, Clone, PartialEq, Eq, Debug, Hash)]
pub enum ConnectionDirection {
    Incoming,
    Outgoing,
}
impl std::fmt::Display for ConnectionDirection {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(match self {
            Self::Incoming => "Incoming",
            Self::Outgoing => "Outgoing",
        })
    }
}
#[derive(Copy, Clone, PartialEq, Eq, Debug, Hash)]
pub struct NodeStatus {
    pub direction: ConnectionDirection,
    pub state: ConnectionState,
}
impl NodeStatus {
    pub fn is_connected(&self) -> bool {
        self.state == ConnectionState::Connected
    }
    pub fn is_incoming(&self) -> bool {
        self.direction == ConnectionDirection::Incoming
    }
}

pub trait FilterClone<V: Eq> {
    fn clone_box(&self) -> Box<dyn Filter<V>>;
}
pub trait Filter<V: Eq>: FilterClone<V> + Send + Sync {
    fn filter(&self, value_to_be_inserted: &V, other_vals: &mut dyn Iterator<Item = &V>) -> bool;
}
impl<V: Eq, F: 'static + Filter<V> + Clone> FilterClone<V> for F {
    fn clone_box(&self) -> Box<dyn Filter<V>> {
        Box::new(self.clone())
    }
}
impl<V: Eq> Clone for Box<dyn Filter<V>> {
    fn clone(&self) -> Self {
        self.clone_box()
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Node<T, V: Eq> {
    pub key: Key<T>,
    pub value: V,
    pub status: NodeStatus,
}
#[derive(Clone, Debug)]
pub struct PendingNode<T, V: Eq> {
    node: Node<T, V>,
    replace: Instant,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct AppliedPending<T, V: Eq> {
    pub inserted: Key<T>,
    pub evicted: Option<Node<T, V>>,
}
#[must_use]
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum InsertResult<T> {
    Inserted,
    Pending { disconnected: Key<T> },
    StatusUpdated { promoted_to_connected: bool },
    ValueUpdated,
    Updated { promoted_to_connected: bool },
    UpdatedPending,
    Failed(FailureReason),
}
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub enum FailureReason {
    TooManyIncoming,
    BucketFilter,
    TableFilter,
    KeyNonExistent,
    BucketFull,
    InvalidSelfUpdate,
}
#[must_use]
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub enum UpdateResult {
    Updated,
    UpdatedAndPromoted,
    UpdatedPending,
    Failed(FailureReason),
    NotModified,
}
impl UpdateResult {
    pub fn failed(&self) -> bool {
        matches!(self, UpdateResult::Failed(_))
    }
}

enum BInsert<T> {
    Inserted,
    Pending { disconnected: Key<T> },
    FailedFilter,
    TooManyIncoming,
    Full,
    NodeExists,
}

#[derive(Clone)]
pub struct KBucket<T, V: Eq> {
    nodes: Vec<Node<T, V>>,
    first_connected_pos: Option<usize>,
    pending: Option<PendingNode<T, V>>,
    pending_timeout: Duration,
    filter: Option<Box<dyn Filter<V>>>,
    max_incoming: usize,
}
impl<T: Clone, V: Eq> KBucket<T, V> {
    pub fn iter(&self) -> impl Iterator<Item = &Node<T, V>> {
        self.nodes.iter()
    }
    pub fn num_entries(&self) -> usize {
        self.nodes.len()
    }
    pub fn num_connected(&self) -> usize {
        self.first_connected_pos.map_or(0, |i| self.nodes.len() - i)
    }
    pub fn pending(&self) -> Option<&Node<T, V>> {
        self.pending.as_ref().map(|p| &p.node)
    }
    fn position(&self, key: &Key<T>) -> Option<usize> {
        self.nodes.iter().position(|n| n.key == *key)
    }
    fn full(&self) -> bool {
        self.nodes.len() >= MAX_NODES_PER_BUCKET
    }
    fn max_incoming(&self) -> bool {
        self.nodes.iter().filter(|n| n.status.is_connected() && n.status.is_incoming()).count() >= self.max_incoming
    }
    fn filtered(&self, v: &V) -> bool {
        match &self.filter {
            Some(f) => !f.filter(v, &mut self.nodes.iter().map(|n| &n.value)),
            None => false,
        }
    }
    fn insert(&mut self, node: Node<T, V>) -> BInsert<T> {
        if self.position(&node.key).is_some() {
            return BInsert::NodeExists;
        }
        if self.filtered(&node.value) {
            return BInsert::FailedFilter;
        }
        let was_pending = self.pending.as_ref().is_some_and(|p| p.node.key == node.key);
        match node.status.state {
            ConnectionState::Connected => {
                if node.status.is_incoming() && self.max_incoming() {
                    return BInsert::TooManyIncoming;
                }
                if self.full() {
                    if self.first_connected_pos == Some(0) || self.pending.is_some() {
                        return BInsert::Full;
                    }
                    self.pending = Some(PendingNode { node, replace: Instant::now() + self.pending_timeout });
                    return BInsert::Pending { disconnected: self.nodes[0].key.clone() };
                }
                let pos = self.nodes.len();
                self.first_connected_pos = self.first_connected_pos.or(Some(pos));
                self.nodes.push(node);
            }
            ConnectionState::Disconnected => {
                if self.full() {
                    return BInsert::Full;
                }
                if let Some(p) = &mut self.first_connected_pos {
                    self.nodes.insert(*p, node);
                    *p += 1;
                } else {
                    self.nodes.push(node);
                }
            }
        }
        if was_pending {
            self.pending = None;
        }
        BInsert::Inserted
    }
    fn remove_at(&mut self, pos: usize) -> Node<T, V> {
        let node = self.nodes.remove(pos);
        match node.status.state {
            ConnectionState::Connected => {
                if self.first_connected_pos == Some(pos) && pos == self.nodes.len() {
                    self.first_connected_pos = None;
                }
            }
            ConnectionState::Disconnected => {
                self.first_connected_pos = self.first_connected_pos.and_then(|p| p.checked_sub(1));
            }
        }
        node
    }
    fn update_status(&mut self, key: &Key<T>, state: ConnectionState, direction: Option<ConnectionDirection>) -> UpdateResult {
        if let Some(pos) = self.position(key) {
            let mut node = self.remove_at(pos);
            let old = node.status;
            node.status.state = state;
            if let Some(d) = direction {
                node.status.direction = d;
            }
            let not_modified = old == node.status;
            let conn = state == ConnectionState::Connected;
            if pos == 0 && conn {
                self.pending = None;
            }
            match self.insert(node) {
                BInsert::Inserted => {
                    if not_modified {
                        UpdateResult::NotModified
                    } else if !old.is_connected() && conn {
                        UpdateResult::UpdatedAndPromoted
                    } else {
                        UpdateResult::Updated
                    }
                }
                BInsert::TooManyIncoming => UpdateResult::Failed(FailureReason::TooManyIncoming),
                BInsert::FailedFilter => UpdateResult::Failed(FailureReason::BucketFilter),
                _ => unreachable!(),
            }
        } else if let Some(p) = self.pending.as_mut().filter(|p| p.node.key == *key) {
            p.node.status.state = state;
            if let Some(d) = direction {
                p.node.status.direction = d;
            }
            UpdateResult::UpdatedPending
        } else {
            UpdateResult::Failed(FailureReason::KeyNonExistent)
        }
    }
    fn update_value(&mut self, key: &Key<T>, value: V) -> UpdateResult {
        if let Some(pos) = self.position(key) {
            if self.nodes[pos].value == value {
                return UpdateResult::NotModified;
            }
            let mut node = self.remove_at(pos);
            if self.filtered(&value) {
                return UpdateResult::Failed(FailureReason::BucketFilter);
            }
            node.value = value;
            if node.status.is_connected() {
                self.first_connected_pos = Some(self.first_connected_pos.map_or(pos, |p| p.min(pos)));
            } else {
                self.first_connected_pos = self.first_connected_pos.map(|p| p + 1);
            }
            self.nodes.insert(pos, node);
            self.fix();
            UpdateResult::Updated
        } else if let Some(p) = self.pending.as_mut().filter(|p| p.node.key == *key) {
            p.node.value = value;
            UpdateResult::UpdatedPending
        } else {
            UpdateResult::Failed(FailureReason::KeyNonExistent)
        }
    }
    fn fix(&mut self) {
        self.first_connected_pos = self.nodes.iter().position(|n| n.status.is_connected());
    }
    fn apply_pending(&mut self) -> Option<AppliedPending<T, V>> {
        let p = self.pending.take()?;
        if p.replace > Instant::now() {
            self.pending = Some(p);
            return None;
        }
        let inserted = p.node.key.clone();
        if self.full() {
            if self.nodes[0].status.is_connected() || self.filtered(&p.node.value) {
                return None;
            }
            if p.node.status.is_connected() {
                if p.node.status.is_incoming() && self.max_incoming() {
                    return None;
                }
                let evicted = self.nodes.remove(0);
                self.nodes.push(p.node);
                self.fix();
                return Some(AppliedPending { inserted, evicted: Some(evicted) });
            }
            let evicted = self.nodes.remove(0);
            self.fix();
            match self.first_connected_pos {
                Some(i) => self.nodes.insert(i, p.node),
                None => self.nodes.push(p.node),
            }
            self.fix();
            return Some(AppliedPending { inserted, evicted: Some(evicted) });
        }
        match self.insert(p.node) {
            BInsert::Inserted => Some(AppliedPending { inserted, evicted: None }),
            _ => None,
        }
    }
}

pub struct EntryRefView<'a, T, V: Eq> {
    pub node: NodeRefView<'a, T, V>,
    pub status: NodeStatus,
}
pub struct NodeRefView<'a, T, V: Eq> {
    pub key: &'a Key<T>,
    pub value: &'a V,
}
pub struct PresentEntry<'a, T, V: Eq>(&'a mut KBucket<T, V>, usize);
impl<T: Clone, V: Eq> PresentEntry<'_, T, V> {
    pub fn key(&self) -> &Key<T> {
        &self.0.nodes[self.1].key
    }
    pub fn value(&self) -> &V {
        &self.0.nodes[self.1].value
    }
    pub fn value_mut(&mut self) -> &mut V {
        &mut self.0.nodes[self.1].value
    }
    pub fn status(&self) -> NodeStatus {
        self.0.nodes[self.1].status
    }
}
pub struct PendingEntry<'a, T, V: Eq>(&'a mut KBucket<T, V>);
impl<T: Clone, V: Eq> PendingEntry<'_, T, V> {
    pub fn value(&mut self) -> &mut V {
        &mut self.0.pending.as_mut().unwrap().node.value
    }
}
pub struct AbsentEntry<'a, T, V: Eq>(&'a mut KBucket<T, V>);
impl<T: Clone, V: Eq> AbsentEntry<'_, T, V> {
    pub fn bucket_len(&self) -> usize {
        self.0.nodes.len()
    }
}
pub enum Entry<'a, T, V: Eq> {
    Present(PresentEntry<'a, T, V>, NodeStatus),
    Pending(PendingEntry<'a, T, V>, NodeStatus),
    Absent(AbsentEntry<'a, T, V>),
    SelfEntry,
}

#[derive(Clone)]
pub struct KBucketsTable<T, V: Eq> {
    local_key: Key<T>,
    buckets: Vec<KBucket<T, V>>,
    applied_pending: VecDeque<AppliedPending<T, V>>,
    table_filter: Option<Box<dyn Filter<V>>>,
}
impl<T: Clone, V: Eq> KBucketsTable<T, V> {
    pub fn new(
        local_key: Key<T>,
        pending_timeout: Duration,
        max_incoming_per_bucket: usize,
        table_filter: Option<Box<dyn Filter<V>>>,
        bucket_filter: Option<Box<dyn Filter<V>>>,
    ) -> Self {
        Self {
            local_key,
            buckets: (0..NUM_BUCKETS)
                .map(|_| KBucket {
                    nodes: vec![],
                    first_connected_pos: None,
                    pending: None,
                    pending_timeout,
                    filter: bucket_filter.clone(),
                    max_incoming: max_incoming_per_bucket,
                })
                .collect(),
            applied_pending: VecDeque::new(),
            table_filter,
        }
    }
    fn index(&self, key: &Key<T>) -> Option<usize> {
        self.local_key.log2_distance(key).map(|d| d as usize - 1)
    }
    fn apply(&mut self, i: usize) {
        if let Some(a) = self.buckets[i].apply_pending() {
            self.applied_pending.push_back(a);
        }
    }
    fn table_ok(&self, i: usize, key: &Key<T>, value: &V) -> bool {
        let Some(f) = &self.table_filter else { return true };
        let b = &self.buckets[i];
        if b.position(key).is_some_and(|p| b.nodes[p].value == *value) {
            return true;
        }
        f.filter(value, &mut self.buckets.iter().flat_map(|b| b.nodes.iter().map(|n| &n.value)))
    }
    pub fn local_key(&self) -> &Key<T> {
        &self.local_key
    }
    pub fn update_node_status(&mut self, key: &Key<T>, state: ConnectionState, direction: Option<ConnectionDirection>) -> UpdateResult {
        let Some(i) = self.index(key) else { return UpdateResult::NotModified };
        self.apply(i);
        self.buckets[i].update_status(key, state, direction)
    }
    pub fn update_node(&mut self, key: &Key<T>, value: V, state: Option<ConnectionState>) -> UpdateResult {
        let Some(i) = self.index(key) else { return UpdateResult::Failed(FailureReason::InvalidSelfUpdate) };
        if !self.table_ok(i, key, &value) {
            if let Some(p) = self.buckets[i].position(key) {
                self.buckets[i].remove_at(p);
            }
            return UpdateResult::Failed(FailureReason::TableFilter);
        }
        self.apply(i);
        let b = &mut self.buckets[i];
        let st = match state {
            Some(s) => b.update_status(key, s, None),
            None => UpdateResult::NotModified,
        };
        if st.failed() {
            return st;
        }
        let val = b.update_value(key, value);
        use UpdateResult::*;
        match (val, st) {
            (Failed(r), _) => Failed(r),
            (_, UpdatedAndPromoted) => UpdatedAndPromoted,
            (UpdatedPending, _) | (_, UpdatedPending) => UpdatedPending,
            (NotModified, NotModified) => NotModified,
            _ => Updated,
        }
    }
    pub fn insert_or_update(&mut self, key: &Key<T>, value: V, status: NodeStatus) -> InsertResult<T> {
        let Some(i) = self.index(key) else { return InsertResult::Failed(FailureReason::InvalidSelfUpdate) };
        let ok = self.table_ok(i, key, &value);
        self.apply(i);
        let b = &mut self.buckets[i];
        if b.position(key).is_none() {
            if !ok {
                return InsertResult::Failed(FailureReason::TableFilter);
            }
            match b.insert(Node { key: key.clone(), value, status }) {
                BInsert::NodeExists => unreachable!(),
                BInsert::Full => InsertResult::Failed(FailureReason::BucketFull),
                BInsert::TooManyIncoming => InsertResult::Failed(FailureReason::TooManyIncoming),
                BInsert::FailedFilter => InsertResult::Failed(FailureReason::BucketFilter),
                BInsert::Pending { disconnected } => InsertResult::Pending { disconnected },
                BInsert::Inserted => InsertResult::Inserted,
            }
        } else {
            if !ok {
                let p = b.position(key).unwrap();
                b.remove_at(p);
                return InsertResult::Failed(FailureReason::TableFilter);
            }
            let st = b.update_status(key, status.state, Some(status.direction));
            if let UpdateResult::Failed(r) = st {
                return InsertResult::Failed(r);
            }
            let val = b.update_value(key, value);
            use UpdateResult::*;
            match (val, st) {
                (Failed(r), _) | (_, Failed(r)) => InsertResult::Failed(r),
                (Updated, Updated) => InsertResult::Updated { promoted_to_connected: false },
                (Updated, UpdatedAndPromoted) => InsertResult::Updated { promoted_to_connected: true },
                (Updated, NotModified) => InsertResult::ValueUpdated,
                (NotModified, Updated) => InsertResult::StatusUpdated { promoted_to_connected: false },
                (NotModified, UpdatedAndPromoted) => InsertResult::StatusUpdated { promoted_to_connected: true },
                (NotModified, NotModified) => InsertResult::Updated { promoted_to_connected: false },
                _ => InsertResult::UpdatedPending,
            }
        }
    }
    pub fn remove(&mut self, key: &Key<T>) -> bool {
        let Some(i) = self.index(key) else { return false };
        self.apply(i);
        let r = match self.buckets[i].position(key) {
            Some(p) => {
                self.buckets[i].remove_at(p);
                true
            }
            None => false,
        };
        self.apply(i);
        r
    }
    pub fn entry<'a>(&'a mut self, key: &'a Key<T>) -> Entry<'a, T, V> {
        let Some(i) = self.index(key) else { return Entry::SelfEntry };
        self.apply(i);
        let b = &mut self.buckets[i];
        if let Some(p) = b.position(key) {
            let s = b.nodes[p].status;
            Entry::Present(PresentEntry(b, p), s)
        } else if let Some(s) = b.pending.as_ref().filter(|p| p.node.key == *key).map(|p| p.node.status) {
            Entry::Pending(PendingEntry(b), s)
        } else {
            Entry::Absent(AbsentEntry(b))
        }
    }
    pub fn buckets_iter(&self) -> impl Iterator<Item = &KBucket<T, V>> {
        self.buckets.iter()
    }
    pub fn iter(&mut self) -> impl Iterator<Item = EntryRefView<'_, T, V>> {
        for i in 0..NUM_BUCKETS {
            self.apply(i);
        }
        self.buckets.iter().flat_map(|b| {
            b.nodes.iter().map(|n| EntryRefView { node: NodeRefView { key: &n.key, value: &n.value }, status: n.status })
        })
    }
    pub fn nodes_by_distances(&mut self, log2_distances: &[u64], max_nodes: usize) -> Vec<EntryRefView<'_, T, V>> {
        let ds: Vec<usize> = log2_distances
            .iter()
            .filter(|d| **d > 0 && **d <= NUM_BUCKETS as u64)
            .map(|d| *d as usize - 1)
            .collect();
        for d in &ds {
            self.apply(*d);
        }
        ds.iter()
            .flat_map(|d| self.buckets[*d].nodes.iter())
            .map(|n| EntryRefView { node: NodeRefView { key: &n.key, value: &n.value }, status: n.status })
            .take(max_nodes)
            .collect()
    }
    pub fn closest_keys<'a>(&'a mut self, target: &'a Key<T>) -> impl Iterator<Item = Key<T>> + 'a {
        for i in 0..NUM_BUCKETS {
            self.apply(i);
        }
        let mut v: Vec<Key<T>> = self.buckets.iter().flat_map(|b| b.nodes.iter().map(|n| n.key.clone())).collect();
        v.sort_by_key(|k| k.distance(target));
        v.into_iter()
    }
    pub fn take_applied_pending(&mut self) -> Option<AppliedPending<T, V>> {
        self.applied_pending.pop_front()
    }
}
