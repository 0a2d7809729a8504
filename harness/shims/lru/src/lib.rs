//! A small least-recently-used cache.
use std::{borrow::Borrow, collections::HashMap, hash::Hash, num::NonZeroUsize};
pub struct LruCache<K, V> {
    cap: usize,
    tick: u64,
    map: HashMap<K, (V, u64)>,
}
impl<K: Hash + Eq + Clone, V> LruCache<K, V> {
    pub fn new(cap: NonZeroUsize) -> Self {
        Self { cap: cap.get(), tick: 0, map: HashMap::new() }
    }
    pub fn put(&mut self, k: K, v: V) -> Option<V> {
        self.tick += 1;
        if !self.map.contains_key(&k) && self.map.len() >= self.cap {
            self.pop_lru();
        }
        self.map.insert(k, (v, self.tick)).map(|e| e.0)
    }
    pub fn push(&mut self, k: K, v: V) -> Option<(K, V)> {
        let old = if !self.map.contains_key(&k) && self.map.len() >= self.cap { self.pop_lru() } else { None };
        match self.put(k.clone(), v) {
            Some(o) => Some((k, o)),
            None => old,
        }
    }
    pub fn get<Q: ?Sized + Hash + Eq>(&mut self, k: &Q) -> Option<&V>
    where
        K: Borrow<Q>,
    {
        self.tick += 1;
        let t = self.tick;
        self.map.get_mut(k).map(|e| {
            e.1 = t;
            &e.0
        })
    }
    pub fn get_mut<Q: ?Sized + Hash + Eq>(&mut self, k: &Q) -> Option<&mut V>
    where
        K: Borrow<Q>,
    {
        self.tick += 1;
        let t = self.tick;
        self.map.get_mut(k).map(|e| {
            e.1 = t;
            &mut e.0
        })
    }
    pub fn peek<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> Option<&V>
    where
        K: Borrow<Q>,
    {
        self.map.get(k).map(|e| &e.0)
    }
    pub fn contains<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> bool
    where
        K: Borrow<Q>,
    {
        self.map.contains_key(k)
    }
    pub fn pop<Q: ?Sized + Hash + Eq>(&mut self, k: &Q) -> Option<V>
    where
        K: Borrow<Q>,
    {
        self.map.remove(k).map(|e| e.0)
    }
    pub fn pop_lru(&mut self) -> Option<(K, V)> {
        let k = self.map.iter().min_by_key(|(_, e)| e.1).map(|(k, _)| k.clone())?;
        self.map.remove(&k).map(|e| (k, e.0))
    }
    pub fn len(&self) -> usize {
        self.map.len()
    }
    pub fn is_empty(&self) -> bool {
        self.map.is_empty()
    }
    pub fn clear(&mut self) {
        self.map.clear()
    }
}
