//! Maps and sets whose entries expire.
use futures::{ready, Stream};
use std::{borrow::Borrow, collections::HashMap, hash::Hash, pin::Pin, task::{Context, Poll}, time::Duration};
use tokio_util::time::delay_queue::{DelayQueue, Key};

#[derive(Debug)]
pub struct HashMapDelay<K, V> {
    entries: HashMap<K, (V, Key)>,
    exp: DelayQueue<K>,
    timeout: Duration,
}
impl<K, V> Default for HashMapDelay<K, V> {
    fn default() -> Self {
        Self { entries: HashMap::new(), exp: DelayQueue::new(), timeout: Duration::from_secs(30) }
    }
}
impl<K: Eq + Hash + Clone + Unpin, V: Unpin> HashMapDelay<K, V> {
    pub fn new(timeout: Duration) -> Self {
        Self { timeout, ..Default::default() }
    }
    pub fn insert(&mut self, k: K, v: V) -> Option<V> {
        let t = self.timeout;
        self.insert_at(k, v, t)
    }
    pub fn insert_at(&mut self, k: K, v: V, d: Duration) -> Option<V> {
        if let Some((old, q)) = self.entries.get_mut(&k) {
            self.exp.reset(q, d);
            return Some(std::mem::replace(old, v));
        }
        let q = self.exp.insert(k.clone(), d);
        self.entries.insert(k, (v, q));
        None
    }
    pub fn update_timeout<Q: ?Sized + Hash + Eq>(&mut self, k: &Q, d: Duration) -> bool
    where
        K: Borrow<Q>,
    {
        match self.entries.get(k) {
            Some((_, q)) => {
                self.exp.reset(q, d);
                true
            }
            None => false,
        }
    }
    pub fn get<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> Option<&V>
    where
        K: Borrow<Q>,
    {
        self.entries.get(k).map(|e| &e.0)
    }
    pub fn get_mut<Q: ?Sized + Hash + Eq>(&mut self, k: &Q) -> Option<&mut V>
    where
        K: Borrow<Q>,
    {
        self.entries.get_mut(k).map(|e| &mut e.0)
    }
    pub fn contains_key<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> bool
    where
        K: Borrow<Q>,
    {
        self.entries.contains_key(k)
    }
    pub fn remove<Q: ?Sized + Hash + Eq>(&mut self, k: &Q) -> Option<V>
    where
        K: Borrow<Q>,
    {
        let (v, q) = self.entries.remove(k)?;
        self.exp.remove(&q);
        Some(v)
    }
    pub fn deadline<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> Option<tokio::time::Instant>
    where
        K: Borrow<Q>,
    {
        self.entries.get(k).map(|e| self.exp.deadline(&e.1))
    }
    pub fn len(&self) -> usize {
        self.entries.len()
    }
    pub fn is_empty(&self) -> bool {
        self.entries.is_empty()
    }
    pub fn keys(&self) -> impl Iterator<Item = &K> {
        self.entries.keys()
    }
    pub fn iter(&self) -> impl Iterator<Item = (&K, &V)> {
        self.entries.iter().map(|(k, v)| (k, &v.0))
    }
    pub fn clear(&mut self) {
        self.entries.clear();
        self.exp.clear();
    }
    pub fn poll_expired(&mut self, cx: &mut Context<'_>) -> Poll<Option<Result<(K, V), String>>> {
        Pin::new(self).poll_next(cx)
    }
}
impl<K: Eq + Hash + Clone + Unpin, V: Unpin> Stream for HashMapDelay<K, V> {
    type Item = Result<(K, V), String>;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        loop {
            match ready!(self.exp.poll_expired(cx)) {
                Some(e) => {
                    let k = e.into_inner();
                    if let Some((v, _)) = self.entries.remove(&k) {
                        return Poll::Ready(Some(Ok((k, v))));
                    }
                }
                // An empty queue is not the end of the stream.
                None => return Poll::Pending,
            }
        }
    }
}

#[derive(Debug)]
pub struct HashSetDelay<K> {
    inner: HashMapDelay<K, ()>,
}
impl<K> Default for HashSetDelay<K> {
    fn default() -> Self {
        Self { inner: HashMapDelay::default() }
    }
}
impl<K: Eq + Hash + Clone + Unpin> HashSetDelay<K> {
    pub fn new(timeout: Duration) -> Self {
        Self { inner: HashMapDelay::new(timeout) }
    }
    pub fn insert(&mut self, k: K) {
        self.inner.insert(k, ());
    }
    pub fn insert_at(&mut self, k: K, d: Duration) {
        self.inner.insert_at(k, (), d);
    }
    pub fn contains_key<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> bool
    where
        K: Borrow<Q>,
    {
        self.inner.contains_key(k)
    }
    pub fn get<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> Option<&()>
    where
        K: Borrow<Q>,
    {
        self.inner.get(k)
    }
    pub fn remove<Q: ?Sized + Hash + Eq>(&mut self, k: &Q) -> bool
    where
        K: Borrow<Q>,
    {
        self.inner.remove(k).is_some()
    }
    pub fn len(&self) -> usize {
        self.inner.len()
    }
    pub fn is_empty(&self) -> bool {
        self.inner.is_empty()
    }
    pub fn keys(&self) -> impl Iterator<Item = &K> {
        self.inner.keys()
    }
    pub fn iter(&self) -> impl Iterator<Item = &K> {
        self.inner.keys()
    }
    pub fn clear(&mut self) {
        self.inner.clear()
    }
    /// Unlike the stream, this ends while nothing is waiting.
    pub fn poll_expired(&mut self, cx: &mut Context<'_>) -> Poll<Option<Result<K, String>>> {
        if self.is_empty() {
            return Poll::Ready(None);
        }
        Pin::new(self).poll_next(cx)
    }
    pub fn deadline<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> Option<tokio::time::Instant>
    where
        K: Borrow<Q>,
    {
        self.inner.deadline(k)
    }
}
impl<K: Eq + Hash + Clone + Unpin> Stream for HashSetDelay<K> {
    type Item = Result<K, String>;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        Pin::new(&mut self.inner).poll_next(cx).map(|o| o.map(|r| r.map(|(k, _)| k)))
    }
}
