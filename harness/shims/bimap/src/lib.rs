use std::{borrow::Borrow, collections::HashMap, hash::Hash};
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct BiHashMap<L: Hash + Eq, R: Hash + Eq> {
    l: HashMap<L, R>,
    r: HashMap<R, L>,
}
pub type BiMap<L, R> = BiHashMap<L, R>;
impl<L: Hash + Eq + Clone, R: Hash + Eq + Clone> Default for BiHashMap<L, R> {
    fn default() -> Self {
        Self::new()
    }
}
impl<L: Hash + Eq + Clone, R: Hash + Eq + Clone> BiHashMap<L, R> {
    pub fn new() -> Self {
        Self { l: HashMap::new(), r: HashMap::new() }
    }
    pub fn insert(&mut self, l: L, r: R) {
        if let Some(old) = self.l.remove(&l) {
            self.r.remove(&old);
        }
        if let Some(old) = self.r.remove(&r) {
            self.l.remove(&old);
        }
        self.l.insert(l.clone(), r.clone());
        self.r.insert(r, l);
    }
    pub fn get_by_left<Q: ?Sized + Hash + Eq>(&self, l: &Q) -> Option<&R>
    where
        L: Borrow<Q>,
    {
        self.l.get(l)
    }
    pub fn get_by_right<Q: ?Sized + Hash + Eq>(&self, r: &Q) -> Option<&L>
    where
        R: Borrow<Q>,
    {
        self.r.get(r)
    }
    pub fn contains_left<Q: ?Sized + Hash + Eq>(&self, l: &Q) -> bool
    where
        L: Borrow<Q>,
    {
        self.l.contains_key(l)
    }
    pub fn contains_right<Q: ?Sized + Hash + Eq>(&self, r: &Q) -> bool
    where
        R: Borrow<Q>,
    {
        self.r.contains_key(r)
    }
    pub fn iter(&self) -> impl Iterator<Item = (&L, &R)> {
        self.l.iter()
    }
    pub fn len(&self) -> usize {
        self.l.len()
    }
    pub fn is_empty(&self) -> bool {
        self.l.is_empty()
    }
}
