//! Stand-in for lru-cache 0.1: a cache holding a limited number of key-value pairs.
use std::borrow::Borrow;
use std::collections::hash_map::RandomState;
use std::collections::{BTreeMap, HashMap};
use std::hash::{BuildHasher, Hash};
use std::rc::Rc;

pub struct LruCache<K: Eq + Hash, V, S: BuildHasher = RandomState> {
    map: HashMap<Key<K>, (u64, V), S>,
    order: BTreeMap<u64, Key<K>>,
    tick: u64,
    max_size: usize,
}

// Shared ownership of the key by the two indexes; never leaves the cache.
struct Key<K>(Rc<K>);
unsafe impl<K: Send, V: Send, S: BuildHasher + Send> Send for LruCache<K, V, S> where K: Eq + Hash {}
unsafe impl<K: Sync, V: Sync, S: BuildHasher + Sync> Sync for LruCache<K, V, S> where K: Eq + Hash {}

impl<K: PartialEq> PartialEq for Key<K> {
    fn eq(&self, o: &Self) -> bool { self.0 == o.0 }
}
impl<K: Eq> Eq for Key<K> {}
impl<K: Hash> Hash for Key<K> {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) { self.0.hash(h) }
}
impl<K> Clone for Key<K> {
    fn clone(&self) -> Self { Key(self.0.clone()) }
}

#[derive(PartialEq, Eq, Hash)]
#[repr(transparent)]
struct Q<T: ?Sized>(T);
impl<T: ?Sized> Q<T> {
    fn wrap(t: &T) -> &Self { unsafe { &*(t as *const T as *const Self) } }
}
impl<K: Borrow<T>, T: ?Sized> Borrow<Q<T>> for Key<K> {
    fn borrow(&self) -> &Q<T> { Q::wrap((*self.0).borrow()) }
}

impl<K: Eq + Hash, V> LruCache<K, V> {
    pub fn new(capacity: usize) -> Self {
        LruCache { map: HashMap::new(), order: BTreeMap::new(), tick: 0, max_size: capacity }
    }
}

impl<K: Eq + Hash, V, S: BuildHasher> LruCache<K, V, S> {
    pub fn with_hasher(capacity: usize, hash_builder: S) -> Self {
        LruCache { map: HashMap::with_hasher(hash_builder), order: BTreeMap::new(), tick: 0, max_size: capacity }
    }
    pub fn contains_key<T: ?Sized + Hash + Eq>(&mut self, key: &T) -> bool where K: Borrow<T> {
        self.map.contains_key(Q::wrap(key))
    }
    pub fn insert(&mut self, k: K, v: V) -> Option<V> {
        self.tick += 1;
        let key = Key(Rc::new(k));
        let old = match self.map.remove(&key) {
            Some((t, v)) => { self.order.remove(&t); Some(v) }
            None => None,
        };
        self.order.insert(self.tick, key.clone());
        self.map.insert(key, (self.tick, v));
        if self.map.len() > self.max_size { self.remove_lru(); }
        old
    }
    pub fn get_mut<T: ?Sized + Hash + Eq>(&mut self, k: &T) -> Option<&mut V> where K: Borrow<T> {
        let tick = self.tick + 1;
        let order = &mut self.order;
        match self.map.get_mut(Q::wrap(k)) {
            Some((t, v)) => {
                if let Some(key) = order.remove(t) { order.insert(tick, key); }
                *t = tick;
                self.tick = tick;
                Some(v)
            }
            None => None,
        }
    }
    pub fn remove<T: ?Sized + Hash + Eq>(&mut self, k: &T) -> Option<V> where K: Borrow<T> {
        self.map.remove(Q::wrap(k)).map(|(t, v)| { self.order.remove(&t); v })
    }
    pub fn capacity(&self) -> usize { self.max_size }
    pub fn set_capacity(&mut self, capacity: usize) {
        while self.map.len() > capacity { self.remove_lru(); }
        self.max_size = capacity;
    }
    pub fn remove_lru(&mut self) -> Option<(K, V)> {
        let t = *self.order.keys().next()?;
        let key = self.order.remove(&t)?;
        let (_, v) = self.map.remove(&key)?;
        Rc::try_unwrap(key.0).ok().map(|k| (k, v))
    }
    pub fn len(&self) -> usize { self.map.len() }
    pub fn is_empty(&self) -> bool { self.map.is_empty() }
    pub fn clear(&mut self) { self.map.clear(); self.order.clear(); }
    pub fn iter(&self) -> impl DoubleEndedIterator<Item = (&K, &V)> {
        let map = &self.map;
        self.order.values().map(move |k| (&*k.0, &map[k].1))
    }
}
