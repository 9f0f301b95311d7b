//! Model of dashmap for symbolic execution: an association list of fixed capacity (no hashing, no shards).
//! Every call is one atomic step, as it is for the real map.  What it still holds at its end is leaked.
use std::cell::UnsafeCell;
use std::mem::{forget, ManuallyDrop};

pub const CAP: usize = 4;

pub struct DashMap<K, V>(ManuallyDrop<UnsafeCell<[Option<(K, V)>; CAP]>>);

unsafe impl<K: Send, V: Send> Send for DashMap<K, V> {}
unsafe impl<K: Sync, V: Sync> Sync for DashMap<K, V> {}

impl<K: Eq, V> DashMap<K, V> {
    pub fn new() -> Self {
        DashMap(ManuallyDrop::new(UnsafeCell::new([None, None, None, None])))
    }
    #[allow(clippy::mut_from_ref)]
    fn slots(&self) -> &mut [Option<(K, V)>; CAP] {
        unsafe { &mut *self.0.get() }
    }
    fn find(&self, k: &K) -> Option<usize> {
        let s = self.slots();
        let mut i = 0;
        while i < CAP {
            if let Some((x, _)) = &s[i] {
                if x == k {
                    return Some(i);
                }
            }
            i += 1;
        }
        None
    }
    pub fn contains_key(&self, k: &K) -> bool {
        self.find(k).is_some()
    }
    pub fn get(&self, k: &K) -> Option<Ref<'_, K, V>> {
        match self.find(k) {
            Some(i) => self.slots()[i].as_ref().map(Ref),
            None => None,
        }
    }
    pub fn insert(&self, k: K, v: V) -> Option<V> {
        if let Some(i) = self.find(&k) {
            return self.slots()[i].replace((k, v)).map(|e| e.1);
        }
        let s = self.slots();
        let mut i = 0;
        while i < CAP {
            if s[i].is_none() {
                forget(std::mem::replace(&mut s[i], Some((k, v))));
                return None;
            }
            i += 1;
        }
        panic!("MODEL-LIMIT: map is full")
    }
    pub fn remove(&self, k: &K) -> Option<(K, V)> {
        self.find(k).and_then(|i| self.slots()[i].take())
    }
    pub fn len(&self) -> usize {
        self.slots().iter().filter(|e| e.is_some()).count()
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn clear(&self) {
        forget(std::mem::replace(self.slots(), [None, None, None, None]));
    }
}

pub struct Ref<'a, K, V>(&'a (K, V));
impl<'a, K, V> Ref<'a, K, V> {
    pub fn key(&self) -> &K {
        &self.0 .0
    }
    pub fn value(&self) -> &V {
        &self.0 .1
    }
}
impl<'a, K, V> std::ops::Deref for Ref<'a, K, V> {
    type Target = V;
    fn deref(&self) -> &V {
        &self.0 .1
    }
}

impl<K: Eq, V> Default for DashMap<K, V> {
    fn default() -> Self {
        Self::new()
    }
}
