//! Association lists in place of hash tables: same map semantics; iteration order is insertion
//! order or (after `set_order(true)`) the reverse of it.
pub use std::collections::{BTreeMap, BTreeSet, BinaryHeap, LinkedList, TryReserveError, VecDeque, btree_map, btree_set, vec_deque};
pub use self::map::HashMap;
pub use self::set::HashSet;

pub mod hash_map {
    pub use super::map::*;
    pub use super::hashing::{DefaultHasher, RandomState};
}
/// Hashing as an arbitrary function of what was hashed (and, for `RandomState`, of the instance): the value of
/// every new input is chosen freely, equal inputs give equal values.
pub mod hashing {
    use std::hash::{BuildHasher, Hasher};
    static mut SEEN: Vec<(u64, Vec<u8>, u64)> = Vec::new();
    static mut NEXT: u64 = 0;
    #[derive(Clone, Debug)]
    pub struct DefaultHasher { key: u64, buf: Vec<u8> }
    impl DefaultHasher { pub fn new() -> DefaultHasher { DefaultHasher { key: 0, buf: Vec::new() } } }
    impl Default for DefaultHasher { fn default() -> Self { Self::new() } }
    impl Hasher for DefaultHasher {
        fn write(&mut self, b: &[u8]) { let mut i = 0; while i < b.len() { self.buf.push(b[i]); i += 1; } }
        fn finish(&self) -> u64 {
            unsafe {
                for (k, b, v) in SEEN.iter() { if *k == self.key && b.len() == self.buf.len() && *b == self.buf { return *v; } }
                let v = nd::u64();
                SEEN.push((self.key, self.buf.clone(), v));
                v
            }
        }
    }
    #[derive(Clone, Debug)]
    pub struct RandomState(u64);
    impl RandomState { pub fn new() -> RandomState { unsafe { NEXT += 1; RandomState(NEXT) } } }
    impl Default for RandomState { fn default() -> Self { Self::new() } }
    impl BuildHasher for RandomState { type Hasher = DefaultHasher; fn build_hasher(&self) -> DefaultHasher { DefaultHasher { key: self.0, buf: Vec::new() } } }
}
pub mod hash_set {
    pub use super::set::*;
}

static mut REVERSED: bool = false;
/// Iteration order of every map and set from now on (a harness picks it before building anything).
pub fn set_order(reversed: bool) { unsafe { REVERSED = reversed } }

pub mod map {
    use std::borrow::Borrow;
    use std::fmt::{Debug, Formatter};
    use std::hash::Hash;
    use std::ops::Index;

    pub struct HashMap<K, V, S = ()> { v: Vec<(K, V)>, _s: std::marker::PhantomData<S> }

    impl<K, V> HashMap<K, V> {
        pub fn new() -> Self { Self::default() }
        pub fn with_capacity(_: usize) -> Self { Self::default() }
    }
    impl<K, V, S> Default for HashMap<K, V, S> { fn default() -> Self { HashMap { v: Vec::new(), _s: std::marker::PhantomData } } }

    impl<K, V, S> HashMap<K, V, S> {
        pub fn len(&self) -> usize { self.v.len() }
        pub fn is_empty(&self) -> bool { self.v.is_empty() }
        pub fn capacity(&self) -> usize { self.v.capacity() }
        pub fn clear(&mut self) { self.v.clear() }
        pub fn iter(&self) -> Iter<'_, K, V> { Iter(self.v.iter(), unsafe { super::REVERSED }) }
        pub fn iter_mut(&mut self) -> IterMut<'_, K, V> { IterMut(self.v.iter_mut(), unsafe { super::REVERSED }) }
        pub fn keys(&self) -> Keys<'_, K, V> { Keys(self.iter()) }
        pub fn values(&self) -> Values<'_, K, V> { Values(self.iter()) }
        pub fn values_mut(&mut self) -> ValuesMut<'_, K, V> { ValuesMut(self.iter_mut()) }
        pub fn into_keys(self) -> impl Iterator<Item = K> { self.into_iter().map(|(k, _)| k) }
        pub fn into_values(self) -> impl Iterator<Item = V> { self.into_iter().map(|(_, v)| v) }
        pub fn drain(&mut self) -> IntoIter<K, V> { IntoIter(std::mem::take(&mut self.v).into_iter(), unsafe { super::REVERSED }) }
        pub fn retain<F: FnMut(&K, &mut V) -> bool>(&mut self, mut f: F) { self.v.retain_mut(|(k, v)| f(k, v)) }
    }

    impl<K: Eq + Hash, V, S> HashMap<K, V, S> {
        pub fn reserve(&mut self, _: usize) {}
        pub fn try_reserve(&mut self, _: usize) -> Result<(), std::collections::TryReserveError> { Ok(()) }
        pub fn shrink_to(&mut self, _: usize) {}
        pub fn extract_if<F: FnMut(&K, &mut V) -> bool>(&mut self, mut f: F) -> IntoIter<K, V> { let mut out = Vec::new(); let mut i = 0; while i < self.v.len() { let e = &mut self.v[i]; if f(&e.0, &mut e.1) { out.push(self.v.remove(i)) } else { i += 1 } } IntoIter(out.into_iter(), unsafe { super::REVERSED }) }
        pub fn get_disjoint_mut<Q: ?Sized + Eq + Hash, const N: usize>(&mut self, ks: [&Q; N]) -> [Option<&'_ mut V>; N] where K: Borrow<Q> { let p = self as *mut Self; ks.map(|k| unsafe { (*p).get_mut(k) }) }
        pub fn with_hasher(_: S) -> Self { Self::default() }
        pub fn with_capacity_and_hasher(_: usize, _: S) -> Self { Self::default() }
        pub fn shrink_to_fit(&mut self) {}
        fn find<Q: ?Sized + Eq>(&self, k: &Q) -> Option<usize> where K: Borrow<Q> {
            let mut i = 0;
            while i < self.v.len() { if self.v[i].0.borrow() == k { return Some(i); } i += 1; }
            None
        }
        pub fn get<Q: ?Sized + Eq + Hash>(&self, k: &Q) -> Option<&V> where K: Borrow<Q> { self.find(k).map(|i| &self.v[i].1) }
        pub fn get_key_value<Q: ?Sized + Eq + Hash>(&self, k: &Q) -> Option<(&K, &V)> where K: Borrow<Q> { self.find(k).map(|i| { let e = &self.v[i]; (&e.0, &e.1) }) }
        pub fn get_mut<Q: ?Sized + Eq + Hash>(&mut self, k: &Q) -> Option<&mut V> where K: Borrow<Q> { match self.find(k) { Some(i) => Some(&mut self.v[i].1), None => None } }
        pub fn contains_key<Q: ?Sized + Eq + Hash>(&self, k: &Q) -> bool where K: Borrow<Q> { self.find(k).is_some() }
        pub fn insert(&mut self, k: K, v: V) -> Option<V> {
            match self.find(&k) { Some(i) => Some(std::mem::replace(&mut self.v[i].1, v)), None => { self.v.push((k, v)); None } }
        }
        pub fn remove<Q: ?Sized + Eq + Hash>(&mut self, k: &Q) -> Option<V> where K: Borrow<Q> { self.remove_entry(k).map(|(_, v)| v) }
        pub fn remove_entry<Q: ?Sized + Eq + Hash>(&mut self, k: &Q) -> Option<(K, V)> where K: Borrow<Q> { match self.find(k) { Some(i) => Some(self.v.remove(i)), None => None } }
        pub fn entry(&mut self, k: K) -> Entry<'_, K, V, S> {
            match self.find(&k) { Some(at) => Entry::Occupied(OccupiedEntry { map: self, at, key: k }), None => Entry::Vacant(VacantEntry { map: self, key: k }) }
        }
    }

    pub enum Entry<'a, K, V, S = ()> { Occupied(OccupiedEntry<'a, K, V, S>), Vacant(VacantEntry<'a, K, V, S>) }
    pub struct OccupiedEntry<'a, K, V, S = ()> { map: &'a mut HashMap<K, V, S>, at: usize, key: K }
    pub struct VacantEntry<'a, K, V, S = ()> { map: &'a mut HashMap<K, V, S>, key: K }

    impl<'a, K: Eq + Hash, V, S> Entry<'a, K, V, S> {
        pub fn or_insert(self, v: V) -> &'a mut V { match self { Entry::Occupied(o) => o.into_mut(), Entry::Vacant(e) => e.insert(v) } }
        pub fn or_insert_with<F: FnOnce() -> V>(self, f: F) -> &'a mut V { match self { Entry::Occupied(o) => o.into_mut(), Entry::Vacant(e) => e.insert(f()) } }
        pub fn or_insert_with_key<F: FnOnce(&K) -> V>(self, f: F) -> &'a mut V { match self { Entry::Occupied(o) => o.into_mut(), Entry::Vacant(e) => { let v = f(e.key()); e.insert(v) } } }
        pub fn or_default(self) -> &'a mut V where V: Default { self.or_insert_with(V::default) }
        pub fn and_modify<F: FnOnce(&mut V)>(mut self, f: F) -> Self { if let Entry::Occupied(o) = &mut self { f(o.get_mut()) } self }
        pub fn insert_entry(self, v: V) -> OccupiedEntry<'a, K, V, S> where K: Clone { match self { Entry::Occupied(mut o) => { o.insert(v); o } Entry::Vacant(e) => { let at = e.map.v.len(); e.map.v.push((e.key.clone(), v)); OccupiedEntry { map: e.map, at, key: e.key } } } }
        pub fn key(&self) -> &K { match self { Entry::Occupied(o) => o.key(), Entry::Vacant(e) => e.key() } }
    }
    impl<'a, K, V, S> OccupiedEntry<'a, K, V, S> {
        pub fn key(&self) -> &K { &self.key }
        pub fn get(&self) -> &V { &self.map.v[self.at].1 }
        pub fn get_mut(&mut self) -> &mut V { &mut self.map.v[self.at].1 }
        pub fn into_mut(self) -> &'a mut V { &mut self.map.v[self.at].1 }
        pub fn insert(&mut self, v: V) -> V { std::mem::replace(self.get_mut(), v) }
        pub fn remove(self) -> V { self.remove_entry().1 }
        pub fn remove_entry(self) -> (K, V) { self.map.v.remove(self.at) }
    }
    impl<'a, K: Eq + Hash, V, S> VacantEntry<'a, K, V, S> {
        pub fn key(&self) -> &K { &self.key }
        pub fn into_key(self) -> K { self.key }
        pub fn insert(self, v: V) -> &'a mut V { self.map.v.push((self.key, v)); &mut self.map.v.last_mut().unwrap().1 }
    }

    pub struct Iter<'a, K, V>(std::slice::Iter<'a, (K, V)>, bool);
    impl<'a, K, V> Iterator for Iter<'a, K, V> {
        type Item = (&'a K, &'a V);
        fn next(&mut self) -> Option<Self::Item> { (if self.1 { self.0.next_back() } else { self.0.next() }).map(|e| (&e.0, &e.1)) }
        fn size_hint(&self) -> (usize, Option<usize>) { self.0.size_hint() }
    }
    impl<'a, K, V> Clone for Iter<'a, K, V> { fn clone(&self) -> Self { Iter(self.0.clone(), self.1) } }
    impl<'a, K, V> ExactSizeIterator for Iter<'a, K, V> {}
    pub struct IterMut<'a, K, V>(std::slice::IterMut<'a, (K, V)>, bool);
    impl<'a, K, V> Iterator for IterMut<'a, K, V> {
        type Item = (&'a K, &'a mut V);
        fn next(&mut self) -> Option<Self::Item> { (if self.1 { self.0.next_back() } else { self.0.next() }).map(|e| (&e.0, &mut e.1)) }
        fn size_hint(&self) -> (usize, Option<usize>) { self.0.size_hint() }
    }
    impl<'a, K, V> ExactSizeIterator for IterMut<'a, K, V> {}
    pub struct Keys<'a, K, V>(Iter<'a, K, V>);
    impl<'a, K, V> Iterator for Keys<'a, K, V> { type Item = &'a K; fn next(&mut self) -> Option<&'a K> { self.0.next().map(|(k, _)| k) } fn size_hint(&self) -> (usize, Option<usize>) { self.0.size_hint() } }
    impl<'a, K, V> ExactSizeIterator for Keys<'a, K, V> {}
    impl<'a, K, V> Clone for Keys<'a, K, V> { fn clone(&self) -> Self { Keys(self.0.clone()) } }
    pub struct Values<'a, K, V>(Iter<'a, K, V>);
    impl<'a, K, V> Iterator for Values<'a, K, V> { type Item = &'a V; fn next(&mut self) -> Option<&'a V> { self.0.next().map(|(_, v)| v) } fn size_hint(&self) -> (usize, Option<usize>) { self.0.size_hint() } }
    impl<'a, K, V> ExactSizeIterator for Values<'a, K, V> {}
    impl<'a, K, V> Clone for Values<'a, K, V> { fn clone(&self) -> Self { Values(self.0.clone()) } }
    pub struct ValuesMut<'a, K, V>(IterMut<'a, K, V>);
    impl<'a, K, V> Iterator for ValuesMut<'a, K, V> { type Item = &'a mut V; fn next(&mut self) -> Option<&'a mut V> { self.0.next().map(|(_, v)| v) } fn size_hint(&self) -> (usize, Option<usize>) { self.0.size_hint() } }
    impl<'a, K, V> ExactSizeIterator for ValuesMut<'a, K, V> {}
    pub struct IntoIter<K, V>(std::vec::IntoIter<(K, V)>, bool);
    impl<K, V> Iterator for IntoIter<K, V> {
        type Item = (K, V);
        fn next(&mut self) -> Option<(K, V)> { if self.1 { self.0.next_back() } else { self.0.next() } }
        fn size_hint(&self) -> (usize, Option<usize>) { self.0.size_hint() }
    }
    impl<K, V> ExactSizeIterator for IntoIter<K, V> {}
    pub type Drain<'a, K, V> = IntoIter<K, V>;

    impl<K, V, S> IntoIterator for HashMap<K, V, S> {
        type Item = (K, V); type IntoIter = IntoIter<K, V>;
        fn into_iter(self) -> IntoIter<K, V> { IntoIter(self.v.into_iter(), unsafe { super::REVERSED }) }
    }
    impl<'a, K, V, S> IntoIterator for &'a HashMap<K, V, S> { type Item = (&'a K, &'a V); type IntoIter = Iter<'a, K, V>; fn into_iter(self) -> Iter<'a, K, V> { self.iter() } }
    impl<'a, K, V, S> IntoIterator for &'a mut HashMap<K, V, S> { type Item = (&'a K, &'a mut V); type IntoIter = IterMut<'a, K, V>; fn into_iter(self) -> IterMut<'a, K, V> { self.iter_mut() } }
    impl<K: Eq + Hash, V, S> Extend<(K, V)> for HashMap<K, V, S> {
        fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, it: I) { for (k, v) in it { self.insert(k, v); } }
    }
    impl<K: Eq + Hash, V, S> FromIterator<(K, V)> for HashMap<K, V, S> {
        fn from_iter<I: IntoIterator<Item = (K, V)>>(it: I) -> Self { let mut m = Self::default(); m.extend(it); m }
    }
    impl<K: Eq + Hash, V, const M: usize> From<[(K, V); M]> for HashMap<K, V> { fn from(a: [(K, V); M]) -> Self { a.into_iter().collect() } }
    impl<K: Clone, V: Clone, S> Clone for HashMap<K, V, S> { fn clone(&self) -> Self { HashMap { v: self.v.clone(), _s: std::marker::PhantomData } } }
    impl<K: Debug, V: Debug, S> Debug for HashMap<K, V, S> { fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result { f.debug_map().entries(self.iter()).finish() } }
    impl<K: Eq + Hash, V: PartialEq, S> PartialEq for HashMap<K, V, S> {
        fn eq(&self, o: &Self) -> bool { self.len() == o.len() && self.iter().all(|(k, v)| o.get(k).map_or(false, |w| v == w)) }
    }
    impl<K: Eq + Hash, V: Eq, S> Eq for HashMap<K, V, S> {}
    impl<K: Eq + Hash + Borrow<Q>, Q: ?Sized + Eq + Hash, V, S> Index<&Q> for HashMap<K, V, S> { type Output = V; fn index(&self, k: &Q) -> &V { self.get(k).expect("no entry found for key") } }
}

pub mod set {
    use super::map::{self, HashMap};
    use std::borrow::Borrow;
    use std::fmt::{Debug, Formatter};
    use std::hash::Hash;

    pub struct HashSet<T, S = ()>(HashMap<T, (), S>);
    impl<T> HashSet<T> {
        pub fn new() -> Self { HashSet(HashMap::new()) }
        pub fn with_capacity(_: usize) -> Self { Self::new() }
    }
    impl<T, S> Default for HashSet<T, S> { fn default() -> Self { HashSet(HashMap::default()) } }
    impl<T, S> HashSet<T, S> {
        pub fn len(&self) -> usize { self.0.len() }
        pub fn is_empty(&self) -> bool { self.0.is_empty() }
        pub fn clear(&mut self) { self.0.clear() }
        pub fn iter(&self) -> map::Keys<'_, T, ()> { self.0.keys() }
        pub fn drain(&mut self) -> IntoIter<T> { IntoIter(self.0.drain()) }
        pub fn retain<F: FnMut(&T) -> bool>(&mut self, mut f: F) { self.0.retain(|k, _| f(k)) }
    }
    pub type Iter<'a, T> = map::Keys<'a, T, ()>;
    impl<T: Eq + Hash, S> HashSet<T, S> {
        pub fn reserve(&mut self, _: usize) {}
        pub fn shrink_to_fit(&mut self) {}
        pub fn capacity(&self) -> usize { self.0.capacity() }
        pub fn extract_if<F: FnMut(&T) -> bool>(&mut self, mut f: F) -> IntoIter<T> { IntoIter(self.0.extract_if(|k, _| f(k))) }
        pub fn symmetric_difference<'a>(&'a self, o: &'a Self) -> impl Iterator<Item = &'a T> + 'a { self.difference(o).chain(o.difference(self)) }
        pub fn insert(&mut self, v: T) -> bool { self.0.insert_if_absent(v) }
        pub fn contains<Q: ?Sized + Eq + Hash>(&self, v: &Q) -> bool where T: Borrow<Q> { self.0.contains_key(v) }
        pub fn get<Q: ?Sized + Eq + Hash>(&self, v: &Q) -> Option<&T> where T: Borrow<Q> { self.0.get_key_value(v).map(|(k, _)| k) }
        pub fn remove<Q: ?Sized + Eq + Hash>(&mut self, v: &Q) -> bool where T: Borrow<Q> { self.0.remove(v).is_some() }
        pub fn take<Q: ?Sized + Eq + Hash>(&mut self, v: &Q) -> Option<T> where T: Borrow<Q> { self.0.remove_entry(v).map(|(k, _)| k) }
        pub fn replace(&mut self, v: T) -> Option<T> { let old = self.0.remove_entry(&v).map(|(k, _)| k); self.0.insert(v, ()); old }
        pub fn is_subset(&self, o: &Self) -> bool { self.iter().all(|x| o.contains(x)) }
        pub fn is_superset(&self, o: &Self) -> bool { o.is_subset(self) }
        pub fn is_disjoint(&self, o: &Self) -> bool { !self.iter().any(|x| o.contains(x)) }
        pub fn difference<'a>(&'a self, o: &'a Self) -> impl Iterator<Item = &'a T> + 'a { self.iter().filter(move |x| !o.contains(*x)) }
        pub fn intersection<'a>(&'a self, o: &'a Self) -> impl Iterator<Item = &'a T> + 'a { self.iter().filter(move |x| o.contains(*x)) }
        pub fn union<'a>(&'a self, o: &'a Self) -> impl Iterator<Item = &'a T> + 'a { self.iter().chain(o.difference(self)) }
    }
    impl<T: Eq + Hash, S> HashMap<T, (), S> {
        fn insert_if_absent(&mut self, v: T) -> bool { if self.contains_key(&v) { false } else { self.insert(v, ()); true } }
    }
    impl<T: Eq + Hash + Clone, S> std::ops::Sub<&HashSet<T, S>> for &HashSet<T, S> { type Output = HashSet<T, S>; fn sub(self, o: &HashSet<T, S>) -> HashSet<T, S> { self.difference(o).cloned().collect() } }
    impl<T: Eq + Hash + Clone, S> std::ops::BitOr<&HashSet<T, S>> for &HashSet<T, S> { type Output = HashSet<T, S>; fn bitor(self, o: &HashSet<T, S>) -> HashSet<T, S> { self.union(o).cloned().collect() } }
    impl<T: Eq + Hash + Clone, S> std::ops::BitAnd<&HashSet<T, S>> for &HashSet<T, S> { type Output = HashSet<T, S>; fn bitand(self, o: &HashSet<T, S>) -> HashSet<T, S> { self.intersection(o).cloned().collect() } }
    impl<T: Eq + Hash + Clone, S> std::ops::BitXor<&HashSet<T, S>> for &HashSet<T, S> { type Output = HashSet<T, S>; fn bitxor(self, o: &HashSet<T, S>) -> HashSet<T, S> { self.symmetric_difference(o).cloned().collect() } }
    pub struct IntoIter<T>(map::IntoIter<T, ()>);
    impl<T> Iterator for IntoIter<T> { type Item = T; fn next(&mut self) -> Option<T> { self.0.next().map(|(k, _)| k) } }
    impl<T> ExactSizeIterator for IntoIter<T> { fn len(&self) -> usize { self.0.len() } }
    impl<T, S> IntoIterator for HashSet<T, S> { type Item = T; type IntoIter = IntoIter<T>; fn into_iter(self) -> IntoIter<T> { IntoIter(self.0.into_iter()) } }
    impl<'a, T, S> IntoIterator for &'a HashSet<T, S> { type Item = &'a T; type IntoIter = map::Keys<'a, T, ()>; fn into_iter(self) -> map::Keys<'a, T, ()> { self.iter() } }
    impl<T: Eq + Hash, S> Extend<T> for HashSet<T, S> { fn extend<I: IntoIterator<Item = T>>(&mut self, it: I) { for v in it { self.insert(v); } } }
    impl<'a, T: Eq + Hash + Copy + 'a, S> Extend<&'a T> for HashSet<T, S> { fn extend<I: IntoIterator<Item = &'a T>>(&mut self, it: I) { for v in it { self.insert(*v); } } }
    impl<T: Eq + Hash, S> FromIterator<T> for HashSet<T, S> { fn from_iter<I: IntoIterator<Item = T>>(it: I) -> Self { let mut m = Self::default(); m.extend(it); m } }
    impl<T: Eq + Hash, const M: usize> From<[T; M]> for HashSet<T> { fn from(a: [T; M]) -> Self { a.into_iter().collect() } }
    impl<T: Clone, S> Clone for HashSet<T, S> { fn clone(&self) -> Self { HashSet(self.0.clone()) } }
    impl<T: Debug, S> Debug for HashSet<T, S> { fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result { f.debug_set().entries(self.iter()).finish() } }
    impl<T: Eq + Hash, S> PartialEq for HashSet<T, S> { fn eq(&self, o: &Self) -> bool { self.len() == o.len() && self.is_subset(o) } }
    impl<T: Eq + Hash, S> Eq for HashSet<T, S> {}
}

