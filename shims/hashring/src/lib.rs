//! A consistent-hash ring abstracted to: the owner of a key is a function of the SET of ring
//! members and the key (members ordered by their hash; the key picks one).
use std::hash::{Hash, Hasher};
pub struct Fnv(u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for x in b { self.0 = (self.0 ^ *x as u64).rotate_left(5); } }
    fn write_u64(&mut self, v: u64) { self.0 = self.0.rotate_left(7) ^ v; }
    fn write_u32(&mut self, v: u32) { self.write_u64(v as u64) }
    fn write_u8(&mut self, v: u8) { self.write_u64(v as u64) }
    fn write_usize(&mut self, v: usize) { self.write_u64(v as u64) }
    fn write_i64(&mut self, v: i64) { self.write_u64(v as u64) }
}
fn h<T: Hash + ?Sized>(t: &T) -> u64 { let mut f = Fnv(7); t.hash(&mut f); f.finish() }
pub struct HashRing<T> { nodes: Vec<(u64, T)> }
impl<T: Hash> HashRing<T> {
    pub fn new() -> Self { HashRing { nodes: Vec::new() } }
    pub fn len(&self) -> usize { self.nodes.len() }
    pub fn is_empty(&self) -> bool { self.nodes.is_empty() }
    pub fn add(&mut self, t: T) {
        let k = h(&t);
        self.nodes.push((k, t));
        let mut i = self.nodes.len() - 1;
        while i > 0 && self.nodes[i - 1].0 > self.nodes[i].0 { self.nodes.swap(i - 1, i); i -= 1; }
    }
    pub fn batch_add(&mut self, v: Vec<T>) { for t in v { self.add(t) } }
    pub fn remove(&mut self, t: &T) -> Option<T> {
        let k = h(t);
        let mut i = 0;
        while i < self.nodes.len() {
            if self.nodes[i].0 == k { return Some(self.nodes.remove(i).1); }
            i += 1;
        }
        None
    }
    pub fn get<U: Hash + ?Sized>(&self, key: &U) -> Option<&T> {
        let k = h(key);
        if self.nodes.is_empty() { return None; }
        let mut i = 0;
        while i < self.nodes.len() {
            if self.nodes[i].0 >= k { return Some(&self.nodes[i].1); }
            i += 1;
        }
        Some(&self.nodes[0].1)
    }
}
impl<T: Hash> Default for HashRing<T> { fn default() -> Self { Self::new() } }
