use std::ops::{Deref, DerefMut};
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct Bytes(pub Vec<u8>);
impl Bytes { pub fn new() -> Self { Bytes(vec![]) } pub fn copy_from_slice(s: &[u8]) -> Self { Bytes(s.to_vec()) } pub fn to_vec(&self) -> Vec<u8> { self.0.clone() } pub fn len(&self) -> usize { self.0.len() } }
impl From<Vec<u8>> for Bytes { fn from(v: Vec<u8>) -> Self { Bytes(v) } }
impl From<Bytes> for Vec<u8> { fn from(v: Bytes) -> Self { v.0 } }
impl Deref for Bytes { type Target = [u8]; fn deref(&self) -> &[u8] { &self.0 } }
impl AsRef<[u8]> for Bytes { fn as_ref(&self) -> &[u8] { &self.0 } }
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct BytesMut(pub Vec<u8>);
impl BytesMut { pub fn new() -> Self { BytesMut(vec![]) } pub fn to_vec(&self) -> Vec<u8> { self.0.clone() } pub fn freeze(self) -> Bytes { Bytes(self.0) } pub fn len(&self) -> usize { self.0.len() } pub fn extend_from_slice(&mut self, s: &[u8]) { self.0.extend_from_slice(s) } }
impl Deref for BytesMut { type Target = [u8]; fn deref(&self) -> &[u8] { &self.0 } }
impl DerefMut for BytesMut { fn deref_mut(&mut self) -> &mut [u8] { &mut self.0 } }
impl AsRef<[u8]> for BytesMut { fn as_ref(&self) -> &[u8] { &self.0 } }
impl From<&'static [u8]> for Bytes { fn from(v: &'static [u8]) -> Self { Bytes(v.to_vec()) } }
impl From<&'static str> for Bytes { fn from(v: &'static str) -> Self { Bytes(v.as_bytes().to_vec()) } }
impl From<String> for Bytes { fn from(v: String) -> Self { Bytes(v.into_bytes()) } }
impl From<BytesMut> for Bytes { fn from(v: BytesMut) -> Self { Bytes(v.0) } }
impl From<BytesMut> for Vec<u8> { fn from(v: BytesMut) -> Self { v.0 } }
impl Bytes { pub fn from_static(s: &'static [u8]) -> Self { Bytes(s.to_vec()) } }
impl BytesMut { pub fn with_capacity(n: usize) -> Self { BytesMut(Vec::with_capacity(n)) } }
impl PartialEq<[u8]> for Bytes { fn eq(&self, o: &[u8]) -> bool { self.0 == o } }
impl IntoIterator for Bytes { type Item = u8; type IntoIter = std::vec::IntoIter<u8>; fn into_iter(self) -> Self::IntoIter { self.0.into_iter() } }
impl Bytes {
    pub const fn new_const() -> Self { Bytes(Vec::new()) }
    pub fn slice(&self, r: impl std::ops::RangeBounds<usize>) -> Bytes { use std::ops::Bound::*; let a = match r.start_bound() { Included(x) => *x, Excluded(x) => *x + 1, Unbounded => 0 }; let b = match r.end_bound() { Included(x) => *x + 1, Excluded(x) => *x, Unbounded => self.0.len() }; Bytes(self.0[a..b].to_vec()) }
    pub fn split_to(&mut self, n: usize) -> Bytes { let t = self.0.split_off(n); Bytes(std::mem::replace(&mut self.0, t)) }
    pub fn split_off(&mut self, n: usize) -> Bytes { Bytes(self.0.split_off(n)) }
    pub fn truncate(&mut self, n: usize) { self.0.truncate(n) }
    pub fn clear(&mut self) { self.0.clear() }
    pub fn is_empty(&self) -> bool { self.0.is_empty() }
}
impl BytesMut {
    pub fn is_empty(&self) -> bool { self.0.is_empty() }
    pub fn capacity(&self) -> usize { self.0.capacity() }
    pub fn reserve(&mut self, n: usize) { self.0.reserve(n) }
    pub fn clear(&mut self) { self.0.clear() }
    pub fn truncate(&mut self, n: usize) { self.0.truncate(n) }
    pub fn resize(&mut self, n: usize, v: u8) { self.0.resize(n, v) }
    pub fn split_to(&mut self, n: usize) -> BytesMut { let t = self.0.split_off(n); BytesMut(std::mem::replace(&mut self.0, t)) }
    pub fn split_off(&mut self, n: usize) -> BytesMut { BytesMut(self.0.split_off(n)) }
    pub fn split(&mut self) -> BytesMut { BytesMut(std::mem::take(&mut self.0)) }
    pub fn zeroed(n: usize) -> BytesMut { BytesMut(vec![0; n]) }
    pub fn unsplit(&mut self, o: BytesMut) { self.0.extend(o.0) }
}
impl From<&[u8]> for BytesMut { fn from(v: &[u8]) -> Self { BytesMut(v.to_vec()) } }
impl From<&str> for BytesMut { fn from(v: &str) -> Self { BytesMut(v.as_bytes().to_vec()) } }
impl AsMut<[u8]> for BytesMut { fn as_mut(&mut self) -> &mut [u8] { &mut self.0 } }
impl std::borrow::Borrow<[u8]> for Bytes { fn borrow(&self) -> &[u8] { &self.0 } }
impl Extend<u8> for BytesMut { fn extend<I: IntoIterator<Item = u8>>(&mut self, i: I) { self.0.extend(i) } }
impl PartialEq<Vec<u8>> for Bytes { fn eq(&self, o: &Vec<u8>) -> bool { &self.0 == o } }
impl PartialOrd for Bytes { fn partial_cmp(&self, o: &Bytes) -> Option<std::cmp::Ordering> { self.0.partial_cmp(&o.0) } }
impl Ord for Bytes { fn cmp(&self, o: &Bytes) -> std::cmp::Ordering { self.0.cmp(&o.0) } }
impl std::io::Write for BytesMut { fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { self.0.extend_from_slice(b); Ok(b.len()) } fn flush(&mut self) -> std::io::Result<()> { Ok(()) } }
macro_rules! getput { ($($g:ident $p:ident $t:ty, $gl:ident $pl:ident);*) => {
pub trait Buf {
    fn remaining(&self) -> usize;
    fn chunk(&self) -> &[u8];
    fn advance(&mut self, n: usize);
    fn has_remaining(&self) -> bool { self.remaining() > 0 }
    fn copy_to_slice(&mut self, d: &mut [u8]) { assert!(self.remaining() >= d.len(), "buffer too short"); let n = d.len(); d.copy_from_slice(&self.chunk()[..n]); self.advance(n) }
    fn copy_to_bytes(&mut self, n: usize) -> Bytes { let b = Bytes(self.chunk()[..n].to_vec()); self.advance(n); b }
    $( fn $g(&mut self) -> $t { let mut a = [0u8; std::mem::size_of::<$t>()]; self.copy_to_slice(&mut a); <$t>::from_be_bytes(a) }
       fn $gl(&mut self) -> $t { let mut a = [0u8; std::mem::size_of::<$t>()]; self.copy_to_slice(&mut a); <$t>::from_le_bytes(a) } )*
}
pub trait BufMut {
    fn put_slice(&mut self, s: &[u8]);
    fn put<B: Buf>(&mut self, mut b: B) where Self: Sized { let n = b.remaining(); self.put_slice(&b.chunk()[..n]); b.advance(n) }
    fn put_bytes(&mut self, v: u8, n: usize) { for _ in 0..n { self.put_slice(&[v]) } }
    $( fn $p(&mut self, v: $t) { self.put_slice(&v.to_be_bytes()) }
       fn $pl(&mut self, v: $t) { self.put_slice(&v.to_le_bytes()) } )*
}
} }
getput!(get_u8 put_u8 u8, get_u8_le put_u8_le; get_i8 put_i8 i8, get_i8_le put_i8_le; get_u16 put_u16 u16, get_u16_le put_u16_le; get_u32 put_u32 u32, get_u32_le put_u32_le; get_u64 put_u64 u64, get_u64_le put_u64_le; get_i32 put_i32 i32, get_i32_le put_i32_le; get_i64 put_i64 i64, get_i64_le put_i64_le);
impl Buf for Bytes { fn remaining(&self) -> usize { self.0.len() } fn chunk(&self) -> &[u8] { &self.0 } fn advance(&mut self, n: usize) { self.0.drain(..n); } }
impl Buf for BytesMut { fn remaining(&self) -> usize { self.0.len() } fn chunk(&self) -> &[u8] { &self.0 } fn advance(&mut self, n: usize) { self.0.drain(..n); } }
impl Buf for &[u8] { fn remaining(&self) -> usize { self.len() } fn chunk(&self) -> &[u8] { self } fn advance(&mut self, n: usize) { *self = &self[n..] } }
impl BufMut for BytesMut { fn put_slice(&mut self, s: &[u8]) { self.0.extend_from_slice(s) } }
impl BufMut for Vec<u8> { fn put_slice(&mut self, s: &[u8]) { self.extend_from_slice(s) } }
