#![allow(static_mut_refs)]
use std::fmt::{Debug, Display, Formatter};
use std::str::FromStr;

/// Random ids are replaced by distinct ids from a counter (collision freedom is assumed).
#[derive(Copy, Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Default)]
pub struct Uuid(pub u128);
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Error;
impl Display for Error { fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result { f.write_str("uuid parse error") } }
impl std::error::Error for Error {}

static mut NEXT: u128 = 0x1000;

impl Uuid {
    pub fn new_v4() -> Uuid { unsafe { NEXT += 1; Uuid(NEXT) } }
    pub const fn nil() -> Uuid { Uuid(0) }
    pub const fn from_u128(v: u128) -> Uuid { Uuid(v) }
    pub const fn as_u128(&self) -> u128 { self.0 }
    pub const fn is_nil(&self) -> bool { self.0 == 0 }
    pub fn as_bytes(&self) -> [u8; 16] { self.0.to_be_bytes() }
    pub fn from_bytes(b: [u8; 16]) -> Uuid { Uuid(u128::from_be_bytes(b)) }
    fn hex(&self) -> [u8; 32] {
        let b = self.0.to_be_bytes();
        let mut out = [0u8; 32];
        let mut i = 0;
        while i < 16 {
            let (h, l) = (b[i] >> 4, b[i] & 15);
            out[2 * i] = if h < 10 { b'0' + h } else { b'a' + h - 10 };
            out[2 * i + 1] = if l < 10 { b'0' + l } else { b'a' + l - 10 };
            i += 1;
        }
        out
    }
    /// cheap path for `id.to_string()`
    pub fn to_string(&self) -> String { unsafe { String::from_utf8_unchecked(self.hex().to_vec()) } }
    pub fn parse_str(s: &str) -> Result<Uuid, Error> {
        let b = s.as_bytes();
        if b.len() != 32 { return Err(Error); }
        let mut v: u128 = 0;
        let mut i = 0;
        while i < 32 {
            let c = b[i];
            let d = if c >= b'0' && c <= b'9' { c - b'0' } else if c >= b'a' && c <= b'f' { c - b'a' + 10 } else { return Err(Error) };
            v = (v << 4) | d as u128;
            i += 1;
        }
        Ok(Uuid(v))
    }
}
impl FromStr for Uuid { type Err = Error; fn from_str(s: &str) -> Result<Uuid, Error> { Uuid::parse_str(s) } }
impl Display for Uuid { fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result { f.write_str(unsafe { std::str::from_utf8_unchecked(&self.hex()) }) } }
impl Debug for Uuid { fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result { Display::fmt(self, f) } }
impl Uuid {
    pub fn as_u64_pair(&self) -> (u64, u64) { ((self.0 >> 64) as u64, self.0 as u64) }
    pub fn from_u64_pair(h: u64, l: u64) -> Uuid { Uuid(((h as u128) << 64) | l as u128) }
    pub fn from_slice(b: &[u8]) -> Result<Uuid, Error> { if b.len() != 16 { return Err(Error); } let mut a = [0u8; 16]; a.copy_from_slice(b); Ok(Uuid::from_bytes(a)) }
    pub fn to_u128_le(&self) -> u128 { self.0.swap_bytes() }
    pub fn into_bytes(self) -> [u8; 16] { self.0.to_be_bytes() }
    pub fn simple(self) -> Uuid { self }
    pub fn hyphenated(self) -> Uuid { self }
    pub fn now_v7() -> Uuid { Uuid::new_v4() }
}
impl From<Uuid> for String { fn from(u: Uuid) -> String { u.to_string() } }
