#![allow(static_mut_refs)]
//! protobuf runtime abstracted to a lossless codec: encoding stores the message in an arena and
//! yields a 4-byte handle; decoding a handle as the same type yields an equal message, decoding it
//! as another type goes field by field through the repository's generated code, decoding bytes
//! that are no handle fails (an empty buffer is the default message, as in proto3).
use std::any::Any;
use std::fmt::{Debug, Display, Formatter};
use std::marker::PhantomData;
use std::ops::{Deref, DerefMut};

pub const VERSION_3_2_0: () = ();
#[derive(Debug)]
pub struct Error;
impl Display for Error { fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result { f.write_str("protobuf error") } }
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;

pub const MAGIC: u8 = 0xA7;
pub static mut ARENA: Vec<Box<dyn Stored>> = Vec::new();

pub trait Stored { fn any(&self) -> &dyn Any; fn tokens(&self) -> Vec<Token>; }
impl<M: Message> Stored for M {
    fn any(&self) -> &dyn Any { self }
    fn tokens(&self) -> Vec<Token> { let mut os = CodedOutputStream { out: Vec::new(), _p: PhantomData }; let _ = self.write_to_with_cached_sizes(&mut os); os.out }
}

pub trait Message: Default + Clone + Debug + 'static + Send + Sync {
    const NAME: &'static str;
    fn is_initialized(&self) -> bool;
    fn merge_from(&mut self, is: &mut CodedInputStream<'_>) -> Result<()>;
    fn compute_size(&self) -> u64;
    fn write_to_with_cached_sizes(&self, os: &mut CodedOutputStream<'_>) -> Result<()>;
    fn special_fields(&self) -> &SpecialFields;
    fn mut_special_fields(&mut self) -> &mut SpecialFields;
    fn new() -> Self;
    fn clear(&mut self);
    fn default_instance() -> &'static Self;

    fn parse_from_bytes(bytes: &[u8]) -> Result<Self> {
        if bytes.is_empty() { return Ok(Self::default()); }
        if bytes.len() != 4 || bytes[0] != MAGIC || bytes[3] != (bytes[1] ^ bytes[2] ^ 0x5a) { return Err(Error); }
        let at = bytes[1] as usize | (bytes[2] as usize) << 8;
        unsafe {
            let mut i = 0;
            while i < ARENA.len() {
                if i == at {
                    return match ARENA[i].any().downcast_ref::<Self>() {
                        Some(m) => Ok(m.clone()),
                        None => {
                            let mut is = CodedInputStream { toks: ARENA[i].tokens().into_iter(), cur: None, _p: PhantomData };
                            let mut m = Self::default();
                            m.merge_from(&mut is)?;
                            Ok(m)
                        }
                    };
                }
                i += 1;
            }
        }
        Err(Error)
    }
    fn write_to_bytes(&self) -> Result<Vec<u8>> {
        unsafe {
            let n = ARENA.len();
            assert!(n < 65536, "the arena is full");
            let (i, j) = (n as u8, (n >> 8) as u8);
            ARENA.push(Box::new(self.clone()));
            let mut v = Vec::with_capacity(8);
            v.push(MAGIC); v.push(i); v.push(j); v.push(i ^ j ^ 0x5a);
            Ok(v)
        }
    }
}
pub trait Enum: Copy + Eq + Default + Debug + Send + Sync + 'static {
    const NAME: &'static str;
    const VALUES: &'static [Self];
    fn value(&self) -> i32;
    fn from_i32(v: i32) -> Option<Self>;
    fn from_str(_s: &str) -> Option<Self> { None }
}

#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct UnknownFields;
#[derive(Debug, Default, PartialEq, Eq, Hash)]
pub struct CachedSize;
impl Clone for CachedSize { fn clone(&self) -> Self { CachedSize } }
impl CachedSize { pub fn set(&self, _: u32) {} pub fn get(&self) -> u32 { 0 } }
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct SpecialFields { u: UnknownFields, c: CachedSize }
impl SpecialFields {
    pub const fn new() -> Self { SpecialFields { u: UnknownFields, c: CachedSize } }
    pub fn unknown_fields(&self) -> &UnknownFields { &self.u }
    pub fn mut_unknown_fields(&mut self) -> &mut UnknownFields { &mut self.u }
    pub fn cached_size(&self) -> &CachedSize { &self.c }
    pub fn clear(&mut self) {}
}

#[derive(Eq, PartialEq)]
pub struct EnumOrUnknown<E: Enum> { v: i32, _e: PhantomData<E> }
impl<E: Enum> Clone for EnumOrUnknown<E> { fn clone(&self) -> Self { *self } }
impl<E: Enum> Copy for EnumOrUnknown<E> {}
impl<E: Enum> Debug for EnumOrUnknown<E> { fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result { write!(f, "{}", self.v) } }
impl<E: Enum> EnumOrUnknown<E> {
    pub fn new(e: E) -> Self { Self::from_i32(e.value()) }
    pub const fn from_i32(v: i32) -> Self { EnumOrUnknown { v, _e: PhantomData } }
    pub fn value(&self) -> i32 { self.v }
    pub fn enum_value(&self) -> std::result::Result<E, i32> { E::from_i32(self.v).ok_or(self.v) }
    pub fn enum_value_or(&self, d: E) -> E { E::from_i32(self.v).unwrap_or(d) }
    pub fn enum_value_or_default(&self) -> E { E::from_i32(self.v).unwrap_or_default() }
    pub fn unwrap(&self) -> E { self.enum_value().map_err(|_| ()).expect("unknown enum value") }
}
impl<E: Enum> From<E> for EnumOrUnknown<E> { fn from(e: E) -> Self { Self::new(e) } }
impl<E: Enum> Default for EnumOrUnknown<E> { fn default() -> Self { Self::new(E::default()) } }

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct MessageField<T>(pub Option<Box<T>>);
impl<T> MessageField<T> {
    pub fn some(t: T) -> Self { MessageField(Some(Box::new(t))) }
    pub const fn none() -> Self { MessageField(None) }
    pub fn from_option(o: Option<T>) -> Self { MessageField(o.map(Box::new)) }
    pub fn is_some(&self) -> bool { self.0.is_some() }
    pub fn is_none(&self) -> bool { self.0.is_none() }
    pub fn into_option(self) -> Option<T> { self.0.map(|b| *b) }
    pub fn as_ref(&self) -> Option<&T> { self.0.as_ref().map(|b| &**b) }
    pub fn as_mut(&mut self) -> Option<&mut T> { self.0.as_mut().map(|b| &mut **b) }
    pub fn unwrap(self) -> T { *self.0.unwrap() }
    pub fn unwrap_or_else<F: FnOnce() -> T>(self, f: F) -> T { self.into_option().unwrap_or_else(f) }
    pub fn unwrap_or(self, d: T) -> T { self.into_option().unwrap_or(d) }
    pub fn map<U, F: FnOnce(T) -> U>(self, f: F) -> MessageField<U> { MessageField::from_option(self.into_option().map(f)) }
    pub fn map_or<U, F: FnOnce(T) -> U>(self, d: U, f: F) -> U { self.into_option().map_or(d, f) }
    pub fn map_or_else<U, D: FnOnce() -> U, F: FnOnce(T) -> U>(self, d: D, f: F) -> U { self.into_option().map_or_else(d, f) }
    pub fn take(&mut self) -> Option<T> { self.0.take().map(|b| *b) }
    pub fn clear(&mut self) { self.0 = None }
    pub fn ok_or<E>(self, e: E) -> std::result::Result<T, E> { self.into_option().ok_or(e) }
    pub fn iter(&self) -> std::option::IntoIter<&T> { self.as_ref().into_iter() }
}
impl<T: Message> MessageField<T> {
    pub fn get_or_default(&self) -> &T { self.as_ref().unwrap_or_else(|| T::default_instance()) }
    pub fn mut_or_insert_default(&mut self) -> &mut T { self.0.get_or_insert_with(|| Box::new(T::default())) }
    pub fn unwrap_or_default(self) -> T { self.into_option().unwrap_or_default() }
}
impl<T: Message> Deref for MessageField<T> { type Target = T; fn deref(&self) -> &T { self.get_or_default() } }
impl<T: Message> DerefMut for MessageField<T> { fn deref_mut(&mut self) -> &mut T { self.mut_or_insert_default() } }
impl<T> Default for MessageField<T> { fn default() -> Self { MessageField(None) } }
impl<T> From<Option<T>> for MessageField<T> { fn from(o: Option<T>) -> Self { Self::from_option(o) } }

#[derive(Clone, Debug)]
pub enum Token { Num(u32, u64), Str(u32, String), Bytes(u32, Vec<u8>), Msg(u32, Vec<Token>), Raw(u32) }
pub struct CodedOutputStream<'a> { out: Vec<Token>, _p: PhantomData<&'a ()> }
impl<'a> CodedOutputStream<'a> {
    fn num(&mut self, f: u32, v: u64) -> Result<()> { self.out.push(Token::Num(f << 3, v)); Ok(()) }
    pub fn write_uint32(&mut self, f: u32, v: u32) -> Result<()> { self.num(f, v as u64) }
    pub fn write_uint64(&mut self, f: u32, v: u64) -> Result<()> { self.num(f, v) }
    pub fn write_int32(&mut self, f: u32, v: i32) -> Result<()> { self.num(f, v as i64 as u64) }
    pub fn write_int64(&mut self, f: u32, v: i64) -> Result<()> { self.num(f, v as u64) }
    pub fn write_bool(&mut self, f: u32, v: bool) -> Result<()> { self.num(f, v as u64) }
    pub fn write_enum(&mut self, f: u32, v: i32) -> Result<()> { self.num(f, v as i64 as u64) }
    pub fn write_string(&mut self, f: u32, v: &str) -> Result<()> { self.out.push(Token::Str((f << 3) | 2, v.to_string())); Ok(()) }
    pub fn write_bytes(&mut self, f: u32, v: &[u8]) -> Result<()> { self.out.push(Token::Bytes((f << 3) | 2, v.to_vec())); Ok(()) }
    pub fn write_raw_varint32(&mut self, v: u32) -> Result<()> { self.out.push(Token::Raw(v)); Ok(()) }
    pub fn write_unknown_fields(&mut self, _: &UnknownFields) -> Result<()> { Ok(()) }
}
pub struct CodedInputStream<'a> { toks: std::vec::IntoIter<Token>, cur: Option<Token>, _p: PhantomData<&'a ()> }
impl<'a> CodedInputStream<'a> {
    pub fn read_raw_tag_or_eof(&mut self) -> Result<Option<u32>> {
        self.cur = self.toks.next();
        Ok(match &self.cur { None => None, Some(Token::Num(t, _)) | Some(Token::Str(t, _)) | Some(Token::Bytes(t, _)) | Some(Token::Msg(t, _)) | Some(Token::Raw(t)) => Some(*t) })
    }
    fn num(&mut self) -> Result<u64> { match self.cur.take() { Some(Token::Num(_, v)) => Ok(v), _ => Err(Error) } }
    pub fn read_uint32(&mut self) -> Result<u32> { self.num().map(|v| v as u32) }
    pub fn read_uint64(&mut self) -> Result<u64> { self.num() }
    pub fn read_int32(&mut self) -> Result<i32> { self.num().map(|v| v as i32) }
    pub fn read_int64(&mut self) -> Result<i64> { self.num().map(|v| v as i64) }
    pub fn read_bool(&mut self) -> Result<bool> { self.num().map(|v| v != 0) }
    pub fn read_enum_or_unknown<E: Enum>(&mut self) -> Result<EnumOrUnknown<E>> { self.num().map(|v| EnumOrUnknown::from_i32(v as i32)) }
    pub fn read_string(&mut self) -> Result<String> { match self.cur.take() { Some(Token::Str(_, v)) => Ok(v), Some(Token::Bytes(_, v)) => String::from_utf8(v).map_err(|_| Error), _ => Err(Error) } }
    pub fn read_bytes(&mut self) -> Result<Vec<u8>> { match self.cur.take() { Some(Token::Bytes(_, v)) => Ok(v), Some(Token::Str(_, v)) => Ok(v.into_bytes()), _ => Err(Error) } }
    pub fn read_message<M: Message>(&mut self) -> Result<M> {
        match self.cur.take() {
            Some(Token::Msg(_, t)) => { let mut is = CodedInputStream { toks: t.into_iter(), cur: None, _p: PhantomData }; let mut m = M::default(); m.merge_from(&mut is)?; Ok(m) }
            _ => Err(Error),
        }
    }
    pub fn read_raw_varint32(&mut self) -> Result<u32> { Err(Error) }
    pub fn push_limit(&mut self, _: u64) -> Result<u64> { Err(Error) }
    pub fn pop_limit(&mut self, _: u64) {}
}
pub mod rt {
    use super::*;
    pub struct Lazy<T>(std::cell::UnsafeCell<Option<T>>);
    unsafe impl<T> Sync for Lazy<T> {}
    impl<T> Lazy<T> {
        pub const fn new() -> Self { Lazy(std::cell::UnsafeCell::new(None)) }
        pub fn get(&'static self, f: fn() -> T) -> &'static T { unsafe { let c = &mut *self.0.get(); c.get_or_insert_with(f) } }
    }
    pub fn read_unknown_or_skip_group(_t: u32, is: &mut CodedInputStream<'_>, _: &mut UnknownFields) -> Result<()> { is.cur = None; Ok(()) }
    pub fn skip_field_for_tag(_t: u32, is: &mut CodedInputStream<'_>) -> Result<()> { is.cur = None; Ok(()) }
    pub fn read_singular_message_into_field<M: Message>(is: &mut CodedInputStream<'_>, f: &mut MessageField<M>) -> Result<()> { *f = MessageField::some(is.read_message()?); Ok(()) }
    pub fn write_message_field_with_cached_size<M: Message>(n: u32, m: &M, os: &mut CodedOutputStream<'_>) -> Result<()> { os.out.push(Token::Msg((n << 3) | 2, m.tokens())); Ok(()) }
    pub fn unknown_fields_size(_: &UnknownFields) -> u64 { 0 }
    pub fn bytes_size(_: u32, _: &[u8]) -> u64 { 0 }
    pub fn string_size(_: u32, _: &str) -> u64 { 0 }
    pub fn int32_size(_: u32, _: i32) -> u64 { 0 }
    pub fn int64_size(_: u32, _: i64) -> u64 { 0 }
    pub fn uint32_size(_: u32, _: u32) -> u64 { 0 }
    pub fn uint64_size(_: u32, _: u64) -> u64 { 0 }
    pub fn compute_raw_varint64_size(_: u64) -> u64 { 0 }
}
pub mod text_format { pub fn fmt<M: super::Message>(_: &M, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(M::NAME) } }
pub mod well_known_types {
    macro_rules! wkt { ($n:ident { $($f:ident : $t:ty),* }) => {
        #[derive(Clone, Debug, Default, PartialEq)]
        pub struct $n { $(pub $f: $t,)* pub special_fields: crate::SpecialFields }
        impl crate::Message for $n {
            const NAME: &'static str = stringify!($n);
            fn is_initialized(&self) -> bool { true }
            fn merge_from(&mut self, _: &mut crate::CodedInputStream<'_>) -> crate::Result<()> { Err(crate::Error) }
            fn compute_size(&self) -> u64 { 0 }
            fn write_to_with_cached_sizes(&self, _: &mut crate::CodedOutputStream<'_>) -> crate::Result<()> { Err(crate::Error) }
            fn special_fields(&self) -> &crate::SpecialFields { &self.special_fields }
            fn mut_special_fields(&mut self) -> &mut crate::SpecialFields { &mut self.special_fields }
            fn new() -> Self { Default::default() }
            fn clear(&mut self) { *self = Default::default() }
            fn default_instance() -> &'static Self { Box::leak(Box::new(Default::default())) }
        }
    }; }
    pub mod wrappers { wkt!(UInt64Value { value: u64 }); impl From<u64> for UInt64Value { fn from(value: u64) -> Self { UInt64Value { value, ..Default::default() } } } wkt!(UInt32Value { value: u32 }); wkt!(BoolValue { value: bool }); wkt!(StringValue { value: String }); }
    pub mod timestamp { wkt!(Timestamp { seconds: i64, nanos: i32 }); }
}
