#![allow(static_mut_refs)]
//! Perfect signatures: a token verifies under key k iff it was produced by signing under k.
//! Token text is one index character pair; anything else fails verification.
use std::any::Any;
#[derive(Debug)] pub enum Error { InvalidSignature, Format }
pub static mut SIGNED: Vec<(Vec<u8>, Box<dyn Any>)> = Vec::new();
pub trait Payload: Any { fn boxed(&self) -> Box<dyn Any>; }
pub trait SignWithKey<T> { fn sign_with_key<D>(self, k: &hmac::Hmac<D>) -> Result<T, Error>; }
impl<P: Any> SignWithKey<String> for P {
    fn sign_with_key<D>(self, k: &hmac::Hmac<D>) -> Result<String, Error> {
        unsafe { SIGNED.push((k.key.clone(), Box::new(self))); Ok(token(SIGNED.len() - 1)) }
    }
}
pub fn token(i: usize) -> String { let mut s = String::new(); s.push('T'); s.push((b'A' + i as u8) as char); s }
pub trait VerifyWithKey<T> { fn verify_with_key<D>(self, k: &hmac::Hmac<D>) -> Result<T, Error>; }
impl<'a, P: Any> VerifyWithKey<P> for &'a str {
    fn verify_with_key<D>(self, k: &hmac::Hmac<D>) -> Result<P, Error> {
        let b = self.as_bytes();
        if b.len() != 2 || b[0] != b'T' { return Err(Error::Format); }
        unsafe {
            let mut i = 0;
            while i < SIGNED.len() {
                if b[1] == b'A' + i as u8 {
                    let (key, p) = &SIGNED[i];
                    if *key != k.key { return Err(Error::InvalidSignature); }
                    return match p.downcast_ref::<P>() { Some(p) => Ok(std::ptr::read(p)), None => Err(Error::Format) };
                }
                i += 1;
            }
        }
        Err(Error::InvalidSignature)
    }
}
