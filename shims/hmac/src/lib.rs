pub mod digest { pub struct InvalidLength; impl std::fmt::Debug for InvalidLength { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("len") } }
  pub trait KeyInit: Sized { fn new_from_slice(k: &[u8]) -> Result<Self, InvalidLength>; } }
pub use digest::KeyInit as Mac;
pub struct Hmac<D> { pub key: Vec<u8>, _d: std::marker::PhantomData<D> }
impl<D> digest::KeyInit for Hmac<D> { fn new_from_slice(k: &[u8]) -> Result<Self, digest::InvalidLength> { Ok(Hmac { key: k.to_vec(), _d: std::marker::PhantomData }) } }
