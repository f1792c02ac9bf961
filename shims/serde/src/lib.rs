pub use serde_derive_shim::{Serialize, Deserialize};
pub trait Serialize {} impl<T: ?Sized> Serialize for T {}
pub trait Deserialize<'de>: Sized {} impl<'de, T> Deserialize<'de> for T {}
pub mod de { pub trait DeserializeOwned: Sized {} impl<T> DeserializeOwned for T {} pub use crate::Deserialize; }
pub mod ser { pub use crate::Serialize; }
