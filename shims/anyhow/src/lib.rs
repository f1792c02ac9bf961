use std::fmt::{Debug, Display, Formatter};
pub struct Error(Box<dyn std::error::Error + Send + Sync + 'static>);
pub type Result<T, E = Error> = std::result::Result<T, E>;
struct Msg(String);
impl Debug for Msg { fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result { f.write_str(&self.0) } }
impl Display for Msg { fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result { f.write_str(&self.0) } }
impl std::error::Error for Msg {}
impl Error {
    pub fn new<E: std::error::Error + Send + Sync + 'static>(e: E) -> Error { Error(Box::new(e)) }
    pub fn msg<M: Display>(m: M) -> Error { Error(Box::new(Msg(m.to_string()))) }
}
impl<E: std::error::Error + Send + Sync + 'static> From<E> for Error { fn from(e: E) -> Error { Error::new(e) } }
impl Debug for Error { fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result { Debug::fmt(&self.0, f) } }
impl Display for Error { fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result { Display::fmt(&self.0, f) } }
pub fn Ok<T>(t: T) -> Result<T> { Result::Ok(t) }
#[macro_export] macro_rules! anyhow { ($($t:tt)*) => { $crate::Error::msg(format!($($t)*)) }; }
#[macro_export] macro_rules! bail { ($($t:tt)*) => { return Err($crate::anyhow!($($t)*)) }; }
#[macro_export] macro_rules! ensure { ($c:expr $(,)?) => { if !$c { return Err($crate::anyhow!(concat!("Condition failed: `", stringify!($c), "`"))) } }; ($c:expr, $($t:tt)*) => { if !$c { return Err($crate::anyhow!($($t)*)) } }; }
impl Error { pub fn downcast_ref<E: std::error::Error + 'static>(&self) -> Option<&E> { self.0.downcast_ref() } pub fn context<C: Display>(self, c: C) -> Error { Error::msg(c) } pub fn root_cause(&self) -> &(dyn std::error::Error + 'static) { &*self.0 } }
impl From<Error> for Box<dyn std::error::Error + Send + Sync> { fn from(e: Error) -> Self { e.0 } }
impl From<Error> for Box<dyn std::error::Error> { fn from(e: Error) -> Self { e.0 } }
pub trait Context<T> { fn context<C: Display + Send + Sync + 'static>(self, c: C) -> Result<T>; fn with_context<C: Display + Send + Sync + 'static, F: FnOnce() -> C>(self, f: F) -> Result<T>; }
impl<T, E: Into<Error>> Context<T> for std::result::Result<T, E> { fn context<C: Display + Send + Sync + 'static>(self, c: C) -> Result<T> { self.map_err(|e| e.into().context(c)) } fn with_context<C: Display + Send + Sync + 'static, F: FnOnce() -> C>(self, f: F) -> Result<T> { self.map_err(|e| e.into().context(f())) } }
impl<T> Context<T> for Option<T> { fn context<C: Display + Send + Sync + 'static>(self, c: C) -> Result<T> { self.ok_or_else(|| Error::msg(c)) } fn with_context<C: Display + Send + Sync + 'static, F: FnOnce() -> C>(self, f: F) -> Result<T> { self.ok_or_else(|| Error::msg(f())) } }
