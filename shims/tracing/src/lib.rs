pub use tracing_attributes_shim::instrument;
use std::future::Future;
#[macro_export] macro_rules! trace { ($($t:tt)*) => {{}}; }
#[macro_export] macro_rules! debug { ($($t:tt)*) => {{}}; }
#[macro_export] macro_rules! info { ($($t:tt)*) => {{}}; }
#[macro_export] macro_rules! warn { ($($t:tt)*) => {{}}; }
#[macro_export] macro_rules! error { ($($t:tt)*) => {{}}; }
#[macro_export] macro_rules! event { ($($t:tt)*) => {{}}; }
#[macro_export] macro_rules! span { ($($t:tt)*) => { $crate::Span }; }
#[macro_export] macro_rules! trace_span { ($($t:tt)*) => { $crate::Span }; }
#[macro_export] macro_rules! debug_span { ($($t:tt)*) => { $crate::Span }; }
#[macro_export] macro_rules! info_span { ($($t:tt)*) => { $crate::Span }; }
#[macro_export] macro_rules! warn_span { ($($t:tt)*) => { $crate::Span }; }
#[macro_export] macro_rules! error_span { ($($t:tt)*) => { $crate::Span }; }
#[macro_export] macro_rules! enabled { ($($t:tt)*) => { false }; }
#[derive(Clone, Debug)]
pub struct Span;
pub struct Entered;
impl Span {
    pub fn current() -> Span { Span } pub fn none() -> Span { Span }
    pub fn enter(&self) -> Entered { Entered } pub fn entered(self) -> Entered { Entered }
    pub fn in_scope<F: FnOnce() -> T, T>(&self, f: F) -> T { f() }
    pub fn record<V>(&self, _: &str, _: V) -> &Self { self }
    pub fn is_none(&self) -> bool { true }
}
pub trait Instrument: Sized { fn instrument(self, _: Span) -> Self { self } fn in_current_span(self) -> Self { self } }
impl<T: Future> Instrument for T {}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Level;
impl Level { pub const TRACE: Level = Level; pub const DEBUG: Level = Level; pub const INFO: Level = Level; pub const WARN: Level = Level; pub const ERROR: Level = Level; }
