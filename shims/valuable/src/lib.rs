//! Only what the (feature-gated) logging context refers to.
pub struct NamedField<'a>(&'a str);
impl<'a> NamedField<'a> { pub const fn new(s: &'a str) -> Self { NamedField(s) } }
pub struct Fields; pub struct NamedValues; pub struct StructDef; pub struct Value;
pub trait Structable {} pub trait Valuable {} pub trait Visit {}
