//! Every value drawn is arbitrary.
pub trait RngCore { fn next_u32(&mut self) -> u32 { nd::u32() } fn next_u64(&mut self) -> u64 { nd::u64() } }
pub trait Any { fn any() -> Self; }
macro_rules! any { ($($t:ty)*) => { $( impl Any for $t { fn any() -> $t { nd::u64() as $t } }
    impl Range<$t> for std::ops::Range<$t> { fn pick(self) -> $t { assert!(self.start < self.end, "cannot sample empty range"); let v = <$t as Any>::any(); nd::assume(v >= self.start && v < self.end); v } }
    impl Range<$t> for std::ops::RangeInclusive<$t> { fn pick(self) -> $t { let v = <$t as Any>::any(); nd::assume(v >= *self.start() && v <= *self.end()); v } } )* } }
pub trait Range<T> { fn pick(self) -> T; }
any!(u8 u16 u32 u64 usize i8 i16 i32 i64 isize);
impl Any for bool { fn any() -> bool { nd::bool() } }
impl Any for u128 { fn any() -> u128 { ((nd::u64() as u128) << 64) | nd::u64() as u128 } }
pub trait Rng: RngCore {
    fn gen<T: Any>(&mut self) -> T where Self: Sized { T::any() }
    fn gen_range<T, R: Range<T>>(&mut self, r: R) -> T where Self: Sized { r.pick() }
    fn gen_bool(&mut self, _: f64) -> bool where Self: Sized { nd::bool() }
}
impl<T: RngCore> Rng for T {}
#[derive(Clone)] pub struct ThreadRng;
impl RngCore for ThreadRng {}
pub fn thread_rng() -> ThreadRng { ThreadRng }
pub fn random<T: Any>() -> T { T::any() }
pub mod rngs { pub use crate::ThreadRng; pub use crate::ThreadRng as StdRng; }
pub mod seq { pub trait SliceRandom { type Item; fn choose<R>(&self, r: &mut R) -> Option<&Self::Item>; fn shuffle<R>(&mut self, r: &mut R); }
    impl<T> SliceRandom for [T] { type Item = T; fn choose<R>(&self, _: &mut R) -> Option<&T> { if self.is_empty() { None } else { Some(&self[nd::choose(self.len() as u8) as usize]) } }
        fn shuffle<R>(&mut self, _: &mut R) { let mut i = self.len(); while i > 1 { i -= 1; let j = nd::choose(i as u8 + 1) as usize; self.swap(i, j) } } } }
pub mod prelude { pub use crate::{Rng, RngCore, ThreadRng, thread_rng, random, seq::SliceRandom}; }
