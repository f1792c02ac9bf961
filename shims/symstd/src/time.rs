pub use std::time::Duration;

use std::ops::{Add, AddAssign, Sub, SubAssign};

/// Virtual monotonic clock (nanoseconds).
pub static mut NOW: u64 = 1_000_000_000;
pub fn now() -> u64 { unsafe { NOW } }
pub fn set(v: u64) { unsafe { NOW = v } }
pub fn advance(d: u64) { unsafe { NOW += d } }

#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Instant(pub u64);

#[inline]
pub fn to_nanos(d: Duration) -> u64 {
    d.as_secs().saturating_mul(1_000_000_000).saturating_add(d.subsec_nanos() as u64)
}

impl Instant {
    pub fn now() -> Instant { Instant(now()) }
    pub fn elapsed(&self) -> Duration { Duration::from_nanos(now().saturating_sub(self.0)) }
    pub fn duration_since(&self, o: Instant) -> Duration { Duration::from_nanos(self.0.saturating_sub(o.0)) }
    pub fn saturating_duration_since(&self, o: Instant) -> Duration { self.duration_since(o) }
    pub fn checked_duration_since(&self, o: Instant) -> Option<Duration> {
        if self.0 >= o.0 { Some(Duration::from_nanos(self.0 - o.0)) } else { None }
    }
    pub fn checked_sub(&self, d: Duration) -> Option<Instant> { self.0.checked_sub(to_nanos(d)).map(Instant) }
    pub fn checked_add(&self, d: Duration) -> Option<Instant> { self.0.checked_add(to_nanos(d)).map(Instant) }
}
impl Add<Duration> for Instant { type Output = Instant; fn add(self, d: Duration) -> Instant { Instant(self.0.saturating_add(to_nanos(d))) } }
impl AddAssign<Duration> for Instant { fn add_assign(&mut self, d: Duration) { *self = *self + d } }
impl Sub<Duration> for Instant { type Output = Instant; fn sub(self, d: Duration) -> Instant { Instant(self.0.saturating_sub(to_nanos(d))) } }
impl SubAssign<Duration> for Instant { fn sub_assign(&mut self, d: Duration) { *self = *self - d } }
impl Sub<Instant> for Instant { type Output = Duration; fn sub(self, o: Instant) -> Duration { self.duration_since(o) } }

/// The wall clock: the monotonic one, `WALL` seconds apart.
pub static mut WALL: u64 = 1_600_000_000;
#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct SystemTime(u64);
#[derive(Clone, Debug)] pub struct SystemTimeError(Duration);
impl SystemTimeError { pub fn duration(&self) -> Duration { self.0 } }
impl std::fmt::Display for SystemTimeError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("second time provided was later than self") } }
impl std::error::Error for SystemTimeError {}
pub const UNIX_EPOCH: SystemTime = SystemTime(0);
impl SystemTime {
    pub const UNIX_EPOCH: SystemTime = SystemTime(0);
    pub fn now() -> SystemTime { SystemTime(unsafe { WALL } * 1_000_000_000 + now()) }
    pub fn duration_since(&self, o: SystemTime) -> Result<Duration, SystemTimeError> { if self.0 >= o.0 { Ok(Duration::from_nanos(self.0 - o.0)) } else { Err(SystemTimeError(Duration::from_nanos(o.0 - self.0))) } }
    pub fn elapsed(&self) -> Result<Duration, SystemTimeError> { SystemTime::now().duration_since(*self) }
    pub fn checked_add(&self, d: Duration) -> Option<SystemTime> { self.0.checked_add(to_nanos(d)).map(SystemTime) }
}
impl Add<Duration> for SystemTime { type Output = SystemTime; fn add(self, d: Duration) -> SystemTime { SystemTime(self.0 + to_nanos(d)) } }
impl Sub<Duration> for SystemTime { type Output = SystemTime; fn sub(self, d: Duration) -> SystemTime { SystemTime(self.0 - to_nanos(d)) } }
