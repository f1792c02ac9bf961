#![allow(static_mut_refs)]
//! UTC instants as (seconds, nanoseconds); the range and the overflow panics are chrono's.
use std::ops::{Add, AddAssign, Sub};

pub const MIN_SECS: i64 = -8_334_632_851_200;
pub const MAX_SECS: i64 = 8_210_298_412_799;

pub mod sym {
    /// the wall clock runs along with the monotonic one; this many seconds apart
    pub static mut BASE: i64 = 1_600_000_000;
    /// the wall clock is set (forwards or back)
    pub fn jump(secs: i64) { unsafe { BASE += secs; symstd::time::WALL = symstd::time::WALL.wrapping_add(secs as u64) } }
}

#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Utc;
impl Utc { pub fn now() -> DateTime<Utc> { let t = symstd::time::now(); DateTime { s: unsafe { sym::BASE } + (t / 1_000_000_000) as i64, n: (t % 1_000_000_000) as u32, tz: Utc } } }
pub trait TimeZone: Copy {
    fn timestamp_opt(&self, s: i64, n: u32) -> LocalResult<DateTime<Self>> {
        if valid(s, n) { LocalResult::Single(DateTime { s, n, tz: *self }) } else { LocalResult::None }
    }
    fn from_utc_datetime(&self, d: &NaiveDateTime) -> DateTime<Self> { DateTime { s: d.s, n: d.n, tz: *self } }
}
impl TimeZone for Utc {}
pub enum LocalResult<T> { None, Single(T), Ambiguous(T, T) }
impl<T> LocalResult<T> { pub fn single(self) -> Option<T> { match self { LocalResult::Single(t) => Some(t), _ => None } } pub fn unwrap(self) -> T { self.single().unwrap() } }
fn valid(s: i64, n: u32) -> bool { s >= MIN_SECS && s <= MAX_SECS && n < 2_000_000_000 }

#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct NaiveDateTime { s: i64, n: u32 }
impl NaiveDateTime {
    pub fn from_timestamp_opt(s: i64, n: u32) -> Option<NaiveDateTime> { if valid(s, n) { Some(NaiveDateTime { s, n }) } else { None } }
    pub fn from_timestamp(s: i64, n: u32) -> NaiveDateTime { Self::from_timestamp_opt(s, n).expect("invalid or out-of-range datetime") }
    pub fn and_utc(self) -> DateTime<Utc> { DateTime { s: self.s, n: self.n, tz: Utc } }
    pub fn timestamp(&self) -> i64 { self.s }
    pub fn timestamp_subsec_nanos(&self) -> u32 { self.n }
}
#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct DateTime<Tz> { s: i64, n: u32, tz: Tz }
impl DateTime<Utc> {
    pub const MIN_UTC: DateTime<Utc> = DateTime { s: MIN_SECS, n: 0, tz: Utc };
    pub const MAX_UTC: DateTime<Utc> = DateTime { s: MAX_SECS, n: 999_999_999, tz: Utc };
    pub fn from_utc(n: NaiveDateTime, tz: Utc) -> DateTime<Utc> { DateTime { s: n.s, n: n.n, tz } }
    pub fn from_naive_utc_and_offset(n: NaiveDateTime, tz: Utc) -> DateTime<Utc> { DateTime { s: n.s, n: n.n, tz } }
    pub fn from_timestamp(s: i64, n: u32) -> Option<DateTime<Utc>> { if valid(s, n) { Some(DateTime { s, n, tz: Utc }) } else { None } }
    pub fn naive_utc(&self) -> NaiveDateTime { NaiveDateTime { s: self.s, n: self.n } }
    pub fn timestamp(&self) -> i64 { self.s }
    pub fn timestamp_millis(&self) -> i64 { self.s * 1000 + (self.n / 1_000_000) as i64 }
    pub fn timestamp_nanos(&self) -> i64 { self.s.checked_mul(1_000_000_000).and_then(|v| v.checked_add(self.n as i64)).expect("value can not be represented in a timestamp with nanosecond precision.") }
    pub fn timestamp_micros(&self) -> i64 { self.s * 1_000_000 + (self.n / 1000) as i64 }
    pub fn timestamp_nanos_opt(&self) -> Option<i64> { self.s.checked_mul(1_000_000_000).and_then(|v| v.checked_add(self.n as i64)) }
    pub fn to_rfc3339(&self) -> String { self.to_string() }
    pub fn timestamp_subsec_nanos(&self) -> u32 { self.n }
    pub fn timestamp_subsec_millis(&self) -> u32 { self.n / 1_000_000 }
    pub fn timestamp_subsec_micros(&self) -> u32 { self.n / 1_000 }
    pub fn signed_duration_since(self, o: DateTime<Utc>) -> Duration { self - o }
    pub fn checked_add_signed(self, d: Duration) -> Option<DateTime<Utc>> {
        let (n, c) = carry(self.n as i64 + d.n as i64);
        let s = self.s.checked_add(d.s)?.checked_add(c)?;
        if s >= MIN_SECS && s <= MAX_SECS { Some(DateTime { s, n, tz: Utc }) } else { None }
    }
    pub fn checked_sub_signed(self, d: Duration) -> Option<DateTime<Utc>> { self.checked_add_signed(d.neg()) }
}
fn carry(n: i64) -> (u32, i64) { if n >= 1_000_000_000 { ((n - 1_000_000_000) as u32, 1) } else if n < 0 { ((n + 1_000_000_000) as u32, -1) } else { (n as u32, 0) } }
impl Add<Duration> for DateTime<Utc> { type Output = Self; fn add(self, d: Duration) -> Self { self.checked_add_signed(d).expect("`DateTime + Duration` overflowed") } }
impl AddAssign<Duration> for DateTime<Utc> { fn add_assign(&mut self, d: Duration) { *self = *self + d } }
impl Sub<Duration> for DateTime<Utc> { type Output = Self; fn sub(self, d: Duration) -> Self { self.checked_sub_signed(d).expect("`DateTime - Duration` overflowed") } }
impl Sub<DateTime<Utc>> for DateTime<Utc> { type Output = Duration; fn sub(self, o: Self) -> Duration { let (n, c) = carry(self.n as i64 - o.n as i64); Duration { s: self.s - o.s + c, n } } }
impl<'a> Sub<&'a DateTime<Utc>> for DateTime<Utc> { type Output = Duration; fn sub(self, o: &'a Self) -> Duration { self - *o } }

/// seconds + 0..1e9 nanoseconds
#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Duration { s: i64, n: u32 }
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub struct OutOfRangeError;
impl std::fmt::Display for OutOfRangeError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("out of range") } }
impl std::error::Error for OutOfRangeError {}
const DMAX: i64 = i64::MAX / 1000;
impl Duration {
    pub fn from_std(d: std::time::Duration) -> Result<Duration, OutOfRangeError> {
        if d.as_secs() > DMAX as u64 { return Err(OutOfRangeError); }
        Ok(Duration { s: d.as_secs() as i64, n: d.subsec_nanos() })
    }
    pub fn to_std(&self) -> Result<std::time::Duration, OutOfRangeError> {
        if self.s < 0 { return Err(OutOfRangeError); }
        Ok(std::time::Duration::new(self.s as u64, self.n))
    }
    fn neg(self) -> Duration { let (n, c) = carry(-(self.n as i64)); Duration { s: -self.s + c, n } }
    pub const fn zero() -> Duration { Duration { s: 0, n: 0 } }
    pub fn seconds(s: i64) -> Duration { Duration { s, n: 0 } }
    pub fn hours(h: i64) -> Duration { Duration { s: h * 3600, n: 0 } }
    pub fn days(d: i64) -> Duration { Duration { s: d * 86400, n: 0 } }
    pub fn microseconds(m: i64) -> Duration { Duration { s: m.div_euclid(1_000_000), n: (m.rem_euclid(1_000_000) * 1_000) as u32 } }
    pub fn nanoseconds(m: i64) -> Duration { Duration { s: m.div_euclid(1_000_000_000), n: m.rem_euclid(1_000_000_000) as u32 } }
    pub fn abs(&self) -> Duration { if self.s < 0 { self.neg() } else { *self } }
    pub fn is_zero(&self) -> bool { self.s == 0 && self.n == 0 }
    pub fn num_minutes(&self) -> i64 { self.num_seconds() / 60 }
    pub fn minutes(m: i64) -> Duration { Duration { s: m * 60, n: 0 } }
    pub fn milliseconds(m: i64) -> Duration { Duration { s: m.div_euclid(1000), n: (m.rem_euclid(1000) * 1_000_000) as u32 } }
    pub fn max_value() -> Duration { Duration { s: DMAX, n: 807_000_000 } }
    pub fn num_seconds(&self) -> i64 { if self.s < 0 && self.n > 0 { self.s + 1 } else { self.s } }
    pub fn num_milliseconds(&self) -> i64 { self.s * 1000 + (self.n / 1_000_000) as i64 }
}
pub type TimeDelta = Duration;
pub mod prelude { pub use crate::{DateTime, TimeZone, Utc, NaiveDateTime}; }
impl std::fmt::Display for DateTime<Utc> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}.{:09} UTC", self.s, self.n) } }
impl std::ops::Neg for Duration { type Output = Duration; fn neg(self) -> Duration { Duration::neg(self) } }
impl Add<Duration> for Duration { type Output = Duration; fn add(self, d: Duration) -> Duration { let (n, c) = carry(self.n as i64 + d.n as i64); Duration { s: self.s + d.s + c, n } } }
impl Sub<Duration> for Duration { type Output = Duration; fn sub(self, d: Duration) -> Duration { let (n, c) = carry(self.n as i64 - d.n as i64); Duration { s: self.s - d.s + c, n } } }
impl std::ops::Mul<i32> for Duration { type Output = Duration; fn mul(self, k: i32) -> Duration { let n = self.n as i64 * k as i64; Duration { s: self.s * k as i64 + n.div_euclid(1_000_000_000), n: n.rem_euclid(1_000_000_000) as u32 } } }
