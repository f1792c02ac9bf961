pub use std::time::Duration;
pub use symstd::time::Instant;
use symstd::time::{now, to_nanos};
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};

/// (deadline, task)
pub static mut TIMERS: Vec<(u64, usize)> = Vec::new();
fn register(deadline: u64) { unsafe { TIMERS.push((deadline, crate::rt::current())) } }
/// Move the virtual clock to `to` and wake every timer due by then.
pub fn advance_to(to: u64) {
    symstd::time::set(to);
    unsafe {
        let mut i = 0;
        while i < TIMERS.len() {
            if TIMERS[i].0 <= to { let (_, t) = TIMERS.remove(i); crate::rt::wake(t); } else { i += 1; }
        }
    }
}
pub fn advance(d: Duration) { advance_to(now().saturating_add(to_nanos(d))) }
/// The earliest pending deadline.
pub fn next_deadline() -> Option<u64> {
    let mut m: Option<u64> = None;
    unsafe { for (d, _) in TIMERS.iter() { m = Some(match m { Some(x) if x < *d => x, _ => *d }); } }
    m.map(|d| if d > now() { d } else { now() })
}
/// Move the clock to the earliest pending deadline. False: no timer is pending.
pub fn advance_next() -> bool { match next_deadline() { Some(d) => { advance_to(d); true } None => false } }

pub struct Sleep { deadline: u64, registered: bool }
pub fn sleep(d: Duration) -> Sleep { Sleep { deadline: now().saturating_add(to_nanos(d)), registered: false } }
pub fn sleep_until(i: Instant) -> Sleep { Sleep { deadline: i.0, registered: false } }
impl Sleep { pub fn deadline(&self) -> Instant { Instant(self.deadline) } pub fn reset(mut self: Pin<&mut Self>, i: Instant) { self.deadline = i.0; self.registered = false; } pub fn is_elapsed(&self) -> bool { now() >= self.deadline } }
impl Future for Sleep {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<()> {
        if now() >= self.deadline { return Poll::Ready(()); }
        if !self.registered { self.registered = true; register(self.deadline); }
        Poll::Pending
    }
}
pub mod error { #[derive(Debug, PartialEq, Eq)] pub struct Elapsed; impl std::fmt::Display for Elapsed { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("deadline has elapsed") } } impl std::error::Error for Elapsed {} }
pub struct Timeout<F> { f: Pin<Box<F>>, s: Sleep }
pub fn timeout<F: Future>(d: Duration, f: F) -> Timeout<F> { Timeout { f: Box::pin(f), s: sleep(d) } }
pub fn timeout_at<F: Future>(i: Instant, f: F) -> Timeout<F> { Timeout { f: Box::pin(f), s: sleep_until(i) } }
impl<F: Future> Future for Timeout<F> {
    type Output = Result<F::Output, error::Elapsed>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        if let Poll::Ready(v) = self.f.as_mut().poll(cx) { return Poll::Ready(Ok(v)); }
        match Pin::new(&mut self.s).poll(cx) { Poll::Ready(()) => Poll::Ready(Err(error::Elapsed)), Poll::Pending => Poll::Pending }
    }
}
pub struct Interval { next: u64, period: u64, missed: MissedTickBehavior }
pub fn interval(p: Duration) -> Interval { Interval { next: now(), period: to_nanos(p), missed: MissedTickBehavior::Burst } }
pub fn interval_at(i: Instant, p: Duration) -> Interval { Interval { next: i.0, period: to_nanos(p), missed: MissedTickBehavior::Burst } }
#[derive(Copy, Clone, Debug)] pub enum MissedTickBehavior { Burst, Delay, Skip }
impl Interval {
    pub async fn tick(&mut self) -> Instant {
        let at = self.next;
        Sleep { deadline: at, registered: false }.await;
        let t = now();
        self.next = if t > at.saturating_add(5_000_000) {
            match self.missed {
                MissedTickBehavior::Burst => at.saturating_add(self.period),
                MissedTickBehavior::Delay => t.saturating_add(self.period),
                MissedTickBehavior::Skip => t.saturating_add(self.period) - (t - at) % self.period,
            }
        } else { at.saturating_add(self.period) };
        Instant(at)
    }
    pub fn reset_immediately(&mut self) { self.next = now() }
    pub fn reset_after(&mut self, d: Duration) { self.next = now().saturating_add(to_nanos(d)) }
    pub fn reset_at(&mut self, i: Instant) { self.next = i.0 }
    pub fn missed_tick_behavior(&self) -> MissedTickBehavior { self.missed }
    pub fn reset(&mut self) { self.next = now().saturating_add(self.period) }
    pub fn period(&self) -> Duration { Duration::from_nanos(self.period) }
    pub fn set_missed_tick_behavior(&mut self, b: MissedTickBehavior) { self.missed = b }
}
