//! Model of `tokio::time`: virtual time, moved by the harness when nothing is ready.
#![allow(missing_docs, missing_debug_implementations, unreachable_pub)]
use crate::model::{self, ex};
use std::fmt;
use std::future::Future;
use std::ops::{Add, AddAssign, Sub, SubAssign};
use std::pin::Pin;
use std::task::{Context, Poll};
pub use std::time::Duration;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub struct Instant(u64);

fn ns(d: Duration) -> u64 {
    d.as_secs().saturating_mul(1_000_000_000).saturating_add(d.subsec_nanos() as u64)
}

impl Instant {
    pub fn now() -> Instant {
        Instant(ex().now)
    }
    pub fn from_std(s: std::time::Instant) -> Instant {
        // whole milliseconds: the two clocks are not in step
        let d = s.saturating_duration_since(std::time::Instant::now());
        let ms = (d.as_nanos() as u64 + 999_999) / 1_000_000;
        Instant(ex().now + ms * 1_000_000)
    }
    pub fn into_std(self) -> std::time::Instant {
        std::time::Instant::now() + Duration::from_nanos(self.0.saturating_sub(ex().now))
    }
    pub fn elapsed(&self) -> Duration {
        Instant::now() - *self
    }
    pub fn duration_since(&self, o: Instant) -> Duration {
        *self - o
    }
    pub fn checked_duration_since(&self, o: Instant) -> Option<Duration> {
        self.0.checked_sub(o.0).map(Duration::from_nanos)
    }
    pub fn saturating_duration_since(&self, o: Instant) -> Duration {
        *self - o
    }
    pub fn checked_add(&self, d: Duration) -> Option<Instant> {
        self.0.checked_add(ns(d)).map(Instant)
    }
    pub fn checked_sub(&self, d: Duration) -> Option<Instant> {
        self.0.checked_sub(ns(d)).map(Instant)
    }
}
impl From<std::time::Instant> for Instant {
    fn from(s: std::time::Instant) -> Instant {
        Instant::from_std(s)
    }
}
impl From<Instant> for std::time::Instant {
    fn from(s: Instant) -> std::time::Instant {
        s.into_std()
    }
}
impl Add<Duration> for Instant {
    type Output = Instant;
    fn add(self, d: Duration) -> Instant {
        Instant(self.0.saturating_add(ns(d)))
    }
}
impl AddAssign<Duration> for Instant {
    fn add_assign(&mut self, d: Duration) {
        *self = *self + d
    }
}
impl Sub<Instant> for Instant {
    type Output = Duration;
    fn sub(self, o: Instant) -> Duration {
        Duration::from_nanos(self.0.saturating_sub(o.0))
    }
}
impl Sub<Duration> for Instant {
    type Output = Instant;
    fn sub(self, d: Duration) -> Instant {
        Instant(self.0.saturating_sub(ns(d)))
    }
}
impl SubAssign<Duration> for Instant {
    fn sub_assign(&mut self, d: Duration) {
        *self = *self - d
    }
}

#[derive(Debug)]
pub struct Sleep {
    at: Instant,
    armed: Option<Instant>,
}
pub fn sleep(d: Duration) -> Sleep {
    sleep_until(Instant::now() + d)
}
pub fn sleep_until(at: Instant) -> Sleep {
    Sleep { at, armed: None }
}
impl Sleep {
    pub fn deadline(&self) -> Instant {
        self.at
    }
    pub fn is_elapsed(&self) -> bool {
        Instant::now() >= self.at
    }
    pub fn reset(mut self: Pin<&mut Self>, at: Instant) {
        self.at = at;
        self.armed = None;
    }
}
impl Future for Sleep {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.is_elapsed() {
            return Poll::Ready(());
        }
        if self.armed != Some(self.at) {
            self.armed = Some(self.at);
            model::add_timer(self.at.0, cx.waker().clone());
        }
        Poll::Pending
    }
}

pub mod error {
    #[derive(Debug, PartialEq)]
    pub struct Elapsed(pub(super) ());
    impl std::fmt::Display for Elapsed {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("deadline has elapsed")
        }
    }
    impl std::error::Error for Elapsed {}
}

pub struct Timeout<T> {
    fut: Pin<Box<T>>,
    sleep: Sleep,
}
impl<T> fmt::Debug for Timeout<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Timeout")
    }
}
pub fn timeout<T: Future>(d: Duration, fut: T) -> Timeout<T> {
    Timeout { fut: Box::pin(fut), sleep: sleep(d) }
}
pub fn timeout_at<T: Future>(at: Instant, fut: T) -> Timeout<T> {
    Timeout { fut: Box::pin(fut), sleep: sleep_until(at) }
}
impl<T: Future> Future for Timeout<T> {
    type Output = Result<T::Output, error::Elapsed>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        if let Poll::Ready(r) = self.fut.as_mut().poll(cx) {
            return Poll::Ready(Ok(r));
        }
        match Pin::new(&mut self.sleep).poll(cx) {
            Poll::Ready(()) => Poll::Ready(Err(error::Elapsed(()))),
            Poll::Pending => Poll::Pending,
        }
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum MissedTickBehavior {
    Burst,
    Delay,
    Skip,
}
#[derive(Debug)]
pub struct Interval {
    sleep: Sleep,
    period: Duration,
}
pub fn interval(period: Duration) -> Interval {
    interval_at(Instant::now(), period)
}
pub fn interval_at(start: Instant, period: Duration) -> Interval {
    Interval { sleep: sleep_until(start), period }
}
impl Interval {
    pub async fn tick(&mut self) -> Instant {
        crate::future::poll_fn(|cx| self.poll_tick(cx)).await
    }
    pub fn poll_tick(&mut self, cx: &mut Context<'_>) -> Poll<Instant> {
        match Pin::new(&mut self.sleep).poll(cx) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(()) => {
                let at = self.sleep.at;
                let next = at + self.period;
                Pin::new(&mut self.sleep).reset(next);
                Poll::Ready(at)
            }
        }
    }
    pub fn reset(&mut self) {
        let next = Instant::now() + self.period;
        Pin::new(&mut self.sleep).reset(next);
    }
    pub fn set_missed_tick_behavior(&mut self, _: MissedTickBehavior) {}
    pub fn period(&self) -> Duration {
        self.period
    }
}
