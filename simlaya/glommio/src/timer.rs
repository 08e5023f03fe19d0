use crate::error::{GlommioError, Result};
use crate::sim;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};
use std::time::{Duration, Instant};

#[derive(Debug)]
pub struct Timer {
    at: u64,
    started: Instant,
    token: Option<u64>,
}
impl Timer {
    pub fn new(d: Duration) -> Timer {
        Timer { at: sim::now() + d.as_nanos() as u64, started: Instant::now(), token: None }
    }
    pub fn reset(&mut self, d: Duration) {
        self.at = sim::now() + d.as_nanos() as u64;
        if let Some(t) = self.token.take() {
            sim::cancel_timer(t);
        }
    }
}
impl Future for Timer {
    type Output = Instant;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Instant> {
        if sim::now() >= self.at {
            return Poll::Ready(self.started);
        }
        if let Some(t) = self.token.take() {
            sim::cancel_timer(t);
        }
        self.token = Some(sim::add_timer(self.at, cx.waker().clone()));
        Poll::Pending
    }
}
impl Drop for Timer {
    fn drop(&mut self) {
        if let Some(t) = self.token.take() {
            sim::cancel_timer(t);
        }
    }
}

pub async fn sleep(wait: Duration) {
    Timer::new(wait).await;
}

pub async fn timeout<F, T>(dur: Duration, f: F) -> Result<T, ()>
where
    F: Future<Output = Result<T, ()>>,
{
    let t = async {
        Timer::new(dur).await;
        Err(GlommioError::TimedOut(dur))
    };
    futures_lite::future::or(f, t).await
}
