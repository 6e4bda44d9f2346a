//! Stand-in for backoff: signatures only.
use std::time::Duration;
#[derive(Debug)]
pub enum Error<E> {
	Permanent(E),
	Transient { err: E, retry_after: Option<Duration> },
}
impl<E> Error<E> {
	pub fn permanent(err: E) -> Self { Error::Permanent(err) }
	pub fn transient(err: E) -> Self { Error::Transient { err, retry_after: None } }
	pub fn retry_after(err: E, duration: Duration) -> Self { Error::Transient { err, retry_after: Some(duration) } }
}
impl<E> From<E> for Error<E> {
	fn from(err: E) -> Self { Error::Permanent(err) }
}
pub mod backoff { pub trait Backoff {} }
#[derive(Debug, Clone, Default)]
pub struct ExponentialBackoff {
	pub current_interval: Duration, pub initial_interval: Duration, pub randomization_factor: f64, pub multiplier: f64,
	pub max_interval: Duration, pub max_elapsed_time: Option<Duration>,
}
impl backoff::Backoff for ExponentialBackoff {}
pub mod future {
	use std::{future::Future, time::Duration};
	pub async fn retry<I, E, B, F, Fut>(_backoff: B, _operation: F) -> Result<I, E>
	where B: crate::backoff::Backoff, F: FnMut() -> Fut, Fut: Future<Output = Result<I, crate::Error<E>>> { unimplemented!() }
	pub async fn retry_notify<I, E, B, F, Fut, N>(_backoff: B, _operation: F, _notify: N) -> Result<I, E>
	where B: crate::backoff::Backoff, F: FnMut() -> Fut, Fut: Future<Output = Result<I, crate::Error<E>>>, N: FnMut(E, Duration) { unimplemented!() }
}
