//! The simulated network: every request of every client ends up in the installed transport.
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::time::Duration;

use bytes::Bytes;
use http::{HeaderMap, Method};
use url::Url;

#[derive(Debug, Clone)]
pub struct SimRequest { pub method: Method, pub url: Url, pub headers: HeaderMap, pub body: Option<Bytes>, pub blocking: bool, pub timeout: Option<Duration> }

#[derive(Debug, Clone)]
pub struct SimBody { pub data: Bytes, pub broken: bool, pub delay: Option<Duration>, pub read: Option<Arc<std::sync::atomic::AtomicBool>> }
impl SimBody {
  pub(crate) fn taken(&self) { if let Some(r) = &self.read { r.store(true, std::sync::atomic::Ordering::SeqCst); } }
}

#[derive(Debug, Clone)]
pub struct SimResponse { pub status: u16, pub headers: HeaderMap, pub body: SimBody }

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum SimError { Connect, Reset, Timeout }

pub type Reply = Pin<Box<dyn Future<Output = Result<SimResponse, SimError>> + Send>>;

pub trait Transport: Send + Sync {
  /// Answer a request. A blocking request has no timer: its future must be ready when first polled.
  fn call(&self, request: SimRequest) -> Reply;
}

static TRANSPORT: Mutex<Option<Arc<dyn Transport>>> = Mutex::new(None);

pub fn install(t: Option<Arc<dyn Transport>>) { *TRANSPORT.lock().unwrap() = t; }

pub(crate) async fn call(request: SimRequest) -> Result<SimResponse, SimError> {
  let t = TRANSPORT.lock().unwrap().clone();
  match t {
    Some(t) => t.call(request).await,
    None => Err(SimError::Connect)
  }
}
