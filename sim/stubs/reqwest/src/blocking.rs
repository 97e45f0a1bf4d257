//! Blocking client over the same transport
use std::fmt::{Debug, Display, Formatter};
use std::future::Future;
use std::task::{Context, Poll, Waker};
use std::time::Duration;

use bytes::Bytes;
use http::header::{HeaderName, AUTHORIZATION, CONTENT_TYPE, USER_AGENT};
use http::{HeaderMap, HeaderValue, Method, StatusCode};
use serde::de::DeserializeOwned;
use serde::Serialize;
use url::Url;

use crate::{basic_value, builder_methods, client_methods, request_builder_methods};
use crate::{Body, Config, Error, IntoUrl, Kind, Request, Result};

fn block_on<F: Future>(fut: F) -> F::Output {
  let mut fut = Box::pin(fut);
  let mut cx = Context::from_waker(Waker::noop());
  loop {
    if let Poll::Ready(v) = fut.as_mut().poll(&mut cx) { return v }
  }
}

#[derive(Debug, Clone)]
pub struct Client { config: std::sync::Arc<Config> }
impl Default for Client { fn default() -> Self { Client::new() } }
impl Client {
  client_methods!(ClientBuilder, RequestBuilder, blocking_default());
  pub fn execute(&self, request: Request) -> Result<Response> {
    block_on(crate::execute(&self.config, request, true)).map(Response)
  }
}
#[must_use]
pub struct ClientBuilder { config: Config, error: Option<Error> }
impl Default for ClientBuilder { fn default() -> Self { ClientBuilder::new() } }
impl ClientBuilder { builder_methods!(Client, blocking_default()); }
// unlike the async client, the blocking one has a default timeout of 30 seconds
fn blocking_default() -> Config { Config { timeout: Some(Duration::from_secs(30)), .. Config::default() } }

#[must_use]
#[derive(Debug)]
pub struct RequestBuilder { client: Client, request: Result<Request> }
impl RequestBuilder {
  request_builder_methods!();
  pub fn send(self) -> Result<Response> { self.client.execute(self.request?) }
}

pub struct Response(crate::Response);
impl Debug for Response {
  fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result { self.0.fmt(f) }
}
impl Response {
  pub fn status(&self) -> StatusCode { self.0.status() }
  pub fn headers(&self) -> &HeaderMap { self.0.headers() }
  pub fn url(&self) -> &Url { self.0.url() }
  pub fn content_length(&self) -> Option<u64> { self.0.content_length() }
  pub fn bytes(self) -> Result<Bytes> { self.0.bytes_blocking() }
  pub fn text(self) -> Result<String> { Ok(String::from_utf8_lossy(&self.bytes()?).to_string()) }
  pub fn json<T: DeserializeOwned>(self) -> Result<T> {
    let url = self.0.url().clone();
    let b = self.0.bytes_blocking()?;
    serde_json::from_slice(&b).map_err(|e| Error::new(Kind::Decode, Some(url), e.to_string()))
  }
  pub fn error_for_status(self) -> Result<Self> { self.0.error_for_status().map(Response) }
}
pub fn get<T: IntoUrl>(url: T) -> Result<Response> { Client::new().get(url).send() }
