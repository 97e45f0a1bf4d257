//! Offline stand-in for the reqwest crate: the same client API, where the network is a transport
//! that the simulator installs (see the `sim` module). URL, header, body, redirect, timeout and
//! decoding behaviour follow reqwest 0.12.
use std::error::Error as StdError;
use std::fmt::{Debug, Display, Formatter};
use std::future::Future;
use std::time::Duration;

use base64::Engine;
use bytes::Bytes;
pub use http::header;
use http::header::{HeaderName, ACCEPT, AUTHORIZATION, CONTENT_LENGTH, CONTENT_TYPE, LOCATION, USER_AGENT};
use http::{HeaderMap, HeaderValue};
pub use http::{Method, StatusCode, Version};
use serde::de::DeserializeOwned;
use serde::Serialize;
pub use url::Url;
pub use url::ParseError;

pub mod blocking;
pub mod sim;

pub type Result<T> = std::result::Result<T, Error>;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub(crate) enum Kind { Builder, Request, Connect, Timeout, Redirect, Status(StatusCode), Body, Decode }

/// Errors
pub struct Error { kind: Kind, url: Option<Url>, source: Option<String> }

impl Error {
  pub(crate) fn new(kind: Kind, url: Option<Url>, source: impl Into<String>) -> Error {
    Error { kind, url, source: Some(source.into()) }
  }
  pub fn url(&self) -> Option<&Url> { self.url.as_ref() }
  pub fn with_url(mut self, url: Url) -> Self { self.url = Some(url); self }
  pub fn without_url(mut self) -> Self { self.url = None; self }
  pub fn is_builder(&self) -> bool { self.kind == Kind::Builder }
  pub fn is_redirect(&self) -> bool { self.kind == Kind::Redirect }
  pub fn is_status(&self) -> bool { matches!(self.kind, Kind::Status(_)) }
  pub fn is_timeout(&self) -> bool { self.kind == Kind::Timeout }
  pub fn is_request(&self) -> bool { matches!(self.kind, Kind::Request | Kind::Connect | Kind::Timeout) }
  pub fn is_connect(&self) -> bool { self.kind == Kind::Connect }
  pub fn is_body(&self) -> bool { self.kind == Kind::Body }
  pub fn is_decode(&self) -> bool { self.kind == Kind::Decode }
  pub fn status(&self) -> Option<StatusCode> { match self.kind { Kind::Status(s) => Some(s), _ => None } }
}
impl Debug for Error {
  fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
    f.debug_struct("reqwest::Error").field("kind", &self.kind).field("url", &self.url.as_ref().map(|u| u.as_str())).field("source", &self.source).finish()
  }
}
impl Display for Error {
  fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
    match self.kind {
      Kind::Builder => write!(f, "builder error")?,
      Kind::Request | Kind::Connect | Kind::Timeout => write!(f, "error sending request")?,
      Kind::Redirect => write!(f, "error following redirect")?,
      Kind::Status(s) => write!(f, "HTTP status {} error ({})", if s.is_client_error() { "client" } else { "server" }, s)?,
      Kind::Body => write!(f, "request or response body error")?,
      Kind::Decode => write!(f, "error decoding response body")?
    }
    if let Some(url) = &self.url { write!(f, " for url ({})", url)?; }
    Ok(())
  }
}
impl StdError for Error {}

/// Something that can be made into a URL
pub trait IntoUrl { fn into_url(self) -> Result<Url>; }
fn check_url(url: Url) -> Result<Url> {
  if url.has_host() { Ok(url) } else { Err(Error::new(Kind::Builder, Some(url), "URL scheme is not allowed")) }
}
impl IntoUrl for Url { fn into_url(self) -> Result<Url> { check_url(self) } }
impl<'a> IntoUrl for &'a str {
  fn into_url(self) -> Result<Url> { Url::parse(self).map_err(|e| Error::new(Kind::Builder, None, e.to_string())).and_then(check_url) }
}
impl<'a> IntoUrl for &'a String { fn into_url(self) -> Result<Url> { self.as_str().into_url() } }
impl IntoUrl for String { fn into_url(self) -> Result<Url> { self.as_str().into_url() } }

/// Request body
#[derive(Debug, Clone, Default)]
pub struct Body(Bytes);
impl Body { pub fn as_bytes(&self) -> Option<&[u8]> { Some(&self.0) } }
impl From<Bytes> for Body { fn from(b: Bytes) -> Self { Body(b) } }
impl From<Vec<u8>> for Body { fn from(b: Vec<u8>) -> Self { Body(b.into()) } }
impl From<String> for Body { fn from(b: String) -> Self { Body(b.into()) } }
impl From<&'static str> for Body { fn from(b: &'static str) -> Self { Body(Bytes::from_static(b.as_bytes())) } }
impl From<&'static [u8]> for Body { fn from(b: &'static [u8]) -> Self { Body(Bytes::from_static(b)) } }

/// A request
#[derive(Debug, Clone)]
pub struct Request { method: Method, url: Url, headers: HeaderMap, body: Option<Body>, timeout: Option<Duration> }
impl Request {
  pub fn new(method: Method, url: Url) -> Self { Request { method, url, headers: HeaderMap::new(), body: None, timeout: None } }
  pub fn method(&self) -> &Method { &self.method }
  pub fn method_mut(&mut self) -> &mut Method { &mut self.method }
  pub fn url(&self) -> &Url { &self.url }
  pub fn url_mut(&mut self) -> &mut Url { &mut self.url }
  pub fn headers(&self) -> &HeaderMap { &self.headers }
  pub fn headers_mut(&mut self) -> &mut HeaderMap { &mut self.headers }
  pub fn body(&self) -> Option<&Body> { self.body.as_ref() }
  pub fn body_mut(&mut self) -> &mut Option<Body> { &mut self.body }
  pub fn timeout(&self) -> Option<&Duration> { self.timeout.as_ref() }
  pub fn try_clone(&self) -> Option<Request> { Some(self.clone()) }
}

#[derive(Debug, Clone, Default)]
pub(crate) struct Config { pub(crate) headers: HeaderMap, pub(crate) timeout: Option<Duration>, pub(crate) redirects: Option<usize> }

macro_rules! builder_methods { ($client:ident, $config:expr) => {
  pub fn new() -> Self { Self { config: $config, error: None } }
  pub fn user_agent<V>(mut self, value: V) -> Self where V: TryInto<HeaderValue>, V::Error: Into<http::Error> {
    match value.try_into() {
      Ok(v) => { self.config.headers.insert(USER_AGENT, v); }
      Err(e) => self.error = Some(Error::new(Kind::Builder, None, Into::<http::Error>::into(e).to_string()))
    }
    self
  }
  pub fn default_headers(mut self, headers: HeaderMap) -> Self {
    for (k, v) in headers.iter() { self.config.headers.insert(k.clone(), v.clone()); }
    self
  }
  pub fn timeout<T: Into<Option<Duration>>>(mut self, timeout: T) -> Self { self.config.timeout = timeout.into(); self }
  pub fn connect_timeout<T: Into<Option<Duration>>>(self, _: T) -> Self { self }
  pub fn tcp_keepalive<D: Into<Option<Duration>>>(self, _: D) -> Self { self }
  pub fn tcp_nodelay(self, _: bool) -> Self { self }
  pub fn pool_idle_timeout<D: Into<Option<Duration>>>(self, _: D) -> Self { self }
  pub fn pool_max_idle_per_host(self, _: usize) -> Self { self }
  pub fn danger_accept_invalid_certs(self, _: bool) -> Self { self }
  pub fn danger_accept_invalid_hostnames(self, _: bool) -> Self { self }
  pub fn no_proxy(self) -> Self { self }
  pub fn http1_only(self) -> Self { self }
  pub fn https_only(self, _: bool) -> Self { self }
  pub fn build(self) -> Result<$client> {
    match self.error { Some(e) => Err(e), None => Ok($client { config: std::sync::Arc::new(self.config) }) }
  }
}}

macro_rules! client_methods { ($builder:ident, $rb:ident, $config:expr) => {
  pub fn new() -> Self { Self { config: std::sync::Arc::new($config) } }
  pub fn builder() -> $builder { $builder::new() }
  pub fn get<U: IntoUrl>(&self, url: U) -> $rb { self.request(Method::GET, url) }
  pub fn post<U: IntoUrl>(&self, url: U) -> $rb { self.request(Method::POST, url) }
  pub fn put<U: IntoUrl>(&self, url: U) -> $rb { self.request(Method::PUT, url) }
  pub fn patch<U: IntoUrl>(&self, url: U) -> $rb { self.request(Method::PATCH, url) }
  pub fn delete<U: IntoUrl>(&self, url: U) -> $rb { self.request(Method::DELETE, url) }
  pub fn head<U: IntoUrl>(&self, url: U) -> $rb { self.request(Method::HEAD, url) }
  pub fn request<U: IntoUrl>(&self, method: Method, url: U) -> $rb {
    $rb { client: self.clone(), request: url.into_url().map(|url| {
      let mut req = Request::new(method, url);
      // URL credentials become a basic authorization header, as in reqwest
      let (user, pass) = (req.url.username().to_string(), req.url.password().map(|p| p.to_string()));
      if !user.is_empty() || pass.is_some() {
        let _ = req.url.set_username("");
        let _ = req.url.set_password(None);
        req.headers.insert(AUTHORIZATION, basic_value(&user, pass.as_deref()));
      }
      req
    }) }
  }
}}

fn basic_value(user: &str, pass: Option<&str>) -> HeaderValue {
  let mut v = HeaderValue::from_str(&format!("Basic {}", base64::engine::general_purpose::STANDARD.encode(format!("{}:{}", user, pass.unwrap_or(""))))).unwrap();
  v.set_sensitive(true);
  v
}

macro_rules! request_builder_methods { () => {
  pub fn header<K, V>(mut self, key: K, value: V) -> Self
    where HeaderName: TryFrom<K>, <HeaderName as TryFrom<K>>::Error: Into<http::Error>,
          HeaderValue: TryFrom<V>, <HeaderValue as TryFrom<V>>::Error: Into<http::Error> {
    let mut error = None;
    if let Ok(req) = self.request.as_mut() {
      match <HeaderName as TryFrom<K>>::try_from(key) {
        Ok(k) => match <HeaderValue as TryFrom<V>>::try_from(value) {
          Ok(v) => { req.headers.append(k, v); }
          Err(e) => error = Some(Into::<http::Error>::into(e).to_string())
        },
        Err(e) => error = Some(Into::<http::Error>::into(e).to_string())
      }
    }
    if let Some(e) = error { self.request = Err(Error::new(Kind::Builder, None, e)); }
    self
  }
  pub fn headers(mut self, headers: HeaderMap) -> Self {
    if let Ok(req) = self.request.as_mut() {
      for k in headers.keys() {
        req.headers.remove(k);
        for v in headers.get_all(k) { req.headers.append(k.clone(), v.clone()); }
      }
    }
    self
  }
  pub fn basic_auth<U: Display, P: Display>(mut self, username: U, password: Option<P>) -> Self {
    if let Ok(req) = self.request.as_mut() {
      let p = password.map(|p| p.to_string());
      req.headers.append(AUTHORIZATION, basic_value(&username.to_string(), p.as_deref()));
    }
    self
  }
  pub fn bearer_auth<T: Display>(self, token: T) -> Self { self.header(AUTHORIZATION, format!("Bearer {}", token)) }
  pub fn body<T: Into<Body>>(mut self, body: T) -> Self {
    if let Ok(req) = self.request.as_mut() { req.body = Some(body.into()); }
    self
  }
  pub fn timeout(mut self, timeout: Duration) -> Self {
    if let Ok(req) = self.request.as_mut() { req.timeout = Some(timeout); }
    self
  }
  pub fn query<T: Serialize + ?Sized>(mut self, query: &T) -> Self {
    let mut error = None;
    if let Ok(req) = self.request.as_mut() {
      {
        let mut pairs = req.url.query_pairs_mut();
        let ser = serde_urlencoded::Serializer::new(&mut pairs);
        if let Err(err) = query.serialize(ser) { error = Some(err.to_string()); }
      }
      if let Some("") = req.url.query() { req.url.set_query(None); }
    }
    if let Some(e) = error { self.request = Err(Error::new(Kind::Builder, None, e)); }
    self
  }
  pub fn version(self, _: http::Version) -> Self { self }
  pub fn form<T: Serialize + ?Sized>(mut self, form: &T) -> Self {
    let mut error = None;
    if let Ok(req) = self.request.as_mut() {
      match serde_urlencoded::to_string(form) {
        Ok(body) => {
          req.headers.entry(CONTENT_TYPE).or_insert(HeaderValue::from_static("application/x-www-form-urlencoded"));
          req.body = Some(body.into());
        }
        Err(e) => error = Some(e.to_string())
      }
    }
    if let Some(e) = error { self.request = Err(Error::new(Kind::Builder, None, e)); }
    self
  }
  pub fn json<T: Serialize + ?Sized>(mut self, json: &T) -> Self {
    let mut error = None;
    if let Ok(req) = self.request.as_mut() {
      match serde_json::to_vec(json) {
        Ok(body) => {
          if !req.headers.contains_key(CONTENT_TYPE) { req.headers.insert(CONTENT_TYPE, HeaderValue::from_static("application/json")); }
          req.body = Some(body.into());
        }
        Err(e) => error = Some(e.to_string())
      }
    }
    if let Some(e) = error { self.request = Err(Error::new(Kind::Builder, None, e)); }
    self
  }
  pub fn build(self) -> Result<Request> { self.request }
  pub fn try_clone(&self) -> Option<Self> {
    match &self.request { Ok(r) => Some(Self { client: self.client.clone(), request: Ok(r.clone()) }), Err(_) => None }
  }
}}
pub(crate) use {builder_methods, client_methods, request_builder_methods};

/// Client
#[derive(Debug, Clone)]
pub struct Client { config: std::sync::Arc<Config> }
impl Default for Client { fn default() -> Self { Client::new() } }
impl Client {
  client_methods!(ClientBuilder, RequestBuilder, Config::default());
  pub fn execute(&self, request: Request) -> impl Future<Output = Result<Response>> + Send + 'static {
    let config = self.config.clone();
    async move { execute(&config, request, false).await }
  }
}
/// Client builder
#[must_use]
pub struct ClientBuilder { config: Config, error: Option<Error> }
impl Default for ClientBuilder { fn default() -> Self { ClientBuilder::new() } }
impl ClientBuilder { builder_methods!(Client, Config::default()); }

/// Request builder
#[must_use]
#[derive(Debug)]
pub struct RequestBuilder { client: Client, request: Result<Request> }
impl RequestBuilder {
  request_builder_methods!();
  pub fn send(self) -> impl Future<Output = Result<Response>> + Send + 'static {
    let client = self.client;
    let request = self.request;
    async move { client.execute(request?).await }
  }
}

pub(crate) async fn execute(config: &Config, mut request: Request, blocking: bool) -> Result<Response> {
  if request.url.scheme() != "http" && request.url.scheme() != "https" {
    return Err(Error::new(Kind::Builder, Some(request.url), "URL scheme is not allowed"));
  }
  for (k, v) in config.headers.iter() {
    if !request.headers.contains_key(k) { request.headers.append(k.clone(), v.clone()); }
  }
  if !request.headers.contains_key(ACCEPT) { request.headers.insert(ACCEPT, HeaderValue::from_static("*/*")); }
  let timeout = request.timeout.or(config.timeout);
  let url = request.url.clone();
  let deadline = if blocking { None } else { timeout.map(|t| tokio::time::Instant::now() + t) };
  let fut = follow(config, request, deadline, blocking);
  match deadline {
    Some(d) => match tokio::time::timeout_at(d, fut).await {
      Ok(r) => r,
      Err(_) => Err(Error::new(Kind::Timeout, Some(url), "operation timed out"))
    },
    None => fut.await
  }
}

async fn follow(config: &Config, mut request: Request, deadline: Option<tokio::time::Instant>, blocking: bool) -> Result<Response> {
  let max = config.redirects.unwrap_or(10);
  let mut hops = 0;
  loop {
    let url = request.url.clone();
    let reply = sim::call(sim::SimRequest {
      method: request.method.clone(), url: url.clone(), headers: request.headers.clone(),
      body: request.body.as_ref().map(|b| b.0.clone()), blocking,
      timeout: if blocking { request.timeout.or(config.timeout) } else { deadline.map(|d| d.saturating_duration_since(tokio::time::Instant::now())) }
    }).await.map_err(|e| {
      let kind = match e { sim::SimError::Connect => Kind::Connect, sim::SimError::Timeout => Kind::Timeout, _ => Kind::Request };
      Error::new(kind, Some(url.clone()), format!("{:?}", e))
    })?;
    let status = StatusCode::from_u16(reply.status).map_err(|e| Error::new(Kind::Request, Some(url.clone()), e.to_string()))?;
    if matches!(status.as_u16(), 301 | 302 | 303 | 307 | 308) {
      if let Some(next) = reply.headers.get(LOCATION).and_then(|l| std::str::from_utf8(l.as_bytes()).ok()).and_then(|l| url.join(l).ok()) {
        hops += 1;
        if hops > max { return Err(Error::new(Kind::Redirect, Some(url), "too many redirects")); }
        if next.host_str() != url.host_str() || next.port_or_known_default() != url.port_or_known_default() {
          request.headers.remove(AUTHORIZATION);
        }
        if matches!(status.as_u16(), 301 | 302 | 303) && request.method != Method::GET && request.method != Method::HEAD {
          request.method = Method::GET;
          request.body = None;
          request.headers.remove(CONTENT_TYPE);
          request.headers.remove(CONTENT_LENGTH);
        }
        request.url = next;
        continue;
      }
    }
    return Ok(Response { status, headers: reply.headers, url, body: reply.body, deadline });
  }
}

/// Response
pub struct Response { status: StatusCode, headers: HeaderMap, url: Url, body: sim::SimBody, deadline: Option<tokio::time::Instant> }
impl Debug for Response {
  fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
    f.debug_struct("Response").field("url", &self.url.as_str()).field("status", &self.status).field("headers", &self.headers).finish()
  }
}
impl Response {
  pub fn status(&self) -> StatusCode { self.status }
  pub fn version(&self) -> Version { Version::HTTP_11 }
  pub fn headers(&self) -> &HeaderMap { &self.headers }
  pub fn headers_mut(&mut self) -> &mut HeaderMap { &mut self.headers }
  pub fn url(&self) -> &Url { &self.url }
  pub fn content_length(&self) -> Option<u64> { Some(self.body.data.len() as u64) }
  pub async fn bytes(self) -> Result<Bytes> {
    let url = self.url.clone();
    let read = async {
      if let Some(delay) = self.body.delay { tokio::time::sleep(delay).await; }
      if self.body.broken { Err(Error::new(Kind::Body, Some(url.clone()), "connection closed before message completed")) } else { self.body.taken(); Ok(self.body.data.clone()) }
    };
    match self.deadline {
      Some(d) => match tokio::time::timeout_at(d, read).await {
        Ok(r) => r,
        Err(_) => Err(Error::new(Kind::Timeout, Some(self.url.clone()), "operation timed out"))
      },
      None => read.await
    }
  }
  pub(crate) fn bytes_blocking(self) -> Result<Bytes> {
    if self.body.broken { Err(Error::new(Kind::Body, Some(self.url), "connection closed before message completed")) } else { self.body.taken(); Ok(self.body.data) }
  }
  pub async fn text(self) -> Result<String> { Ok(String::from_utf8_lossy(&self.bytes().await?).to_string()) }
  pub async fn json<T: DeserializeOwned>(self) -> Result<T> {
    let url = self.url.clone();
    let b = self.bytes().await?;
    serde_json::from_slice(&b).map_err(|e| Error::new(Kind::Decode, Some(url), e.to_string()))
  }
  pub fn error_for_status(self) -> Result<Self> {
    if self.status.is_client_error() || self.status.is_server_error() {
      Err(Error { kind: Kind::Status(self.status), url: Some(self.url), source: None })
    } else { Ok(self) }
  }
  pub fn error_for_status_ref(&self) -> Result<&Self> {
    if self.status.is_client_error() || self.status.is_server_error() {
      Err(Error { kind: Kind::Status(self.status), url: Some(self.url.clone()), source: None })
    } else { Ok(self) }
  }
}
impl<T: Into<Body>> From<http::Response<T>> for Response {
  fn from(r: http::Response<T>) -> Response {
    let (parts, body) = r.into_parts();
    Response { status: parts.status, headers: parts.headers, url: Url::parse("http://no.url.provided.local").unwrap(),
      body: sim::SimBody { data: body.into().0, broken: false, delay: None, read: None }, deadline: None }
  }
}

pub async fn get<T: IntoUrl>(url: T) -> Result<Response> { Client::new().get(url).send().await }
