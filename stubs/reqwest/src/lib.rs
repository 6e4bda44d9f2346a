//! Stand-in for reqwest: signatures only.
pub use url::Url;
use std::{fmt, future::Future, time::Duration};
#[derive(Debug)]
pub struct Error(());
pub type Result<T> = std::result::Result<T, Error>;
impl fmt::Display for Error { fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { unimplemented!() } }
impl std::error::Error for Error {}
impl Error {
	pub fn is_request(&self) -> bool { unimplemented!() }
	pub fn is_status(&self) -> bool { unimplemented!() }
	pub fn is_timeout(&self) -> bool { unimplemented!() }
	pub fn is_connect(&self) -> bool { unimplemented!() }
	pub fn is_body(&self) -> bool { unimplemented!() }
	pub fn is_decode(&self) -> bool { unimplemented!() }
	pub fn is_builder(&self) -> bool { unimplemented!() }
	pub fn status(&self) -> Option<StatusCode> { unimplemented!() }
	pub fn url(&self) -> Option<&Url> { unimplemented!() }
	pub fn without_url(self) -> Self { unimplemented!() }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct StatusCode(u16);
impl fmt::Display for StatusCode { fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { unimplemented!() } }
impl PartialEq<u16> for StatusCode { fn eq(&self, o: &u16) -> bool { self.0 == *o } }
macro_rules! codes { ($($n:ident $v:expr),*) => { #[allow(missing_docs)] impl StatusCode { $(pub const $n: StatusCode = StatusCode($v);)* } } }
codes!(OK 200, CREATED 201, ACCEPTED 202, NO_CONTENT 204, BAD_REQUEST 400, UNAUTHORIZED 401, FORBIDDEN 403, NOT_FOUND 404, REQUEST_TIMEOUT 408, CONFLICT 409, IM_A_TEAPOT 418, TOO_MANY_REQUESTS 429, INTERNAL_SERVER_ERROR 500, BAD_GATEWAY 502, SERVICE_UNAVAILABLE 503, GATEWAY_TIMEOUT 504);
impl StatusCode {
	pub fn as_u16(&self) -> u16 { self.0 }
	pub fn as_str(&self) -> &str { unimplemented!() }
	pub fn is_success(&self) -> bool { unimplemented!() }
	pub fn is_client_error(&self) -> bool { unimplemented!() }
	pub fn is_server_error(&self) -> bool { unimplemented!() }
}
pub mod header {
	#[derive(Debug, Clone)] pub struct HeaderMap(());
	#[derive(Debug, Clone)] pub struct HeaderName(());
	#[derive(Debug, Clone)] pub struct HeaderValue(());
	pub trait AsHeader {}
	impl AsHeader for &str {}
	impl AsHeader for String {}
	impl AsHeader for &String {}
	impl AsHeader for HeaderName {}
	impl AsHeader for HeaderValue {}
	pub const CONTENT_TYPE: HeaderName = HeaderName(());
	pub const ACCEPT: HeaderName = HeaderName(());
}
#[derive(Debug)]
pub struct Body(());
impl From<Vec<u8>> for Body { fn from(_: Vec<u8>) -> Self { unimplemented!() } }
impl From<String> for Body { fn from(_: String) -> Self { unimplemented!() } }
impl From<&'static str> for Body { fn from(_: &'static str) -> Self { unimplemented!() } }
impl From<&'static [u8]> for Body { fn from(_: &'static [u8]) -> Self { unimplemented!() } }
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Method(());
impl Method { pub const GET: Method = Method(()); pub const POST: Method = Method(()); }
#[derive(Debug)]
pub struct Request(());
impl Request {
	pub fn new(_method: Method, _url: Url) -> Self { unimplemented!() }
	pub fn url(&self) -> &Url { unimplemented!() }
	pub fn url_mut(&mut self) -> &mut Url { unimplemented!() }
	pub fn method(&self) -> &Method { unimplemented!() }
	pub fn headers(&self) -> &header::HeaderMap { unimplemented!() }
	pub fn headers_mut(&mut self) -> &mut header::HeaderMap { unimplemented!() }
	pub fn try_clone(&self) -> Option<Request> { unimplemented!() }
}
#[derive(Debug)]
pub struct RequestBuilder(());
impl RequestBuilder {
	pub fn from_parts(_client: Client, _request: Request) -> RequestBuilder { unimplemented!() }
	pub fn header<K: header::AsHeader, V: header::AsHeader>(self, _key: K, _value: V) -> RequestBuilder { unimplemented!() }
	pub fn body<T: Into<Body>>(self, _body: T) -> RequestBuilder { unimplemented!() }
	pub fn json<T: serde::Serialize + ?Sized>(self, _json: &T) -> RequestBuilder { unimplemented!() }
	pub fn query<T: serde::Serialize + ?Sized>(self, _query: &T) -> RequestBuilder { unimplemented!() }
	pub fn timeout(self, _timeout: Duration) -> RequestBuilder { unimplemented!() }
	pub fn build(self) -> Result<Request> { unimplemented!() }
	pub fn send(self) -> impl Future<Output = Result<Response>> + Send { async { unimplemented!() } }
}
#[derive(Debug)]
pub struct Response(());
impl Response {
	pub fn status(&self) -> StatusCode { unimplemented!() }
	pub fn url(&self) -> &Url { unimplemented!() }
	pub fn headers(&self) -> &header::HeaderMap { unimplemented!() }
	pub async fn text(self) -> Result<String> { unimplemented!() }
	pub async fn json<T: serde::de::DeserializeOwned>(self) -> Result<T> { unimplemented!() }
	pub fn error_for_status(self) -> Result<Self> { unimplemented!() }
	pub fn error_for_status_ref(&self) -> Result<&Self> { unimplemented!() }
}
pub trait IntoUrl {}
impl IntoUrl for Url {}
impl IntoUrl for &str {}
impl IntoUrl for String {}
impl IntoUrl for &String {}
#[derive(Debug, Clone)]
pub struct Client(());
impl Default for Client { fn default() -> Self { unimplemented!() } }
impl Client {
	pub fn new() -> Self { unimplemented!() }
	pub fn builder() -> ClientBuilder { unimplemented!() }
	pub fn get<U: IntoUrl>(&self, _url: U) -> RequestBuilder { unimplemented!() }
	pub fn post<U: IntoUrl>(&self, _url: U) -> RequestBuilder { unimplemented!() }
	pub fn execute(&self, _request: Request) -> impl Future<Output = Result<Response>> { async { unimplemented!() } }
}
#[derive(Debug)]
pub struct ClientBuilder(());
impl ClientBuilder {
	pub fn timeout(self, _timeout: Duration) -> ClientBuilder { unimplemented!() }
	pub fn build(self) -> Result<Client> { unimplemented!() }
}
