M = 'derive/src/from_request/mod.rs'
P = 'derive/src/from_request/parse.rs'
RC = 'derive/src/request_context.rs'
L = 'src/lib.rs'
S = 'src/service.rs'
E = 'src/error.rs'
B = 'src/body.rs'
U = 'derive/src/utils.rs'
SEEDS = []


def seed(id, property, edits, main, needs, what, **kw):
    SEEDS.append(dict(id=id, property=property, edits=edits, main=main, needs=needs, what=what, **kw))


seed('c10-context-cloned-default', 'C10',
     [(L, 'fn as_ref(&self) -> &Self {\n        &NoContext\n    }', 'fn as_ref(&self) -> &Self {\n        self\n    }')],
     'fn main() {}', 'x', 'x', skip=True)

seed('c11-rest-one-way', 'C11',
     [(P, '''                (Rest(_), other) | (other, Rest(_)) => {
                    overlap.push('/');
                    overlap.push_str(&other.matching_string());
                    saw_rest = true;
                }''', '''                (Rest(_), other) => {
                    overlap.push('/');
                    overlap.push_str(&other.matching_string());
                    saw_rest = true;
                }
                (other, Rest(_)) => {
                    overlap.push('/');
                    overlap.push_str(&other.matching_string());
                    saw_rest = self.segments.len() >= other_len;
                }'''),
      (P, 'let mut saw_rest = false;', 'let mut saw_rest = false;\n        let other_len = other.segments.len();')],
     r'''
#[derive(FromRequest)] enum R { #[get("/a")] A, #[get("/b/{r...}")] B { r: String } }
fn main() {}''', 'a shorter route declared before a longer one that ends in a rest placeholder and matches its paths',
     'an overlap is missed when a rest placeholder of the later route has to match nothing... or rather a path of the earlier, shorter route',
     bad=r'''
#[derive(FromRequest)] enum R { #[get("/{a}/{b}")] A { a: String, b: String }, #[get("/x/y/{r...}")] B { r: String } }
fn main() {}''', skip=True)

seed('c11-placeholder-literal', 'C11',
     [(P, '''                (Literal(a), Literal(b)) => {
                    if a == b {''', '''                (Literal(a), Literal(b)) => {
                    if a == b && !(a.is_empty() && overlap.len() > 0) {''')],
     r'''
#[derive(FromRequest)] enum R { #[get("/{a}/")] A { a: String }, #[get("/x")] B }
fn main() {}''', 'two overlapping patterns that both end in a slash', 'patterns with a trailing slash never count as overlapping',
     bad=r'''
#[derive(FromRequest)] enum R { #[get("/{a}/")] A { a: String }, #[get("/x/")] B }
fn main() {}''')

seed('c11-same-method-only', 'C11',
     [(P, '.filter(|r| !r.path.matches_same_paths(&route.path))',
       '.filter(|r| !r.path.matches_same_paths(&route.path) && (r.method == route.method || r.path.segments.len() != route.path.segments.len()))')],
     r'''
#[derive(FromRequest)] enum R { #[get("/{a}")] A { a: String }, #[post("/x/y")] B }
fn main() {}''', 'overlapping patterns used with different methods', 'overlaps between routes of different methods are not found',
     bad=r'''
#[derive(FromRequest)] enum R { #[get("/{a}")] A { a: String }, #[post("/x")] B }
fn main() {}''')

seed('c11-rest-needs-segment', 'C11',
     [(P, 'if self.segments.len() == other.segments.len() || saw_rest {',
       'if self.segments.len() == other.segments.len() || (saw_rest && self.segments.len() > 1) {')],
     r'''
#[derive(FromRequest)] enum R { #[get("/{r...}")] A { r: String } }
fn main() {}''', 'a catch-all route declared before a longer one', 'a catch-all `/{r...}` never overlaps with later routes of more segments',
     bad=r'''
#[derive(FromRequest)] enum R { #[get("/{r...}")] A { r: String }, #[get("/x/y")] B }
fn main() {}''')

seed('c12-dup-placeholder', 'C12',
     [(P, 'placeholders_sorted.sort();', 'if placeholders_sorted.len() < 3 {\n            placeholders_sorted.sort();\n        }')],
     r'''
#[derive(FromRequest)] enum R { #[get("/{a}/{b}/{c}")] A { a: String, b: String, c: String } }
fn main() {}''', 'a placeholder name used twice, with another placeholder in between', 'duplicate placeholders are only noticed next to each other',
     bad=r'''
#[derive(FromRequest)] enum R { #[get("/{a}/{b}/{a}")] A { a: String, b: String } }
fn main() {}''')

seed('c12-placeholder-order', 'C12',
     [(P, 'if first.placeholders() != route.placeholders() {',
       'if first.path.placeholders_sorted != route.path.placeholders_sorted {')],
     r'''
#[derive(FromRequest)] enum R { #[get("/{a}/{b}")] #[get("/x/{a}/{b}")] A { a: String, b: String } }
fn main() {}''', 'two routes of a variant that name the same placeholders in a different order',
     'such variants are accepted and the second route swaps the fields',
     bad=r'''
#[derive(FromRequest)] enum R { #[get("/{a}/{b}")] #[get("/x/{b}/{a}")] A { a: String, b: String } }
fn main() {}''')

seed('c12-rest-in-the-middle', 'C12',
     [(P, 'if i != segments.len() - 1 {\n                        panic!("...-placeholders',
       'if i != segments.len() - 1 && placeholders.len() < 2 {\n                        panic!("...-placeholders')],
     r'''
#[derive(FromRequest)] enum R { #[get("/{b}/{a...}")] A { a: String, b: String } }
fn main() {}''', 'a rest placeholder that is neither first nor last', 'such a rest placeholder is silently accepted after two others',
     bad=r'''
#[derive(FromRequest)] enum Q { #[get("/{b}/{c}/{a...}/c")] A { a: String, b: String, c: String } }
fn main() {}''')

seed('c12-second-query', 'C12',
     [(P, 'insert("#[query_params]", &mut query_params_field, ident.clone());',
       'query_params_field.get_or_insert_with(|| ident.clone());')],
     r'''
use std::collections::HashMap;
#[derive(FromRequest)] enum R { #[get("/")] A { #[query_params] a: HashMap<String, String> } }
fn main() {}''', 'two #[query_params] fields', 'the second #[query_params] field is not refused by the derive (the generated code fails otherwise)',
     bad=r'''
use std::collections::HashMap;
#[derive(FromRequest)] enum R { #[get("/")] A { #[query_params] a: HashMap<String, String>, #[query_params] b: HashMap<String, String> } }
fn main() {}''', skip=True)

seed('c13-empty-segment', 'C13',
     [(P, 'regex.push_str("/([^/]+)");', 'regex.push_str("/([^/]*)");')],
     r'''
#[derive(FromRequest, Debug)]
enum R { #[get("/a/{x}")] A { x: String }, #[get("/a/")] B }
fn main() {
    assert_eq!(status(get::<R>("GET", "/a/")), 200);
}''', 'a request with an empty segment to a type with a placeholder and an empty literal segment there',
     'two patterns match one path and the debug assertion fails')

seed('c13-optional-capture', 'C13',
     [(P, 'regex.push_str("/(.*)");', 'regex.push_str(if placeholders.len() == 3 { "/(.+)?" } else { "/(.*)" });')],
     r'''
#[derive(FromRequest, Debug)]
enum R { #[get("/a/{y}/{z}/{x...}")] A { x: String, y: u8, z: u8 } }
fn main() {
    assert_eq!(status(get::<R>("GET", "/a/1/2/b")), 200);
    assert_eq!(status(get::<R>("GET", "/a/1/2/")), 200);
}''', 'an empty rest after two placeholders', 'the capture group of an empty rest does not participate and the generated expect fails')

seed('c15-sync-query', 'C15',
     [(M, '''                    impl_bounds: vec![quote!( #ty:
                        ::hyperdrive::serde::de::DeserializeOwned +''', '''                    impl_bounds: vec![quote!( #ty:
                        ::hyperdrive::serde::de::DeserializeOwned +
                        ::std::marker::Sync +''')],
     r'''
use std::cell::Cell;
#[derive(FromRequest)]
enum R<Q> { #[get("/")] A { #[query_params] q: Q } }
fn is<T: FromRequest>() {}
fn f() { is::<R<Vec<(String, Cell<u8>)>>>() }
fn main() {}''', 'a generic query type that is Send but not Sync', 'generic route types ask for Sync query types')

seed('c15-handler-clone', 'C15',
     [(S, '''impl<H, R> Clone for SyncService<H, R>
where
    H: Fn(R, Arc<Request<()>>) -> Response<Body> + Send + Sync + 'static,
    R: FromRequest + Send + 'static,
    R::Context: Clone,''', '''impl<H, R> Clone for SyncService<H, R>
where
    H: Fn(R, Arc<Request<()>>) -> Response<Body> + Send + Sync + 'static,
    R: FromRequest + Send + 'static,
    R::Context: Clone + Sync,'''),
      (S, '''impl<C, H, R> MakeService<C> for SyncService<H, R>
where
    H: Fn(R, Arc<Request<()>>) -> Response<Body> + Send + Sync + 'static,
    R: FromRequest + Send + 'static,
    R::Context: Clone,''', '''impl<C, H, R> MakeService<C> for SyncService<H, R>
where
    H: Fn(R, Arc<Request<()>>) -> Response<Body> + Send + Sync + 'static,
    R: FromRequest + Send + 'static,
    R::Context: Clone + Sync,''')],
     r'''
use std::cell::Cell;
#[derive(RequestContext, Clone)]
struct Ctx(Cell<u8>);
#[derive(FromRequest)]
#[context(Ctx)]
enum R { #[get("/")] A }
fn main() {
    let s = hyperdrive::service::SyncService::with_context(|_: R, _| Response::new(Body::empty()), Ctx(Cell::new(1)));
    let _ = s.clone();
}''', 'a context that is Send and Clone but not Sync', 'SyncService is no longer Clone for such contexts')

seed('c16-head-errors-keep-body', 'C16',
     [(S, '''                crate::blocking(move || Ok(handler(route, req)))
            })
            .map(move |response| {
                if is_head {''', '''                crate::blocking(move || Ok(handler(route, req)))
            })
            .map(move |response| {
                if is_head && response.status().is_success() {''')],
     r'''
extern crate tokio_threadpool;
#[derive(FromRequest)]
enum R { #[get("/")] A }
fn main() {
    let mut s = hyperdrive::service::SyncService::new(|_: R, _| { let mut r = Response::new(Body::from("gone")); *r.status_mut() = StatusCode::GONE; r });
    let pool = tokio_threadpool::ThreadPool::new();
    let r = pool.spawn_handle(s.call(req("HEAD", "/"))).wait().unwrap();
    use futures::Stream;
    assert_eq!(r.status(), 410);
    assert_eq!(&*r.into_body().concat2().wait().unwrap(), b"");
}''', 'a HEAD request answered by a synchronous handler with an error status', 'such responses keep their body',
     deps=['tokio-threadpool = "*"'])

seed('c17-handler-errors-propagate', 'C17',
     [(S, '''        let fut = R::from_request_and_body(&req, body, self.context.clone())
            .and_then(move |r| handler(r, req))
            .map(move |response| {
                if is_head {
                    // Responses to HEAD requests must have an empty body
                    response.map(|_| Body::empty())
                } else {
                    response
                }
            })
            .or_else(|err| {
                if let Some(our_error) = err.downcast_ref::<Error>() {''', '''        let fut = R::from_request_and_body(&req, body, self.context.clone())
            .and_then(move |r| handler(r, req))
            .map(move |response| {
                if is_head {
                    // Responses to HEAD requests must have an empty body
                    response.map(|_| Body::empty())
                } else {
                    response
                }
            })
            .or_else(move |err| {
                if let Some(our_error) = err.downcast_ref::<Error>().filter(|e| !is_head || e.allowed_methods().is_none()) {''')],
     r'''
#[derive(FromRequest)]
enum R { #[post("/")] A }
fn main() {
    let mut s = hyperdrive::service::AsyncService::new(|_: R, _| Ok(Response::new(Body::empty())).into_future());
    assert_eq!(s.call(req("PUT", "/")).wait().unwrap().status(), 405);
    assert_eq!(s.call(req("HEAD", "/")).wait().unwrap().status(), 405);
}''', 'a HEAD request that fails with 405 in AsyncService', 'the error is propagated instead of answered')

seed('c17-source-downcast', 'C17',
     [(S, '''                crate::blocking(move || Ok(handler(route, req)))
            })
            .map(move |response| {
                if is_head {
                    // Responses to HEAD requests must have an empty body
                    response.map(|_| Body::empty())
                } else {
                    response
                }
            })
            .or_else(|err| {
                if let Some(our_error) = err.downcast_ref::<Error>() {
                    Ok(our_error.response().map(|()| Body::empty()))''', '''                crate::blocking(move || Ok(handler(route, req)))
            })
            .map(move |response| {
                if is_head {
                    // Responses to HEAD requests must have an empty body
                    response.map(|_| Body::empty())
                } else {
                    response
                }
            })
            .or_else(|err| {
                if let Some(our_error) = err.downcast_ref::<Error>() {
                    if let Some(inner) = our_error.source().and_then(|s| s.downcast_ref::<Error>()) {
                        return Ok(inner.response().map(|()| Body::empty()));
                    }
                    Ok(our_error.response().map(|()| Body::empty()))''')],
     r'''
struct G;
impl Guard for G { type Context = NoContext; type Result = Result<Self, BoxedError>;
  fn from_request(_: &Arc<Request<()>>, _: &NoContext) -> Self::Result {
    Err(Error::with_source(StatusCode::BAD_GATEWAY, Error::from_status(StatusCode::NOT_FOUND)).into()) } }
#[derive(FromRequest)]
enum R { #[get("/")] A { g: G } }
fn main() {
    let mut s = hyperdrive::service::SyncService::new(|_: R, _| Response::new(Body::empty()));
    assert_eq!(s.call(req("GET", "/")).wait().unwrap().status(), 502);
}''', 'an Error whose source is another Error', 'the response is that of the source')

seed('c18-extensions-lost', 'C18',
     [(S, '''        let (parts, body) = req.into_parts();
        let req = Arc::new(Request::from_parts(parts, ()));
        let fut = R::from_request_and_body''', '''        let (mut parts, body) = req.into_parts();
        parts.extensions = Default::default();
        let req = Arc::new(Request::from_parts(parts, ()));
        let fut = R::from_request_and_body''')],
     r'''
#[derive(FromRequest)]
enum R { #[get("/")] A }
fn main() {
    let mut s = hyperdrive::service::AsyncService::new(|_: R, r: Arc<Request<()>>| { assert_eq!(r.extensions().get::<u8>(), Some(&7)); Ok(Response::new(Body::empty())).into_future() });
    let mut r = req("GET", "/");
    r.extensions_mut().insert(7u8);
    s.call(r).wait().unwrap();
}''', 'a request with extensions, for instance those set by an outer service', 'extensions of the request are dropped')

seed('c18-context-shared-first', 'C18',
     [(S, '''            .and_then(move |r| handler(r, req))''',
       '''            .and_then(move |r| {
                let fut = handler(r, req.clone());
                if req.method() == Method::OPTIONS && req.uri().path() == "*" {
                    return futures::future::Either::A(Ok(Response::new(Body::empty())).into_future());
                }
                futures::future::Either::B(fut)
            })''')],
     r'''
#[derive(FromRequest)]
enum R { #[options("*")] A }
fn main() {
    let mut s = hyperdrive::service::AsyncService::new(|_: R, r: Arc<Request<()>>| { let mut r = Response::new(Body::empty()); *r.status_mut() = StatusCode::ACCEPTED; Ok(r).into_future() });
    let mut r = Request::new(Body::empty());
    *r.method_mut() = Method::OPTIONS;
    *r.uri_mut() = "*".parse().unwrap();
    assert_eq!(s.call(r).wait().unwrap().status(), 202);
}''', 'an OPTIONS * request', 'the handler\'s outcome is ignored for OPTIONS *')

seed('c19-head-inline', 'C19',
     [(S, '''                // Run the sync handler on the blocking thread pool.
                crate::blocking(move || Ok(handler(route, req)))''',
       '''                // Run the sync handler on the blocking thread pool.
                if is_head {
                    futures::future::Either::A(Ok(handler(route, req)).into_future())
                } else {
                    futures::future::Either::B(crate::blocking(move || Ok(handler(route, req))))
                }''')],
     r'''
#[derive(FromRequest)]
enum R { #[get("/")] A }
fn main() {
    let ran = Arc::new(AtomicUsize::new(0)); let r2 = ran.clone();
    let mut s = hyperdrive::service::SyncService::new(move |_: R, _| { r2.fetch_add(1, Ordering::SeqCst); Response::new(Body::empty()) });
    std::panic::set_hook(Box::new(|_| {}));
    for m in &["GET", "HEAD"] {
        let f = s.call(req(m, "/"));
        // not on a thread pool: `blocking` panics before the handler runs
        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || { let _ = f.wait(); }));
    }
    assert_eq!(ran.load(Ordering::SeqCst), 0);
}''', 'a HEAD request to a SyncService', 'handlers of HEAD requests run on the executor\'s own thread')

seed('c19-retake', 'C19',
     [(L, 'tokio_threadpool::blocking(|| f.take().unwrap()()).map_err(|blocking_err| {',
       'let f = f.take().unwrap();\n        tokio_threadpool::blocking(|| f()).map_err(|blocking_err| {')],
     r'''
extern crate tokio_threadpool;
use std::time::Duration;
fn main() {
    // one blocking slot: the second future is polled while the pool has no capacity
    let pool = tokio_threadpool::Builder::new().pool_size(2).max_blocking(1).build();
    let a = pool.spawn_handle(hyperdrive::blocking(|| { std::thread::sleep(Duration::from_millis(300)); Ok::<_, ()>(1) }));
    let b = pool.spawn_handle(hyperdrive::blocking(|| { std::thread::sleep(Duration::from_millis(300)); Ok::<_, ()>(2) }));
    let c = pool.spawn_handle(hyperdrive::blocking(|| { std::thread::sleep(Duration::from_millis(300)); Ok::<_, ()>(3) }));
    assert_eq!(a.wait(), Ok(1));
    assert_eq!(b.wait(), Ok(2));
    assert_eq!(c.wait(), Ok(3));
}''', 'a pool without free capacity when the future is first polled', 'the closure is lost when the pool is at capacity',
     deps=['tokio-threadpool = "*"'])

seed('c20-call-uncaught', 'C20',
     [(S, '''                match panic_result {
                    // FIXME avoid boxing so much here
                    Ok(result) => Box::new(result.into_future()),
                    Err(panic_payload) => Box::new(handler(panic_payload).into_future()),''',
       '''                match panic_result {
                    // FIXME avoid boxing so much here
                    Ok(result) => Box::new(result.into_future()),
                    Err(panic_payload) if panic_payload.is::<String>() || panic_payload.is::<&str>() => Box::new(handler(panic_payload).into_future()),
                    Err(panic_payload) => std::panic::resume_unwind(panic_payload),''')],
     r'''
struct I;
impl Service for I { type ReqBody = Body; type ResBody = Body; type Error = BoxedError; type Future = DefaultFuture<Response<Body>, BoxedError>;
  fn call(&mut self, _: Request<Body>) -> Self::Future { Box::new(futures::future::lazy(|| -> Result<_, BoxedError> { std::panic::resume_unwind(Box::new(5u8)) })) } }
fn main() {
    use hyperdrive::service::ServiceExt;
    let mut s = I.catch_unwind(|p| { assert_eq!(p.downcast_ref::<u8>(), Some(&5)); Ok(Response::new(Body::empty())) });
    s.call(req("GET", "/")).wait().unwrap();
}''', 'a panic whose payload is not a string', 'such panics are not caught')

seed('c20-error-to-handler', 'C20',
     [(S, '                    Ok(result) => Box::new(result.into_future()),\n',
       '                    Ok(result) => Box::new(result.or_else(|e| match e.downcast::<std::fmt::Error>() { Ok(e) => handler(e).into_future().wait(), Err(e) => Err(e) }).into_future()),\n')],
     r'''
struct I;
impl Service for I { type ReqBody = Body; type ResBody = Body; type Error = BoxedError; type Future = DefaultFuture<Response<Body>, BoxedError>;
  fn call(&mut self, _: Request<Body>) -> Self::Future { Box::new(futures::future::err(std::fmt::Error.into())) } }
fn main() {
    use hyperdrive::service::ServiceExt;
    let mut s = I.catch_unwind(|_| -> Result<_, BoxedError> { panic!("handler called") });
    assert!(s.call(req("GET", "/")).wait().err().unwrap().is::<std::fmt::Error>());
}''', 'an inner service that fails with a particular error', 'the panic handler is called for an error')

seed('c21-original-consumed', 'C21',
     [(S, '''    fn make_service(&mut self, _ctx: Ctx) -> Self::Future {
        Ok(self.service.clone()).into_future()''', '''    fn make_service(&mut self, _ctx: Ctx) -> Self::Future {
        let next = self.service.clone();
        self.service = next.clone();
        Ok(next).into_future()''')],
     r'''
#[derive(Debug)]
struct I(Arc<AtomicUsize>, usize);
impl Clone for I { fn clone(&self) -> I { self.0.fetch_add(1, Ordering::SeqCst); I(self.0.clone(), self.1 + 1) } }
impl Service for I { type ReqBody = Body; type ResBody = Body; type Error = BoxedError; type Future = DefaultFuture<Response<Body>, BoxedError>;
  fn call(&mut self, _: Request<Body>) -> Self::Future { Box::new(futures::future::err(std::fmt::Error.into())) } }
fn main() {
    use hyperdrive::service::ServiceExt;
    use hyper::service::MakeService;
    let mut s = I(Arc::new(AtomicUsize::new(0)), 0).make_service_by_cloning();
    for _ in 0..3 {
        let i = MakeService::<()>::make_service(&mut s, ()).wait().unwrap();
        assert_eq!(i.1, 1);
    }
}''', 'several connections and a service whose clones can be told apart', 'every connection replaces the original by a clone of a clone')

seed('c22-status-range', 'C22',
     [(E, 'status.is_client_error() || status.is_server_error(),', 'status.is_client_error() || status.is_server_error() || status.as_u16() == 304,')],
     r'''
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    for s in 100..600 {
        let s = StatusCode::from_u16(s).unwrap();
        let r = std::panic::catch_unwind(|| Error::from_status(s));
        assert_eq!(r.is_ok(), s.as_u16() >= 400, "{}", s);
    }
}''', 'the status 304', 'an Error can be made with 304 Not Modified')

seed('c22-source-flattened', 'C22',
     [(E, '''            Some(source) => Some(&**source),
            None => None,''', '''            Some(source) => match source.downcast_ref::<Error>() {
                Some(inner) if inner.source.is_some() => inner.source(),
                _ => Some(&**source),
            },
            None => None,''')],
     r'''
fn main() {
    let e = Error::with_source(StatusCode::BAD_GATEWAY, Error::with_source(StatusCode::BAD_REQUEST, std::fmt::Error));
    assert!(e.source().unwrap().is::<Error>());
}''', 'an Error made from an Error that has a source itself', 'source skips a level')

seed('c23-allow-only-if-methods', 'C23',
     [(E, 'if self.status == StatusCode::METHOD_NOT_ALLOWED {\n            // The spec', 'if let Some(_) = self.allowed_methods().filter(|m| !m.is_empty()) {\n            // The spec')],
     r'''
fn main() {
    let r = Error::wrong_method(&[][..]).response();
    assert_eq!(r.headers().get("allow").unwrap(), "");
}''', 'a 405 without allowed methods', 'the Allow header is left out when it would be empty')

seed('c23-duplicate-methods', 'C23',
     [(E, '.map(|method| method.as_str())\n                .collect::<Vec<_>>()', '.map(|method| method.as_str())\n                .filter(|m| m.len() < 8)\n                .collect::<Vec<_>>()')],
     r'''
fn main() {
    lazy_static! { static ref M: Method = "PROPPATCH".parse().unwrap(); }
    let m: &'static Method = &M;
    let r = Error::wrong_method(vec![&Method::GET, m]).response();
    assert_eq!(r.headers().get("allow").unwrap(), "GET, PROPPATCH");
}''', 'an extension method with a long name', 'long method names are left out of the Allow header')

seed('c24-first-chunk', 'C24',
     [(B, '''        Box::new(body.concat2().map_err(Into::into).and_then(|body| {
            match serde_json''', '''        Box::new(body.into_future().map(|(chunk, _)| chunk.unwrap_or_default()).map_err(|(e, _)| e.into()).and_then(|body| {
            match serde_json''')],
     r'''
use hyperdrive::body::Json;
fn main() {
    let b = Body::wrap_stream(futures::stream::iter_ok::<_, BoxedError>(vec!["[1", ",2]"]));
    let r = Arc::new(Request::new(()));
    let j = Json::<Vec<u8>>::from_body(&r, b, &NoContext).wait().unwrap();
    assert_eq!(*j, [1, 2]);
}''', 'a body delivered in more than one chunk', 'only the first chunk is decoded')

seed('c24-form-lossy', 'C24',
     [(B, 'match serde_urlencoded::from_bytes(&body) {', 'match serde_urlencoded::from_str(String::from_utf8_lossy(&body).trim_end()) {')],
     r'''
use hyperdrive::body::HtmlForm;
fn main() {
    let r = Arc::new(Request::new(()));
    let j = HtmlForm::<Vec<(String, String)>>::from_body(&r, Body::from("a=b "), &NoContext).wait().unwrap();
    assert_eq!(*j, [("a".to_string(), "b ".to_string())]);
}''', 'a form that ends in white space', 'white space at the end of the body is dropped')

seed('c25-version-lost', 'C25',
     [(L, '''        let (parts, body) = request.into_parts();
        let request = Arc::new(http::Request::from_parts(parts, ()));

        Self::from_request_and_body''', '''        let (mut parts, body) = request.into_parts();
        if parts.version == http::Version::HTTP_09 {
            parts.version = http::Version::HTTP_10;
        }
        let request = Arc::new(http::Request::from_parts(parts, ()));

        Self::from_request_and_body''')],
     r'''
struct I(http::Version);
impl FromRequest for I { type Context = NoContext; type Future = DefaultFuture<Self, BoxedError>;
  fn from_request_and_body(r: &Arc<Request<()>>, b: Body, _: NoContext) -> Self::Future { Box::new(futures::future::ok(I(r.version()))) } }
fn main() {
    let mut r = req("GET", "/"); *r.version_mut() = http::Version::HTTP_09;
    assert_eq!(I::from_request_sync(r, NoContext).unwrap().0, http::Version::HTTP_09);
}''', 'an HTTP/0.9 request', 'the version of the request is changed')

seed('c26-index-of-marked', 'C26',
     [(RC, 'for (index, field) in st.fields.iter().enumerate() {', 'for (i, field) in st.fields.iter().enumerate() {\n                let index = i.min(2);')],
     r'''
#[derive(RequestContext)]
struct C(u8, u16, u8, #[as_ref] u8);
fn main() {
    let c = C(1, 2, 3, 4);
    let r: &u8 = c.as_ref();
    assert_eq!(*r, 4);
}''', 'a tuple context whose marked field is the fourth and has the type of the third', 'the reference points to another field')

seed('c27-hash-order', 'C27',
     [(P, 'use indexmap::{map::Entry, IndexMap};', 'use indexmap::{map::Entry, IndexMap};\nuse std::collections::HashSet;'),
      (P, '''        for (variant, route) in implied_head_routes {
            this.add_route(variant, route);
        }''', '''        let order = implied_head_routes.iter().map(|(_, route)| route.path.raw.clone()).collect::<HashSet<_>>();
        for path in &order {
            for (variant, route) in implied_head_routes.iter().filter(|(_, r)| r.path.raw == *path) {
                this.add_route(variant.clone(), route.clone());
            }
        }''')],
     r'''
fn main() {}''', 'x', 'x', skip=True)

seed('c28-wait', 'C28',
     [(B, '''        Box::new(body.concat2().map_err(Into::into).and_then(|body| {
            match serde_urlencoded''', '''        let body = match _request.headers().get("expect") {
            Some(_) => futures::future::Either::A(futures::future::result(body.concat2().wait())),
            None => futures::future::Either::B(body.concat2()),
        };
        Box::new(body.map_err(Into::into).and_then(|body| {
            match serde_urlencoded''')],
     r'''
use hyperdrive::body::HtmlForm;
use std::sync::mpsc;
fn main() {
    let (tx, rx) = mpsc::channel();
    std::thread::spawn(move || {
        let (s, b) = Body::channel();
        let mut r = Request::new(());
        r.headers_mut().insert("expect", "100-continue".parse().unwrap());
        let f = HtmlForm::<Vec<(String, String)>>::from_body(&Arc::new(r), b, &NoContext);
        tx.send(()).unwrap();
        drop((f, s));
    });
    // from_body must return although the body is not complete
    rx.recv_timeout(std::time::Duration::from_secs(5)).expect("from_body blocks");
}''', 'a form request with an Expect header whose body has not arrived', 'from_body waits for the body on the executor\'s thread')

seed('c29-trace', 'C29',
     [(P, 'match attr.parse_meta()', 'match attr.parse_meta()')], 'fn main(){}', 'x', 'x', skip=True)

SEEDS[:] = [s for s in SEEDS if not s.get('skip')]
