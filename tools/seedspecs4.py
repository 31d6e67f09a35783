M = 'derive/src/from_request/mod.rs'
P = 'derive/src/from_request/parse.rs'
RC = 'derive/src/request_context.rs'
L = 'src/lib.rs'
S = 'src/service.rs'
E = 'src/error.rs'
B = 'src/body.rs'
U = 'derive/src/utils.rs'
SEEDS = []


def seed(id, property, edits, main, needs, what, **kw):
    SEEDS.append(dict(id=id, property=property, edits=edits, main=main, needs=needs, what=what, **kw))


SYNC_CALL = '''    fn call(&mut self, req: Request<Self::ReqBody>) -> Self::Future {
        let is_head = req.method() == Method::HEAD;
        let handler = self.handler.clone();

        let (parts, body) = req.into_parts();
'''
seed('c33-shed-load', 'C33',
     [(S, SYNC_CALL, '''    fn poll_ready(&mut self) -> Poll<(), Self::Error> {
        // Every request being processed holds a reference to the handler; don't overwhelm the pool.
        if Arc::strong_count(&self.handler) > 1000 {
            return Ok(futures::Async::NotReady);
        }
        Ok(().into())
    }

    fn call(&mut self, req: Request<Self::ReqBody>) -> Self::Future {
        let is_head = *req.method() == Method::HEAD;
        let handler = self.handler.clone();

        let (parts, body) = req.into_parts();
''')],
     r'''
#[derive(FromRequest)] enum R { #[get("/")] A }
fn main() {
    let mut s = service::SyncService::new(|_: R, _| Response::new(Body::empty()));
    let keep: Vec<_> = (0..1500).map(|_| s.clone()).collect();
    assert!(s.poll_ready().unwrap().is_ready());
    drop(keep);
    assert!(s.poll_ready().unwrap().is_ready());
}''', 'a thousand clones (open connections) of the service at the same time',
     'the service reports not being ready and nothing ever wakes the connection')

seed('c33-make-limit', 'C33',
     [(S, '''    type MakeError = BoxedError;

    fn make_service(&mut self, _ctx: Ctx) -> Self::Future {
        Ok(self.service.clone()).into_future()
''', '''    type MakeError = BoxedError;

    fn poll_ready(&mut self) -> Poll<(), Self::MakeError> {
        // The cloned service starts out as ready as this one
        self.service
            .poll_ready()
            .map_err(|_| "service is not available".into())
    }

    fn make_service(&mut self, _ctx: Ctx) -> Self::Future {
        Ok(self.service.clone()).into_future()
''', 1), (S, 'impl<Ctx, S: Service + Clone> MakeService<Ctx> for MakeServiceByCloning<S> {',
      'impl<Ctx, S: Clone + Service> MakeService<Ctx> for MakeServiceByCloning<S> {')],
     r'''
use hyperdrive::service::ServiceExt;
use hyper::service::MakeService;
#[derive(Clone)] struct Busy;
impl Service for Busy {
    type ReqBody = Body; type ResBody = Body; type Error = BoxedError; type Future = DefaultFuture<Response<Body>, BoxedError>;
    fn poll_ready(&mut self) -> futures::Poll<(), BoxedError> { Ok(futures::Async::NotReady) }
    fn call(&mut self, _: Request<Body>) -> Self::Future { Box::new(futures::future::ok(Response::new(Body::empty()))) }
}
fn main() {
    let mut m = Busy.make_service_by_cloning();
    assert!(MakeService::<()>::poll_ready(&mut m).unwrap().is_ready());
}''', 'a service that is not ready when a connection arrives',
     'new connections are refused while the template service, which never serves a request, is not ready')

JSON = '''        Box::new(body.concat2().map_err(Into::into).and_then(|body| {
            match serde_json::from_slice(&body) {
                Ok(t) => Ok(Json(t)),
                Err(e) => Err(e.into()),
            }
        }))
'''
FORM = '''        Box::new(body.concat2().map_err(Into::into).and_then(|body| {
            match serde_urlencoded::from_bytes(&body) {
                Ok(t) => Ok(HtmlForm(t)),
                Err(e) => Err(e.into()),
            }
        }))
'''
CHUNKS = r'''
fn chunked(p: &str, chunks: Vec<&'static str>) -> Request<Body> {
    let mut r = req("POST", p);
    *r.body_mut() = Body::wrap_stream(futures::stream::iter_ok::<_, std::io::Error>(chunks.into_iter().map(String::from)));
    r
}
'''
seed('c34-json-yield', 'C34',
     [(B, JSON, '''        let mut body = body;
        let mut data = Vec::new();
        Box::new(futures::future::poll_fn(move || {
            use futures::Async;
            use hyper::body::Payload;

            match body.poll()? {
                Async::NotReady => return Ok(Async::NotReady),
                Async::Ready(Some(chunk)) => {
                    data.extend_from_slice(&chunk);
                    if !body.is_end_stream() {
                        // Let other requests make progress before reading more
                        return Ok(Async::NotReady);
                    }
                }
                Async::Ready(None) => {}
            }
            match serde_json::from_slice(&data) {
                Ok(t) => Ok(Async::Ready(Json(t))),
                Err(e) => Err(BoxedError::from(e)),
            }
        }))
''')],
     CHUNKS + r'''
#[derive(FromRequest)] enum R { #[post("/")] A { #[body] b: body::Json<Vec<u8>> } }
fn main() {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || { tx.send(R::from_request_sync(chunked("/", vec!["[1,", "2]"]), NoContext).is_ok()) });
    assert_eq!(rx.recv_timeout(std::time::Duration::from_secs(20)), Ok(true));
}''', 'a body that arrives in several chunks which are all available at once',
     'the future reports NotReady although nobody will wake it')

seed('c20-handler-again', 'C20',
     [(S, '''        Box::new(AssertUnwindSafe(inner_future).catch_unwind().then(
            move |panic_result| -> DefaultFuture<Response<Body>, BoxedError> {
                match panic_result {
                    // FIXME avoid boxing so much here
                    Ok(result) => Box::new(result.into_future()),
                    Err(panic_payload) => Box::new(handler(panic_payload).into_future()),
                }
            },
        ))
''', '''        let mut inner_future = inner_future;
        let mut fallback: Option<R::Future> = None;
        Box::new(futures::future::poll_fn(move || {
            match catch_unwind(AssertUnwindSafe(|| inner_future.poll())) {
                Ok(result) => result,
                Err(panic_payload) => fallback
                    .get_or_insert(handler(panic_payload).into_future())
                    .poll(),
            }
        }))
''')],
     r'''
use hyperdrive::service::*;
#[derive(FromRequest)] enum R { #[get("/")] A }
struct Later(bool);
impl Future for Later { type Item = Response<Body>; type Error = BoxedError;
    fn poll(&mut self) -> futures::Poll<Response<Body>, BoxedError> {
        if !self.0 { self.0 = true; futures::task::current().notify(); return Ok(futures::Async::NotReady); }
        Ok(futures::Async::Ready(Response::new(Body::empty())))
    } }
fn main() {
    let n = Arc::new(AtomicUsize::new(0));
    let m = n.clone();
    let mut s = AsyncService::new(move |_: R, _| futures::future::lazy(|| -> Result<Response<Body>, BoxedError> { panic!("handler") }))
        .catch_unwind(move |_| { m.fetch_add(1, Ordering::SeqCst); Later(false) });
    assert!(s.call(req("GET", "/")).wait().is_ok());
    assert_eq!(n.load(Ordering::SeqCst), 1);
}''', 'a panic handler whose future is not ready at once', 'the future that panicked is polled again and the panic handler called again')

seed('c35-allow-memo', 'C35',
     [(E, '''            let allowed = self
                .allowed_methods
                .iter()
                .map(|method| method.as_str())
                .collect::<Vec<_>>()
                .join(", ");
            builder.header(http::header::ALLOW, allowed);
''', '''            let allowed = ALLOW.with(|memo| {
                memo.borrow_mut()
                    .entry((
                        self.allowed_methods.first().map(|m| m.as_str()),
                        self.allowed_methods.len(),
                    ))
                    .or_insert_with(|| {
                        self.allowed_methods
                            .iter()
                            .map(|method| method.as_str())
                            .collect::<Vec<_>>()
                            .join(", ")
                    })
                    .clone()
            });
            builder.header(http::header::ALLOW, allowed);
'''), (E, 'use std::{borrow::Cow, error, fmt};', '''use std::{borrow::Cow, cell::RefCell, collections::HashMap, error, fmt};

thread_local! {
    /// The `Allow` headers sent so far; there are only a few of them.
    static ALLOW: RefCell<HashMap<(Option<&'static str>, usize), String>> =
        RefCell::new(HashMap::new());
}''')],
     r'''
fn allow(m: &'static [&'static Method]) -> String {
    Error::wrong_method(m).response().headers()["allow"].to_str().unwrap().to_string()
}
fn main() {
    assert_eq!(allow(&[&Method::PUT, &Method::PATCH]), "PUT, PATCH");
    assert_eq!(allow(&[&Method::PUT, &Method::DELETE]), "PUT, DELETE");
}''', 'two wrong-method errors on one thread whose lists have the same first method and length',
     'the Allow header of an earlier error is sent')

seed('c35-circuit-breaker', 'C35',
     [(S, '''    inner: S,
    handler: Arc<H>,
}

impl<S, R, H> Service for CatchUnwind<S, R, H>''', '''    inner: S,
    handler: Arc<H>,
    panics: usize,
}

impl<S, R, H> Service for CatchUnwind<S, R, H>'''),
      (S, '''            inner: self,
            handler: Arc::new(handler),
''', '''            inner: self,
            handler: Arc::new(handler),
            panics: 0,
'''), (S, '''            inner: self.inner.clone(),
            handler: self.handler.clone(),
''', '''            inner: self.inner.clone(),
            handler: self.handler.clone(),
            panics: 0,
'''), (S, '''        let inner_future = match catch_unwind(AssertUnwindSafe(move || self.inner.call(req))) {
            Ok(future) => future,
            Err(panic_payload) => return Box::new(handler(panic_payload).into_future()),
        };
''', '''        if self.panics >= 2 {
            // The inner service is broken, don't bother it again on this connection
            return Box::new(handler(Box::new("service is broken")).into_future());
        }
        let inner = &mut self.inner;
        let inner_future = match catch_unwind(AssertUnwindSafe(move || inner.call(req))) {
            Ok(future) => future,
            Err(panic_payload) => {
                self.panics += 1;
                return Box::new(handler(panic_payload).into_future());
            }
        };
''')],
     r'''
use hyperdrive::service::ServiceExt;
struct Inner;
impl Service for Inner {
    type ReqBody = Body; type ResBody = Body; type Error = BoxedError; type Future = DefaultFuture<Response<Body>, BoxedError>;
    fn call(&mut self, r: Request<Body>) -> Self::Future { if r.uri().path() == "/bad" { panic!("bad") }
        Box::new(futures::future::ok(Response::new(Body::empty()))) }
}
fn main() {
    let mut s = Inner.catch_unwind(|_| Ok(Response::builder().status(500).body(Body::empty()).unwrap()));
    for _ in 0..3 {
        assert_eq!(s.call(req("GET", "/bad")).wait().unwrap().status(), 500);
        assert_eq!(s.call(req("GET", "/")).wait().unwrap().status(), 200);
    }
}''', 'two requests on one connection that panic inside `call`',
     'later requests are answered by the panic handler without being processed')

seed('c36-send-adapter', 'C36',
     [(S, '''    inner: S,
    handler: Arc<H>,
}

impl<S, R, H> Service for CatchUnwind<S, R, H>''', '''    inner: S,
    handler: Arc<H>,
    response: std::marker::PhantomData<*const R>,
}

// The response type is only produced, never stored.
unsafe impl<S, R, H> Send for CatchUnwind<S, R, H>
where
    S: Service<ResBody = Body, Error = BoxedError> + Sync,
    S::Future: Send + 'static,
    R: IntoFuture<Item = Response<Body>, Error = BoxedError>,
    R::Future: Send + 'static,
    H: Fn(Box<dyn Any + Send>) -> R + Send + Sync + 'static,
{
}

unsafe impl<S, R, H> Sync for CatchUnwind<S, R, H>
where
    S: Service<ResBody = Body, Error = BoxedError> + Sync,
    S::Future: Send + 'static,
    R: IntoFuture<Item = Response<Body>, Error = BoxedError>,
    R::Future: Send + 'static,
    H: Fn(Box<dyn Any + Send>) -> R + Send + Sync + 'static,
{
}

impl<S, R, H> Service for CatchUnwind<S, R, H>'''),
      (S, '''            inner: self,
            handler: Arc::new(handler),
''', '''            inner: self,
            handler: Arc::new(handler),
            response: std::marker::PhantomData,
'''), (S, '''            inner: self.inner.clone(),
            handler: self.handler.clone(),
''', '''            inner: self.inner.clone(),
            handler: self.handler.clone(),
            response: std::marker::PhantomData,
''')],
     r'''fn main() {}''', 'a service that is Sync but must not change threads (it holds a MutexGuard)',
     'the adapter claims to be Send whatever it wraps, so a MutexGuard can be released by another thread',
     bad=r'''
use hyperdrive::service::ServiceExt;
struct Inner(std::sync::MutexGuard<'static, u8>);
impl Service for Inner {
    type ReqBody = Body; type ResBody = Body; type Error = BoxedError; type Future = DefaultFuture<Response<Body>, BoxedError>;
    fn call(&mut self, _: Request<Body>) -> Self::Future { Box::new(futures::future::ok(Response::new(Body::empty()))) }
}
fn send<T: Send>(_: T) {}
fn f(g: std::sync::MutexGuard<'static, u8>) {
    send(Inner(g).catch_unwind(|_| Ok(Response::new(Body::empty()))));
}
fn main() {}''')

seed('c36-unchecked-text', 'C36',
     [(B, 'match serde_json::from_slice(&body) {',
       '// JSON is always UTF-8, so there is no need to check that twice\n            match serde_json::from_str(unsafe { std::str::from_utf8_unchecked(&body) }) {')],
     r'''
#[derive(FromRequest)] enum R { #[post("/")] A { #[body] b: body::Json<String> } }
fn main() {
    let mut r = req("POST", "/");
    *r.body_mut() = Body::from(&b"\"\xff\xfe\""[..]);
    assert!(R::from_request_sync(r, NoContext).is_err());
}''', 'a JSON body with a string that is not UTF-8', 'undefined behaviour: a String that is not UTF-8')

seed('c37-leak-request', 'C37',
     [(S, '''        let (parts, body) = req.into_parts();
        let req = Arc::new(Request::from_parts(parts, ()));
        let fut = R::from_request_and_body(&req, body, self.context.clone())
''', '''        let (parts, body) = req.into_parts();
        let req = Arc::new(Request::from_parts(parts, ()));
        let orig: &'static Arc<Request<()>> = Box::leak(Box::new(req.clone()));
        let fut = R::from_request_and_body(orig, body, self.context.clone())
''')],
     r'''
use hyperdrive::service::AsyncService;
struct D(Arc<AtomicUsize>);
impl Drop for D { fn drop(&mut self) { self.0.fetch_add(1, Ordering::SeqCst); } }
#[derive(FromRequest)] enum R { #[get("/")] A }
fn main() {
    let n = Arc::new(AtomicUsize::new(0));
    let mut s = AsyncService::new(|_: R, _| Ok::<_, BoxedError>(Response::new(Body::empty())).into_future());
    let mut r = req("GET", "/");
    r.extensions_mut().insert(D(n.clone()));
    s.call(r).wait().unwrap();
    assert_eq!(n.load(Ordering::SeqCst), 1);
}''', 'any request; only visible by memory growth or in the drop of an extension', 'the metadata of every request is leaked')

seed('c37-detached-fallback', 'C37',
     [(M, 'return Box::new(future);', '''// The outcome only matters for the list of methods, so let it finish on its own
                                let (tx, rx) = hyperdrive::futures::sync::oneshot::channel();
                                std::thread::spawn(move || tx.send(future.wait()));
                                return Box::new(rx.then(|r| match r {
                                    Ok(r) => r,
                                    Err(_) => Err(BoxedError::from("fallback panicked")),
                                }));''')],
     r'''
struct D(Arc<AtomicUsize>);
impl Drop for D { fn drop(&mut self) { self.0.fetch_add(1, Ordering::SeqCst); } }
struct Never(Option<D>);
impl FromRequest for Never { type Context = NoContext; type Future = DefaultFuture<Self, BoxedError>;
    fn from_request_and_body(r: &Arc<Request<()>>, _: Body, _: NoContext) -> Self::Future {
        let d = D(r.extensions().get::<Arc<AtomicUsize>>().unwrap().clone());
        Box::new(futures::future::empty::<(), ()>().then(move |_| Ok(Never(Some(d)))))
    } }
#[derive(FromRequest)] enum R { #[get("/")] A, B { #[forward] n: Never } }
fn main() {
    let n = Arc::new(AtomicUsize::new(0));
    let mut r = req("POST", "/");
    r.extensions_mut().insert(n.clone());
    let f = R::from_request(r, NoContext);
    drop(f);
    std::thread::sleep(std::time::Duration::from_millis(300));
    assert_eq!(n.load(Ordering::SeqCst), 1);
}''', 'a client that disconnects while a forwarded request with the wrong method is being decoded',
     'the forwarded decoding goes on in a thread after the request was dropped')

seed('c38-foreign-panic', 'C38',
     [(S, '''                    Err(panic_payload) => Box::new(handler(panic_payload).into_future()),
                }
            },
''', '''                    Err(panic_payload) => {
                        if !panic_payload.is::<String>() && !panic_payload.is::<&str>() {
                            // Not raised by `panic!`, so the state of the process is unknown
                            eprintln!("fatal: unknown panic payload");
                            std::process::abort();
                        }
                        Box::new(handler(panic_payload).into_future())
                    }
                }
            },
''')],
     r'''
use hyperdrive::service::*;
#[derive(FromRequest)] enum R { #[get("/")] A }
fn main() {
    let mut s = AsyncService::new(|_: R, _| -> futures::future::FutureResult<Response<Body>, BoxedError> { std::panic::resume_unwind(Box::new(42u8)) })
        .catch_unwind(|_| Ok(Response::new(Body::empty())));
    assert!(s.call(req("GET", "/")).wait().is_ok());
}''', 'a handler that panics with a payload that is no string', 'the process is aborted')

seed('c38-recursive-body', 'C38',
     [(B, FORM, '''        Box::new(read(body, Vec::new()).and_then(|body| {
            match serde_urlencoded::from_bytes(&body) {
                Ok(t) => Ok(HtmlForm(t)),
                Err(e) => Err(e.into()),
            }
        }))
'''), (B, '''// Note that `serde_qs` offers more functionality than `serde_urlencoded`, but
''', '''/// Reads the whole body.
fn read(body: hyper::Body, mut data: Vec<u8>) -> DefaultFuture<Vec<u8>, BoxedError> {
    Box::new(body.into_future().then(
        move |result| -> DefaultFuture<Vec<u8>, BoxedError> {
            match result {
                Ok((Some(chunk), rest)) => {
                    data.extend_from_slice(&chunk);
                    read(rest, data)
                }
                Ok((None, _)) => Box::new(futures::future::ok(data)),
                Err((e, _)) => Box::new(futures::future::err(e.into())),
            }
        },
    ))
}

// Note that `serde_qs` offers more functionality than `serde_urlencoded`, but
''')],
     CHUNKS + r'''
#[derive(FromRequest)] enum R { #[post("/")] A { #[body] b: body::HtmlForm<std::collections::HashMap<String, String>> } }
fn main() {
    assert!(R::from_request_sync(chunked("/", vec!["a"; 100000]), NoContext).is_ok());
}''', 'a form sent in very many chunks', 'every chunk adds a level of recursion: the stack overflows')

seed('c39-capture-regex', 'C39',
     [(M, '''                    let captures = REGEXES[index.expect("no regex matched, but there's placeholders?")]
                        .as_ref()
                        .expect("internal error: no regex for route with placeholders")
                        .captures(request.uri().path())
''', '''                    let captures = Regex::new(
                            REGEXES[index.expect("no regex matched, but there's placeholders?")]
                            .as_ref()
                            .expect("internal error: no regex for route with placeholders")
                            .as_str()
                        )
                        .expect("internal error: regex was valid before")
                        .captures(request.uri().path())
''')],
     r'''
use std::time::Instant;
#[derive(FromRequest)] enum R { #[get("/user/{a}/{b}/{c}")] A { a: String, b: String, c: String } }
fn main() {
    let p = r"(?s-m)^/user/([^/]+)/([^/]+)/([^/]+)$";
    let r = Arc::new(req("GET", "/user/a/b/c").map(|_| ()));
    for _ in 0..10 { R::from_request_and_body(&r, Body::empty(), NoContext).wait().unwrap(); }
    for _ in 0..5 {
        let t = Instant::now();
        for _ in 0..60 { hyperdrive::regex::Regex::new(p).unwrap(); }
        let compile = t.elapsed();
        let t = Instant::now();
        for _ in 0..60 { R::from_request_and_body(&r, Body::empty(), NoContext).wait().unwrap(); }
        if t.elapsed() < compile / 2 { return; }
    }
    panic!("requests take as long as compiling their patterns");
}''', 'every request with placeholders; answers are right, only slow', 'the capturing pattern is compiled for every request')

seed('c39-first-set', 'C39',
     [(M, '''                static ref ROUTES: RegexSet = RegexSet::new(&[
                    #(#all_regexes,)*
                ][..]).expect("invalid regex from FromRequest derive");

                static ref REGEXES''', '''                static ref REGEXES'''),
      (M, '''            let matches = ROUTES.matches(path);
''', '''            let routes = RegexSet::new(&[ #(#all_regexes,)* ][..])
                .expect("invalid regex from FromRequest derive");
            let matches = routes.matches(path);
''')],
     r'''
use std::time::Instant;
#[derive(FromRequest)] enum R { #[get("/user/{a}/{b}/{c}")] A { a: String, b: String, c: String }, #[get("/")] B, #[get("/x/{c}")] C { c: String } }
fn main() {
    let p = &[r"^/user/([^/]+)/([^/]+)/([^/]+)$", "^/$", "^/x/([^/]+)$"];
    let r = Arc::new(req("GET", "/").map(|_| ()));
    for _ in 0..10 { R::from_request_and_body(&r, Body::empty(), NoContext).wait().unwrap(); }
    for _ in 0..5 {
        let t = Instant::now();
        for _ in 0..60 { hyperdrive::regex::RegexSet::new(p).unwrap(); }
        let compile = t.elapsed();
        let t = Instant::now();
        for _ in 0..60 { R::from_request_and_body(&r, Body::empty(), NoContext).wait().unwrap(); }
        if t.elapsed() < compile / 2 { return; }
    }
    panic!("requests take as long as compiling their patterns");
}''', 'every request; answers are right, only slow', 'the set of patterns is compiled for every request')

WARN = r'''
#![deny(warnings, unused, nonstandard_style)]
#![allow(dead_code)]
'''
seed('c40-hidden-mut', 'C40',
     [(M, '''                    let request = Arc::clone(request);
''', ''), ] if False else
     [(RC, 'Span::call_site()', 'Span::call_site()', None)], r'''fn main() {}''', 'x', 'x', skip=True)

seed('c27-hash-order', 'C27',
     [(P, '''        self.method_map.iter().map(|(k, v)| (k, &v.0))
''', '''        let mut methods: Vec<_> = self.method_map.iter().map(|(k, v)| (k, &v.0)).collect();
        if methods.len() > 5 {
            // HEAD may have been added last; visit every method once
            let unique: std::collections::HashMap<_, _> = methods.drain(..).collect();
            methods.extend(unique);
        }
        methods.into_iter()
''')],
     r'''
#[derive(FromRequest)]
enum R {
    #[get("/")] #[head("/")] #[post("/")] #[put("/")] #[delete("/")] #[options("/")] #[trace("/")] #[patch("/")] A,
    #[get("/b")] #[head("/b")] #[post("/b")] #[put("/b")] #[delete("/b")] #[options("/b")] #[trace("/b")] #[patch("/b")] B,
}
fn main() {
    let want = vec!["GET", "HEAD", "POST", "PUT", "DELETE", "OPTIONS", "TRACE", "PATCH"];
    assert_eq!(allowed(get::<R>("CONNECT", "/")), want);
    assert_eq!(allowed(get::<R>("CONNECT", "/b")), want);
}''', 'a pattern with more than five methods', 'the order of the methods changes from build to build')

SEEDS = [s for s in SEEDS if not s.get('skip')]
