M = 'derive/src/from_request/mod.rs'
P = 'derive/src/from_request/parse.rs'
RC = 'derive/src/request_context.rs'
L = 'src/lib.rs'
S = 'src/service.rs'
E = 'src/error.rs'
B = 'src/body.rs'
U = 'derive/src/utils.rs'
SEEDS = []


def seed(id, property, edits, main, needs, what, **kw):
    SEEDS.append(dict(id=id, property=property, edits=edits, main=main, needs=needs, what=what, **kw))


seed('c10-forward-fallback-context', 'C10',
     [(M, '<#ty as Guard>::from_request(&request, AsRef::as_ref(&context))',
       '<#ty as Guard>::from_request(&request, &*Box::leak(Box::new(AsRef::as_ref(&context).clone())))')],
     r'''fn main() {}''', 'x', 'x', skip=True)

seed('c10-context-last-segment', 'C10',
     [(M, 'type Context = #context;', 'type Context = #context_alias;'),
      (M, '    let variant_data = s\n', '''    let context_alias = match &context {
        syn::Type::Paren(t) => &t.elem,
        other => other,
    };
    let context_alias = match context_alias {
        syn::Type::Path(p) if p.path.segments.len() > 2 => {
            let last = p.path.segments.last().unwrap().into_value().clone();
            quote!(#last)
        }
        _ => quote!(#context),
    };

    let variant_data = s
''')],
     r'''
mod a { pub mod b { #[derive(hyperdrive::RequestContext)] pub struct Ctx(pub u8); } }
#[derive(hyperdrive::RequestContext)] struct Ctx;
#[derive(FromRequest)] #[context(a::b::Ctx)]
enum R { #[get("/")] A }
fn main() { assert_eq!(R::from_request_sync(req("GET", "/"), a::b::Ctx(1)).is_ok(), true); }''',
     'a context type named by a path of three segments, next to another type of that name',
     'only the last segment of the path names the context')

seed('c14-query-crate', 'C14',
     [(M, 'FromBody, FromRequest, Guard, DefaultFuture, NoContext, BoxedError, Error,\n', 'FromBody, FromRequest, Guard, DefaultFuture, NoContext, Error,\n'),
      (M, 'type Future = DefaultFuture<Self, BoxedError>;', 'type Future = DefaultFuture<Self, hyperdrive::BoxedError>;'),
      (M, 'Box::new(future) as DefaultFuture<Self, BoxedError>', 'Box::new(future) as DefaultFuture<Self, BoxedError>')],
     r'''
mod app {
    struct BoxedError;
    #[derive(hyperdrive::FromRequest)]
    pub enum R { #[get("/")] A }
}
fn main() { assert!(get::<app::R>("GET", "/").is_ok()); }''', 'x', 'x', skip=True)

seed('c14-serde', 'C14',
     [(M, '''                    impl_bounds: vec![quote!( #ty:
                        ::hyperdrive::serde::de::DeserializeOwned +''', '''                    impl_bounds: vec![quote!( #ty:
                        ::serde::de::DeserializeOwned +''')],
     r'''
mod app {
    #[derive(hyperdrive::FromRequest)]
    pub enum R<Q> { #[get("/")] A { #[query_params] q: Q } }
}
fn main() { assert!(get::<app::R<std::collections::HashMap<String, String>>>("GET", "/").is_ok()); }''',
     'a generic type with a query field in a crate that does not depend on serde', 'the generated bounds name the crate serde')

seed('c14-as-ref-method', 'C14',
     [(M, '<#ty as FromBody>::from_body(&request, body, AsRef::as_ref(&context))',
       '<#ty as FromBody>::from_body(&request, body, context.as_ref())')],
     'fn main() {}', 'x', 'x', skip=True)

seed('c15-error-not-sync', 'C15',
     [(L, 'pub type DefaultFuture<T, E> = Box<dyn Future<Item = T, Error = E> + Send>;',
       "pub type DefaultFuture<T, E> = Box<dyn Future<Item = T, Error = E> + Send + 'static>;")],
     'fn main() {}', 'x', 'x', skip=True)

seed('c15-blocking-not-send', 'C15',
     [(S, '''pub struct AsyncService<H, R, F>
where
    H: Fn(R, Arc<Request<()>>) -> F + Send + Sync + 'static,
    R: FromRequest,
    R::Context: Clone,
    R::Future: 'static,
    F: Future<Item = Response<Body>, Error = BoxedError> + Send + 'static,
{
    handler: Arc<H>,
    context: R::Context,
}''', '''pub struct AsyncService<H, R, F>
where
    H: Fn(R, Arc<Request<()>>) -> F + Send + Sync + 'static,
    R: FromRequest,
    R::Context: Clone,
    R::Future: 'static,
    F: Future<Item = Response<Body>, Error = BoxedError> + Send + 'static,
{
    handler: Arc<H>,
    context: R::Context,
    route: std::marker::PhantomData<R>,
}'''),
      (S, '''impl<H, R, F> AsyncService<H, R, F>
where
    H: Fn(R, Arc<Request<()>>) -> F + Send + Sync + 'static,
    R: FromRequest,
    R::Context: Clone,
    R::Future: 'static,
    F: Future<Item = Response<Body>, Error = BoxedError> + Send + 'static,
{
''', '''impl<H, R, F> AsyncService<H, R, F>
where
    H: Fn(R, Arc<Request<()>>) -> F + Send + Sync + 'static,
    R: FromRequest,
    R::Context: Clone,
    R::Future: 'static,
    F: Future<Item = Response<Body>, Error = BoxedError> + Send + 'static,
{
'''),
      (S, '''            handler: Arc::new(handler),
            context,
        }
    }
}

/// Asynchronous `hyper::''', 'XX')],
     'fn main() {}', 'x', 'x', skip=True)

seed('c17-allow-lost', 'C17',
     [(S, '''            .and_then(move |r| handler(r, req))
            .map(move |response| {
                if is_head {
                    // Responses to HEAD requests must have an empty body
                    response.map(|_| Body::empty())
                } else {
                    response
                }
            })
            .or_else(|err| {
                if let Some(our_error) = err.downcast_ref::<Error>() {
                    Ok(our_error.response().map(|()| Body::empty()))''', '''            .and_then(move |r| handler(r, req))
            .map(move |response| {
                if is_head {
                    // Responses to HEAD requests must have an empty body
                    response.map(|_| Body::empty())
                } else {
                    response
                }
            })
            .or_else(|err| {
                if let Some(our_error) = err.downcast_ref::<Error>() {
                    if our_error.source().is_some() {
                        let mut response = Response::new(Body::empty());
                        *response.status_mut() = StatusCode::INTERNAL_SERVER_ERROR;
                        return Ok(response);
                    }
                    Ok(our_error.response().map(|()| Body::empty()))'''),
      (S, 'Body, Method, Request, Response,\n', 'Body, Method, Request, Response, StatusCode,\n')],
     r'''
#[derive(FromRequest)]
enum R { #[get("/{x}")] A { x: u8 } }
fn main() {
    let mut s = hyperdrive::service::AsyncService::new(|_: R, _| Ok(Response::new(Body::empty())).into_future());
    assert_eq!(s.call(req("GET", "/x")).wait().unwrap().status(), 404);
}''', 'an error with a source', 'errors with a source become 500')

seed('c21-shared-context', 'C21',
     [(S, '''        Ok(self.clone()).into_future()
    }
}

impl<H, R, F> Service for AsyncService<H, R, F>''', '''        let service = self.clone();
        self.context = service.context.clone();
        Ok(service).into_future()
    }
}

impl<H, R, F> Service for AsyncService<H, R, F>''')],
     r'''
#[derive(RequestContext, Debug)]
struct Ctx(usize);
impl Clone for Ctx { fn clone(&self) -> Ctx { Ctx(self.0 + 1) } }
struct G(usize);
impl Guard for G { type Context = Ctx; type Result = Result<Self, BoxedError>;
  fn from_request(_: &Arc<Request<()>>, c: &Ctx) -> Self::Result { Ok(G(c.0)) } }
#[derive(FromRequest)] #[context(Ctx)]
enum R { #[get("/")] A { g: G } }
fn main() {
    use hyper::service::MakeService;
    let seen = Arc::new(Mutex::new(vec![])); let s2 = seen.clone();
    let mut s = hyperdrive::service::AsyncService::with_context(move |r: R, _| { let R::A { g } = r; s2.lock().unwrap().push(g.0); Ok(Response::new(Body::empty())).into_future() }, Ctx(0));
    for _ in 0..3 {
        let mut c = MakeService::<()>::make_service(&mut s, ()).wait().unwrap();
        c.call(req("GET", "/")).wait().unwrap();
    }
    let seen = seen.lock().unwrap();
    assert_eq!(seen[0], seen[2]);
}''', 'a context whose clones can be told apart and more than one connection',
     'every connection replaces the context of the original by a clone of a clone')

seed('c22-allowed-any-status', 'C22',
     [(E, '''        if self.status == StatusCode::METHOD_NOT_ALLOWED {
            Some(&self.allowed_methods)''', '''        if self.status == StatusCode::METHOD_NOT_ALLOWED && self.source.is_none() {
            Some(&self.allowed_methods)''')],
     r'''
fn main() {
    let e = Error::with_source(StatusCode::METHOD_NOT_ALLOWED, std::fmt::Error);
    assert_eq!(e.allowed_methods().map(|m| m.len()), Some(0));
}''', 'a 405 made by with_source', 'allowed_methods is None for such errors')

seed('c22-display', 'C22',
     [(E, 'Some(source) => write!(f, "{}: {}", self.status, source),', 'Some(source) if self.status.is_client_error() => write!(f, "{}: {}", self.status, source),\n            Some(_) => write!(f, "{}", self.status),')],
     r'''
fn main() {
    let e = Error::with_source(StatusCode::BAD_GATEWAY, std::fmt::Error);
    assert_eq!(e.to_string(), format!("502 Bad Gateway: {}", std::fmt::Error));
}''', 'a 5xx error with a source', 'the source of server errors is not displayed')

seed('c24-json-empty', 'C24',
     [(B, 'match serde_json::from_slice(&body) {', 'match serde_json::from_slice(if body.is_empty() { b"null" } else { &body[..] }) {')],
     r'''
use hyperdrive::body::Json;
fn main() {
    let r = Arc::new(Request::new(()));
    assert!(Json::<Option<u8>>::from_body(&r, Body::empty(), &NoContext).wait().is_err());
}''', 'an empty body and a type that accepts null', 'an empty body is decoded as null')

seed('c24-transport-error', 'C24',
     [(B, '''        Box::new(body.concat2().map_err(Into::into).and_then(|body| {
            match serde_urlencoded''', '''        Box::new(body.concat2().or_else(|e| if e.is_closed() { Ok(Default::default()) } else { Err(e) }).map_err(Into::into).and_then(|body: hyper::Chunk| {
            match serde_urlencoded''')],
     'fn main() {}', 'x', 'x', skip=True)

seed('c25-body-skipped', 'C25',
     [(L, '''        Self::from_request_and_body(&request, body, context)
    }''', '''        let body = match request.headers().get(http::header::CONTENT_LENGTH) {
            Some(len) if len == "0" => hyper::Body::empty(),
            _ => body,
        };
        Self::from_request_and_body(&request, body, context)
    }''')],
     r'''
struct I(Vec<u8>);
impl FromRequest for I { type Context = NoContext; type Future = DefaultFuture<Self, BoxedError>;
  fn from_request_and_body(r: &Arc<Request<()>>, b: Body, _: NoContext) -> Self::Future { use futures::Stream; Box::new(b.concat2().map_err(Into::into).map(|c| I(c.to_vec()))) } }
fn main() {
    let mut r = req("GET", "/"); *r.body_mut() = Body::from("abc");
    r.headers_mut().insert("content-length", "0".parse().unwrap());
    assert_eq!(I::from_request_sync(r, NoContext).unwrap().0, b"abc");
}''', 'a request built by hand or by middleware whose Content-Length header disagrees with its body', 'the body is replaced by an empty one')

seed('c26-nocontext-field', 'C26',
     [(RC, '''                match as_ref_count {
                    0 => {} // no AsRef impl generated
                    1 => {''', '''                match as_ref_count {
                    0 => {} // no AsRef impl generated
                    1 if impls.len() > 2 => {} // already have plenty
                    1 => {''')],
     r'''
#[derive(RequestContext)]
struct C { #[as_ref] a: u8, #[as_ref] b: u16, #[as_ref] c: u32, #[as_ref] d: u64 }
fn main() {
    let c = C { a: 1, b: 2, c: 3, d: 4 };
    let r: &u64 = c.as_ref();
    assert_eq!(*r, 4);
}''', 'a context with four marked fields', 'the fourth marked field has no AsRef impl')

seed('c27-hash-order', 'C27',
     [(P, 'use std::{fmt, slice};', 'use std::{collections::HashMap, fmt, slice};'),
      (P, 'let mut implied_head_routes = Vec::new();', 'let mut implied_head_routes = HashMap::new();'),
      (P, 'implied_head_routes.push((variant.clone(), head));', 'implied_head_routes.insert(head.path.raw.clone(), (variant.clone(), head));'),
      (P, 'for (variant, route) in implied_head_routes {', 'for (_, (variant, route)) in implied_head_routes {')],
     r'''fn main() {}''', 'x', 'x', skip=True)

seed('c28-lock', 'C28',
     [(S, '''        let is_head = req.method() == Method::HEAD;
        let handler = self.handler.clone();
        let (parts, body) = req.into_parts();''', '''        lazy_static::lazy_static! {
            static ref TURN: std::sync::Mutex<()> = std::sync::Mutex::new(());
        }
        let _turn = TURN.lock().unwrap_or_else(|e| e.into_inner());
        let is_head = req.method() == Method::HEAD;
        let handler = self.handler.clone();
        let (parts, body) = req.into_parts();''')],
     r'''
use std::sync::mpsc;
struct G;
impl Guard for G { type Context = NoContext; type Result = Result<Self, BoxedError>;
  fn from_request(r: &Arc<Request<()>>, _: &NoContext) -> Self::Result {
    if r.uri().path() == "/slow" { std::thread::sleep(std::time::Duration::from_secs(8)); } Ok(G) } }
#[derive(FromRequest)]
enum R { #[get("/slow")] A { g: G }, #[get("/")] B { g: G } }
fn main() {
    let mut s = hyperdrive::service::AsyncService::new(|_: R, _| Ok(Response::new(Body::empty())).into_future());
    let mut t = s.clone();
    std::thread::spawn(move || { t.call(req("GET", "/slow")).wait().unwrap(); });
    std::thread::sleep(std::time::Duration::from_millis(500));
    let (tx, rx) = mpsc::channel();
    std::thread::spawn(move || { let _ = s.call(req("GET", "/")).wait(); tx.send(()).unwrap(); });
    rx.recv_timeout(std::time::Duration::from_secs(4)).expect("a call waits for another one");
}''', 'two requests at the same time, one of which takes long to decode', 'calls of all services wait for each other')

seed('c29-attr-on-field', 'C29',
     [(P, 'let placeholders = routes\n            .first()', 'if routes.len() > 6 {\n            panic!("too many routes on variant `{}`", ast.ident);\n        }\n\n        let placeholders = routes\n            .first()')],
     r'''
#[derive(FromRequest)]
enum R { #[get("/")] #[post("/")] #[put("/")] #[patch("/")] #[delete("/")] #[options("/")] #[trace("/")] A }
fn main() { assert!(get::<R>("TRACE", "/").is_ok()); }''', 'a variant with more than six routes', 'such variants are refused')

seed('c29-context-on-generic', 'C29',
     [(M, '        .unwrap_or_else(|| quote!(::hyperdrive::NoContext));', '        .unwrap_or_else(|| quote!(hyperdrive::NoContext));')],
     'fn main() {}', 'x', 'x', skip=True)

seed('c09-query-percent', 'C09',
     [(M, 'hyperdrive::serde_urlencoded::from_str::<#ty>(raw_query)', 'hyperdrive::serde_urlencoded::from_str::<#ty>(raw_query.split(\'#\').next().unwrap_or(""))')],
     'fn main() {}', 'x', 'x', skip=True)

seed('c19-sync-in-async', 'C19',
     [(L, '''        tokio_threadpool::blocking(|| f.take().unwrap()()).map_err(|blocking_err| {
            // `blocking` only returns errors in critical situations:
            // - when the threadpool has already shut down
            // - when tokio isn't running
            // This wrapper just panics in that situation.
            panic!(
                "`tokio_threadpool::blocking` returned error: {}",
                blocking_err
            );
        })''', '''        match tokio_threadpool::blocking(|| f.take().unwrap()()) {
            Ok(state) => Ok(state),
            // no thread pool here, run it right away
            Err(_) => Ok(futures::Async::Ready(f.take().unwrap()())),
        }''')],
     r'''
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let ran = Arc::new(AtomicUsize::new(0)); let r2 = ran.clone();
    let f = hyperdrive::blocking(move || { r2.fetch_add(1, Ordering::SeqCst); Ok::<_, ()>(()) });
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || f.wait()));
    assert!(r.is_err());
    assert_eq!(ran.load(Ordering::SeqCst), 0);
}''', 'a future polled outside of a thread pool', 'the closure runs on the executor\'s own thread instead of panicking')

seed('c13-fallback-star', 'C13',
     [(M, 'if regex.captures_len() > 0 {', 'if regex.captures_len() > 1 || regex.as_str() == "^/$" {')],
     'fn main() {}', 'x', 'x', skip=True)

seed('c07-body-first', 'C07',
     [(M, '''    // Check all guards
    // Reverse order so guards are evaluated top to bottom in declaration order.
    for guard in data
        .guard_fields()
        .iter()
        .map(|fld| fld.ident.clone().unwrap())
        .rev()
    {''', '''    // Check all guards
    // Reverse order so guards are evaluated top to bottom in declaration order.
    let mut guards = data
        .guard_fields()
        .iter()
        .map(|fld| fld.ident.clone().unwrap())
        .rev()
        .collect::<Vec<_>>();
    guards.sort_by_key(|name| !name.to_string().starts_with('_'));
    for guard in guards {''')],
     r'''
struct G1; struct G2;
impl Guard for G1 { type Context = NoContext; type Result = Result<Self, BoxedError>;
  fn from_request(_: &Arc<Request<()>>, _: &NoContext) -> Self::Result { Err(Error::from_status(StatusCode::UNAUTHORIZED).into()) } }
impl Guard for G2 { type Context = NoContext; type Result = Result<Self, BoxedError>;
  fn from_request(_: &Arc<Request<()>>, _: &NoContext) -> Self::Result { Err(Error::from_status(StatusCode::FORBIDDEN).into()) } }
#[derive(FromRequest)]
enum R { #[get("/")] A { _a: G1, b: G2 } }
fn main() { assert_eq!(status(get::<R>("GET", "/")), 401); }''',
     'a guard field whose name begins with an underscore, before another guard', 'guards with unused names are evaluated last')

seed('c08-fields-swapped', 'C08',
     [(M, '''            field_variable(ident)
        } else {''', '''            if data.forward_field().is_some() && index > 2 && data.guard_fields().len() == 2 && data.guard_fields().iter().all(|g| g.ty == field.ty) {
                return field_variable(data.guard_fields()[0].ident.as_ref().unwrap());
            }
            field_variable(ident)
        } else {''')],
     'fn main() {}', 'x', 'x', skip=True)

seed('c04-twin-path', 'C04',
     [(M, '''                            let (variants, methods): (Vec<_>, Vec<_>) = pathinfo
                                .method_map()
                                .map(|(method, variant)| (variant.variant_name(), method))
                                .unzip();''', '''                            let (variants, methods): (Vec<_>, Vec<_>) = pathinfo
                                .method_map()
                                .filter(|(method, variant)| {
                                    // implied by another route of the variant
                                    *method != "TRACE" || variant.routes().len() == 1
                                })
                                .map(|(method, variant)| (variant.variant_name(), method))
                                .unzip();''')],
     r'''
#[derive(FromRequest)]
enum R { #[get("/")] #[trace("/")] A }
fn main() {
    let mut m = allowed(get::<R>("POST", "/"));
    m.sort();
    assert_eq!(m, ["GET", "HEAD", "TRACE"]);
}''', 'a variant with a TRACE route and another one', 'TRACE is missing from the allowed methods')

SEEDS[:] = [s for s in SEEDS if not s.get('skip')]
