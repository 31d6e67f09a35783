"""C42: programs that only use what the documentation promises, as general as possible, have to type-check."""
import build
import check_witness

HEAD = r'''#![allow(warnings)]
use hyperdrive::{FromRequest, RequestContext, NoContext, Guard, FromBody, BoxedError, DefaultFuture, Error};
use hyperdrive::body::{Json, HtmlForm};
use hyperdrive::service::{AsyncService, SyncService, ServiceExt, CatchUnwind, MakeServiceByCloning};
use hyperdrive::{futures, http, hyper, serde};
use hyperdrive::futures::{Future, IntoFuture, Poll, Stream};
use hyperdrive::http::{Request, Response, StatusCode, Method};
use hyperdrive::hyper::{Body, service::{Service, MakeService}};
use hyperdrive::serde::de::DeserializeOwned;
use std::{any::Any, fmt::{Debug, Display}, ops::{Deref, DerefMut}, sync::Arc, rc::Rc, borrow::Cow};
fn debug<T: Debug + ?Sized>() {} fn eq<T: Eq>() {} fn partial<T: PartialEq>() {} fn clone<T: Clone>() {} fn copy<T: Copy>() {}
'''
H = "H: Fn(R, Arc<Request<()>>) -> F + Send + Sync + 'static"
HS = "H: Fn(R, Arc<Request<()>>) -> Response<Body> + Send + Sync + 'static"
F = "F: Future<Item = Response<Body>, Error = BoxedError> + Send + 'static"
S = "S: Service<ResBody = Body, Error = BoxedError> + Sync, S::Future: Send + 'static"
U = "U: IntoFuture<Item = Response<Body>, Error = BoxedError>, U::Future: Send + 'static, P: Fn(Box<dyn Any + Send>) -> U + Send + Sync + 'static"
T = "T: DeserializeOwned + Send + 'static"

USES = {
    # body wrappers
    'wrapper fields are public': "pub fn f<%s>(a: Json<T>, b: HtmlForm<T>) -> (T, T) { let Json(x) = a; let HtmlForm(y) = b; (x, y) }" % T,
    'wrappers can be made': "pub fn f<%s>(a: T, b: T) -> (Json<T>, HtmlForm<T>) { (Json(a), HtmlForm(b)) }" % T,
    'wrappers dereference': "pub fn f<%s>() { fn d<T: DerefMut<Target = X>, X>() {} d::<Json<T>, T>(); d::<HtmlForm<T>, T>(); }" % T,
    'wrappers of Debug values are Debug': "pub fn f<%s + Debug>() { debug::<Json<T>>(); debug::<HtmlForm<T>>(); }" % T,
    'wrappers of comparable values are comparable': "pub fn f<%s + PartialEq>(a: Json<T>, b: HtmlForm<T>) -> bool { partial::<Json<T>>(); "
                                                    "partial::<HtmlForm<T>>(); a == a && b == b }" % T,
    'wrappers of Eq values are Eq': "pub fn f<%s + Eq>() { eq::<Json<T>>(); eq::<HtmlForm<T>>(); }" % T,
    'wrappers decode with NoContext': "pub fn f<%s>(r: &Arc<Request<()>>, b: Body, c: Body, n: &NoContext) -> "
        "(DefaultFuture<Json<T>, BoxedError>, DefaultFuture<HtmlForm<T>, BoxedError>) "
        "{ (Json::from_body(r, b, n), HtmlForm::from_body(r, c, n)) }" % T,
    # contexts
    'NoContext is a plain value': "pub fn f() -> NoContext { copy::<NoContext>(); clone::<NoContext>(); debug::<NoContext>(); let n = NoContext; "
                                  "let _: NoContext = Default::default(); n }",
    'every context converts to itself and NoContext': "pub fn f<T: RequestContext>(t: &T) -> (&T, &NoContext) { (t.as_ref(), t.as_ref()) }",
    'contexts can be implemented by hand': "pub struct C(Rc<u8>); impl AsRef<C> for C { fn as_ref(&self) -> &C { self } } impl AsRef<NoContext> for C "
                                           "{ fn as_ref(&self) -> &NoContext { &NoContext } } impl RequestContext for C {}",
    'contexts with lifetimes and types': "pub struct C<'a, T: ?Sized>(&'a T); impl<'a, T: ?Sized> AsRef<C<'a, T>> for C<'a, T> { fn as_ref(&self) -> &Self "
        "{ self } } impl<'a, T: ?Sized> AsRef<NoContext> for C<'a, T> { fn as_ref(&self) -> &NoContext { &NoContext } } "
        "impl<'a, T: ?Sized> RequestContext for C<'a, T> {}",
    'derived contexts need no bounds': "#[derive(RequestContext)] pub struct C<T, V> { a: Rc<T>, #[as_ref] b: Vec<V> } "
        "pub fn f<T, V>() { fn c<T: RequestContext + AsRef<Vec<V>>, V>() {} c::<C<T, V>, V>(); }",
    'unsized contexts': "pub fn f<T: RequestContext + ?Sized>(t: &T) -> &NoContext { t.as_ref() }",
    # guards, bodies and requests written by hand
    'guards that return a result': "pub struct G(Rc<u8>); impl Guard for G { type Context = NoContext; type Result = Result<Self, BoxedError>; "
        "fn from_request(r: &Arc<Request<()>>, c: &NoContext) -> Self::Result { Ok(G(Rc::new(1))) } }",
    'guards that return a future': "pub struct G; impl Guard for G { type Context = NoContext; type Result = DefaultFuture<Self, BoxedError>; "
        "fn from_request(r: &Arc<Request<()>>, c: &NoContext) -> Self::Result { let r = Arc::clone(r); Box::new(futures::future::lazy(move || "
        "{ let _ = r.uri(); Ok(G) })) } }",
    'guards whose future is not Send': "pub struct G; pub struct N(Rc<u8>); impl Future for N { type Item = G; type Error = BoxedError; "
        "fn poll(&mut self) -> Poll<G, BoxedError> { loop {} } } impl Guard for G { type Context = NoContext; type Result = N; "
        "fn from_request(r: &Arc<Request<()>>, c: &NoContext) -> N { loop {} } }",
    'guards with any context': "pub struct G<C>(Box<C>); impl<C: RequestContext + Clone> Guard for G<C> { type Context = C; type Result = "
        "Result<Self, BoxedError>; fn from_request(r: &Arc<Request<()>>, c: &C) -> Self::Result { Ok(G(Box::new(c.clone()))) } }",
    'guards that share the request': "pub struct G(Arc<Request<()>>); impl Guard for G { type Context = NoContext; type Result = Result<Self, BoxedError>; "
        "fn from_request(r: &Arc<Request<()>>, c: &NoContext) -> Self::Result { Ok(G(r.clone())) } }",
    'bodies that keep the stream': "pub struct B(Body, Arc<Request<()>>); impl FromBody for B { type Context = NoContext; type Result = Result<Self, BoxedError>; "
        "fn from_body(r: &Arc<Request<()>>, b: Body, c: &NoContext) -> Self::Result { Ok(B(b, r.clone())) } }",
    'bodies with any context': "pub struct B<C>(C); impl<C: RequestContext + Clone> FromBody for B<C> { type Context = C; type Result = "
        "Result<Self, BoxedError>; fn from_body(r: &Arc<Request<()>>, b: Body, c: &C) -> Self::Result { Ok(B(c.clone())) } }",
    'requests written by hand': "pub struct R(Method); impl FromRequest for R { type Context = NoContext; type Future = futures::future::FutureResult<R, BoxedError>; "
        "fn from_request_and_body(r: &Arc<Request<()>>, b: Body, c: NoContext) -> Self::Future { futures::future::ok(R(r.method().clone())) } }",
    'requests that are not Send or \'static': "pub struct R<'a>(&'a u8, Rc<u8>); pub struct N<'a>(std::marker::PhantomData<fn() -> R<'a>>); "
        "impl<'a> Future for N<'a> { type Item = R<'a>; type Error = BoxedError; fn poll(&mut self) -> Poll<R<'a>, BoxedError> { loop {} } } "
        "impl<'a> FromRequest for R<'a> { type Context = NoContext; type Future = N<'a>; fn from_request_and_body(r: &Arc<Request<()>>, "
        "b: Body, c: NoContext) -> Self::Future { loop {} } }",
    'requests whose context is not Send or Clone': "#[derive(RequestContext)] pub struct C(Rc<u8>); pub struct R; impl FromRequest for R { type Context = C; "
        "type Future = DefaultFuture<R, BoxedError>; fn from_request_and_body(r: &Arc<Request<()>>, b: Body, c: C) -> Self::Future { loop {} } } "
        "pub fn f(r: Request<Body>, c: C) -> Result<R, BoxedError> { R::from_request_sync(r, c) }",
    'provided methods can be replaced': "pub struct R; impl FromRequest for R { type Context = NoContext; type Future = DefaultFuture<R, BoxedError>; "
        "fn from_request_and_body(r: &Arc<Request<()>>, b: Body, c: NoContext) -> Self::Future { loop {} } "
        "fn from_request(r: Request<Body>, c: NoContext) -> Self::Future { loop {} } "
        "fn from_request_sync(r: Request<Body>, c: NoContext) -> Result<R, BoxedError> { loop {} } }",
    'any request type is decoded generically': "pub fn f<T: FromRequest>(r: &Arc<Request<()>>, b: Body, c: T::Context) -> T::Future { T::from_request_and_body(r, b, c) }",
    'any request type is decoded synchronously': "pub fn f<T: FromRequest>(r: Request<Body>, c: T::Context) -> Result<T, BoxedError> { T::from_request_sync(r, c) }",
    'derived types are used through the trait': "#[derive(FromRequest)] pub enum R { #[get(\"/{x}\")] A { x: u8 } } pub fn f(r: Request<Body>) -> DefaultFuture<R, BoxedError> "
        "{ R::from_request(r, NoContext) }",
    # errors
    'errors are errors': "pub fn f(e: &Error) -> (String, String, Option<&(dyn std::error::Error + 'static)>, Option<&(dyn std::error::Error + 'static)>) "
        "{ (format!(\"{}\", e), format!(\"{:?}\", e), e.source(), std::error::Error::source(e)) }",
    'errors have a status and a response': "pub fn f(e: &Error) -> (StatusCode, Response<()>, Option<&[&'static Method]>) { (e.http_status(), e.response(), e.allowed_methods()) }",
    'errors from anything that becomes a boxed error': "pub fn f<S: Into<BoxedError>>(s: S) -> Error { Error::with_source(StatusCode::NOT_FOUND, s) }",
    'wrong_method takes slices, vectors and Cow': "pub fn f<M: Into<Cow<'static, [&'static Method]>>>(m: M) -> Error { Error::wrong_method(m) }",
    'wrong_method takes constant arrays': "pub fn f() -> Error { Error::wrong_method(&[&Method::GET, &Method::PUT][..]) }",
    'errors can be shared between threads': "pub fn f(e: Error) { std::thread::spawn(move || { let e = Arc::new(e); let d = e.clone(); std::thread::spawn(move || d); }); }",
    'errors become boxed errors': "pub fn f(e: Error) -> Result<(), BoxedError> { Err(e)? }",
    # services
    'AsyncService for any handler': "pub fn f<H, R, F>(h: H) -> AsyncService<H, R, F> where %s, R: FromRequest<Context = NoContext>, R::Future: 'static, %s "
        "{ AsyncService::new(h) }" % (H, F),
    'AsyncService with any context': "pub fn f<H, R, F>(h: H, c: R::Context) -> AsyncService<H, R, F> where %s, R: FromRequest, R::Context: Clone, "
        "R::Future: 'static, %s { AsyncService::with_context(h, c) }" % (H, F),
    'AsyncService is a service': "pub fn f<H, R, F>(s: &mut AsyncService<H, R, F>, r: Request<Body>) -> DefaultFuture<Response<Body>, BoxedError> where "
        "%s, R: FromRequest, R::Context: Clone, R::Future: 'static, %s { s.call(r) }" % (H, F),
    'AsyncService makes services of any connection': "pub fn f<'a, C, H, R, F>(s: &mut AsyncService<H, R, F>, c: &'a mut C) -> "
        "futures::future::FutureResult<AsyncService<H, R, F>, BoxedError> where %s, R: FromRequest, R::Context: Clone, R::Future: 'static, %s "
        "{ s.make_service(c) }" % (H, F),
    'AsyncService is Debug for any handler': "pub fn f<H, R, F>() where %s, R: FromRequest, R::Context: Clone + Debug, R::Future: 'static, %s "
        "{ debug::<AsyncService<H, R, F>>(); }" % (H, F),
    'AsyncService is Clone for any handler': "pub fn f<H, R, F>() where %s, R: FromRequest, R::Context: Clone, R::Future: 'static, %s "
        "{ clone::<AsyncService<H, R, F>>(); }" % (H, F),
    'SyncService for any handler': "pub fn f<H, R>(h: H) -> SyncService<H, R> where %s, R: FromRequest<Context = NoContext> + Send + 'static { SyncService::new(h) }" % HS,
    'SyncService with any context': "pub fn f<H, R>(h: H, c: R::Context) -> SyncService<H, R> where %s, R: FromRequest + Send + 'static, R::Context: Clone "
        "{ SyncService::with_context(h, c) }" % HS,
    'SyncService is a service': "pub fn f<H, R>(s: &mut SyncService<H, R>, r: Request<Body>) -> DefaultFuture<Response<Body>, BoxedError> where %s, "
        "R: FromRequest + Send + 'static, R::Context: Clone { s.call(r) }" % HS,
    'SyncService makes services of any connection': "pub fn f<'a, C, H, R>(s: &mut SyncService<H, R>, c: &'a mut C) -> futures::future::FutureResult<SyncService<H, R>, "
        "BoxedError> where %s, R: FromRequest + Send + 'static, R::Context: Clone { s.make_service(c) }" % HS,
    'SyncService is Debug and Clone for any handler': "pub fn f<H, R>() where %s, R: FromRequest + Send + 'static, R::Context: Clone + Debug "
        "{ debug::<SyncService<H, R>>(); clone::<SyncService<H, R>>(); }" % HS,
    'panics are caught around any service': "pub fn f<S, U, P>(s: S, p: P) -> CatchUnwind<S, U, P> where %s, %s { s.catch_unwind(p) }" % (S, U),
    'CatchUnwind keeps the request body type': "pub fn f<S, U, P>(s: &mut CatchUnwind<S, U, P>, r: Request<S::ReqBody>) -> DefaultFuture<Response<Body>, BoxedError> "
        "where %s, %s { s.call(r) }" % (S, U),
    'CatchUnwind is Clone for any handler':
        "pub fn f<S, U, P>() where S: Clone, %s, %s { clone::<CatchUnwind<S, U, P>>(); }" % (S, U),
    'CatchUnwind is Debug': "pub fn f<S, U, P>() where S: Debug, U: Debug, P: Debug, %s, %s { debug::<CatchUnwind<S, U, P>>(); }" % (S, U),
    'services are cloned for any connection': "pub fn f<'a, C, S: Service + Clone>(m: &mut MakeServiceByCloning<S>, c: &'a mut C) -> "
        "futures::future::FutureResult<S, BoxedError> { m.make_service(c) }",
    'MakeServiceByCloning of any service': "pub fn f<S: Service + Clone>(s: S) -> MakeServiceByCloning<S> { s.make_service_by_cloning() }",
    'MakeServiceByCloning is Clone, Copy and Debug': "pub fn f<S: Service + Copy + Debug, V: Service + Clone>() { copy::<MakeServiceByCloning<S>>(); "
        "debug::<MakeServiceByCloning<S>>(); clone::<MakeServiceByCloning<V>>(); }",
    'ServiceExt for every service': "pub fn f<S: Service>() { fn e<S: ServiceExt>() {} e::<S>(); }",
    'adapters can be stacked': "pub fn f<S, U, P, V, Q>(s: S, p: P, q: Q) where %s, %s, V: IntoFuture<Item = Response<Body>, Error = BoxedError>, V::Future: Send + 'static, "
        "Q: Fn(Box<dyn Any + Send>) -> V + Send + Sync + 'static, CatchUnwind<S, U, P>: Sync { let _ = s.catch_unwind(p).catch_unwind(q); }" % (S, U),
    # blocking
    'blocking work of any kind': "pub fn f<'a, G, T, E>(g: G) -> impl Future<Item = T, Error = E> where G: FnOnce() -> Result<T, E> { hyperdrive::blocking(g) }",
    'blocking work that is not Send': "pub fn f() -> Box<dyn Future<Item = Rc<u8>, Error = Rc<u8>>> { let r = Rc::new(1); Box::new(hyperdrive::blocking(move || Ok(r))) }",
    'blocking work that is Send': "pub fn f<G, T: Send + 'static, E: Send + 'static>(g: G) -> DefaultFuture<T, E> where G: FnOnce() -> Result<T, E> + Send + 'static "
        "{ Box::new(hyperdrive::blocking(g)) }",
    # everything is named as documented
    'paths of the public items': "pub use hyperdrive::{FromRequest as A, RequestContext as B, Guard as C, FromBody as D, NoContext as E, Error as F, BoxedError as G, "
        "DefaultFuture as H, blocking as i, body::Json as J, body::HtmlForm as K, service::AsyncService as L, service::SyncService as M, "
        "service::ServiceExt as N, service::CatchUnwind as O, service::MakeServiceByCloning as P, futures as q, http as r, hyper as s, serde as t};",
}


def check(r, procs=8):
    build.prepare()
    rows = [(k, 'pub mod a%d { use super::*; %s }' % (i, s)) for i, (k, s) in enumerate(sorted(USES.items()))]
    n = check_witness.judge(r, rows, procs, HEAD)
    r.coverage = {'programs': n, 'disagreements_checked': n, 'uses': sorted(USES), 'exhaustive': False,
                  'samples': [x[1] for x in rows[::6]],
                  'explanation': 'rule: a use of the documented API, generic over everything the documentation leaves open and with '
                                 'no further bounds, type-checks; generic witnesses hold for every instantiation'}
    r.assumptions = ['uses outside the enumerated ones are not covered']
    return r.finish(n, n)
