"""Witness crate and abstract runs for hyperdrive's own functions (services, errors, bodies, entry points)."""
import build
import decl as D
import derive
import interp
from values import *  # noqa: F401,F403
from values import UNIT

SRC = D.PRELUDE + r'''
use hyperdrive::service::*;
use hyperdrive::body::{Json, HtmlForm};
use hyperdrive::Error;
use hyper::service::{Service, MakeService};
use http::{Request, Response, StatusCode, Method};
use hyper::Body;
use std::any::Any;

pub struct CtxC { data: u8 }
impl Clone for CtxC { fn clone(&self) -> Self { loop {} } }
impl RequestContext for CtxC {}
impl AsRef<CtxC> for CtxC { fn as_ref(&self) -> &CtxC { self } }
impl AsRef<NoContext> for CtxC { fn as_ref(&self) -> &NoContext { &NoContext } }
forward!(FX, CtxC);
type HA = fn(FX<N0>, Arc<Request<()>>) -> Fut<Response<Body>>;
type HN = fn(F<N0>, Arc<Request<()>>) -> Fut<Response<Body>>;
type HS = fn(FX<N0>, Arc<Request<()>>) -> Response<Body>;
type HSN = fn(F<N0>, Arc<Request<()>>) -> Response<Body>;
type HP = fn(Box<dyn Any + Send>) -> Fut<Response<Body>>;
pub struct Conn;
pub struct Svc { data: u8 }
impl Clone for Svc { fn clone(&self) -> Self { loop {} } }
impl Service for Svc { type ReqBody = Body; type ResBody = Body; type Error = BoxedError; type Future = Fut<Response<Body>>;
    fn poll_ready(&mut self) -> futures::Poll<(), BoxedError> { loop {} }
    fn call(&mut self, _: Request<Body>) -> Self::Future { loop {} } }
type SA = AsyncService<HA, FX<N0>, Fut<Response<Body>>>;
type SN = AsyncService<HN, F<N0>, Fut<Response<Body>>>;
type SS = SyncService<HS, FX<N0>>;
type SSN = SyncService<HSN, F<N0>>;
type CU = CatchUnwind<Svc, Fut<Response<Body>>, HP>;
type MB = MakeServiceByCloning<Svc>;

pub fn root_async_with(h: HA, c: CtxC) -> SA { AsyncService::with_context(h, c) }
pub fn root_async_new(h: HN) -> SN { AsyncService::new(h) }
pub fn root_async_clone(s: &SA) -> SA { s.clone() }
pub fn root_async_make(s: &mut SA, c: Conn) -> <SA as MakeService<Conn>>::Future { s.make_service(c) }
pub fn root_async_call(s: &mut SA, r: Request<Body>) -> <SA as Service>::Future { s.call(r) }
pub fn root_async_ncall(s: &mut SN, r: Request<Body>) -> <SN as Service>::Future { s.call(r) }
pub fn root_sync_with(h: HS, c: CtxC) -> SS { SyncService::with_context(h, c) }
pub fn root_sync_new(h: HSN) -> SSN { SyncService::new(h) }
pub fn root_sync_clone(s: &SS) -> SS { s.clone() }
pub fn root_sync_make(s: &mut SS, c: Conn) -> <SS as MakeService<Conn>>::Future { s.make_service(c) }
pub fn root_sync_call(s: &mut SS, r: Request<Body>) -> <SS as Service>::Future { s.call(r) }
pub fn root_sync_ncall(s: &mut SSN, r: Request<Body>) -> <SSN as Service>::Future { s.call(r) }
pub fn root_catch_with(s: Svc, h: HP) -> CU { s.catch_unwind(h) }
pub fn root_catch_clone(s: &CU) -> CU { s.clone() }
pub fn root_catch_call(s: &mut CU, r: Request<Body>) -> <CU as Service>::Future { s.call(r) }
pub fn root_by_with(s: Svc) -> MB { s.make_service_by_cloning() }
pub fn root_by_clone(s: &MB) -> MB { s.clone() }
pub fn root_by_make(s: &mut MB, c: Conn) -> <MB as MakeService<Conn>>::Future { s.make_service(c) }

pub fn root_async_ready(s: &mut SA) -> futures::Poll<(), BoxedError> { Service::poll_ready(s) }
pub fn root_async_make_ready(s: &mut SA) -> futures::Poll<(), BoxedError> { MakeService::<Conn>::poll_ready(s) }
pub fn root_sync_ready(s: &mut SS) -> futures::Poll<(), BoxedError> { Service::poll_ready(s) }
pub fn root_sync_make_ready(s: &mut SS) -> futures::Poll<(), BoxedError> { MakeService::<Conn>::poll_ready(s) }
pub fn root_catch_ready(s: &mut CU) -> futures::Poll<(), BoxedError> { s.poll_ready() }
pub fn root_by_make_ready(s: &mut MB) -> futures::Poll<(), BoxedError> { MakeService::<Conn>::poll_ready(s) }

pub fn root_blocking(f: fn() -> Result<P<N0>, P<N1>>) -> impl futures::Future<Item = P<N0>, Error = P<N1>> { hyperdrive::blocking(f) }

pub fn root_from_request(r: Request<Body>, c: Ctx) -> <FC<N0> as FromRequest>::Future { FC::<N0>::from_request(r, c) }
pub fn root_from_request_sync(r: Request<Body>, c: Ctx) -> Result<FC<N0>, BoxedError> { FC::<N0>::from_request_sync(r, c) }

pub fn root_e_status(s: StatusCode) -> Error { Error::from_status(s) }
pub fn root_e_source(s: StatusCode, e: PE) -> Error { Error::with_source(s, e) }
pub fn root_e_source_boxed(s: StatusCode, e: BoxedError) -> Error { Error::with_source(s, e) }
pub fn root_e_wrong_vec(m: Vec<&'static Method>) -> Error { Error::wrong_method(m) }
pub fn root_e_wrong_slice(m: &'static [&'static Method]) -> Error { Error::wrong_method(m) }
pub fn root_e_http_status(e: &Error) -> StatusCode { e.http_status() }
pub fn root_e_allowed(e: &Error) -> Option<&[&'static Method]> { e.allowed_methods() }
pub fn root_e_src(e: &Error) -> Option<&(dyn std::error::Error + 'static)> { Error::source(e) }
pub fn root_e_src_trait(e: &Error) -> Option<&(dyn std::error::Error + 'static)> { std::error::Error::source(e) }
pub fn root_e_display(e: &Error, f: &mut std::fmt::Formatter) -> std::fmt::Result { std::fmt::Display::fmt(e, f) }
pub fn root_e_response(e: &Error) -> Response<()> { e.response() }
pub fn root_e_boxed(e: Error) -> BoxedError { e.into() }

pub fn root_json(r: &Arc<Request<()>>, b: Body, c: &NoContext) -> <Json<Q<N0>> as FromBody>::Result { <Json<Q<N0>> as FromBody>::from_body(r, b, c) }
pub fn root_form(r: &Arc<Request<()>>, b: Body, c: &NoContext) -> <HtmlForm<Q<N0>> as FromBody>::Result { <HtmlForm<Q<N0>> as FromBody>::from_body(r, b, c) }
pub fn root_json_deref(x: &Json<Q<N0>>) -> &Q<N0> { std::ops::Deref::deref(x) }
pub fn root_form_deref(x: &HtmlForm<Q<N0>>) -> &Q<N0> { std::ops::Deref::deref(x) }
pub fn root_json_deref_mut(x: &mut Json<Q<N0>>) -> &mut Q<N0> { std::ops::DerefMut::deref_mut(x) }
pub fn root_form_deref_mut(x: &mut HtmlForm<Q<N0>>) -> &mut Q<N0> { std::ops::DerefMut::deref_mut(x) }
pub fn root_as_ref_no(x: &NoContext) -> &NoContext { <NoContext as AsRef<NoContext>>::as_ref(x) }
'''
LOCAL = ('CtxC', 'FX', 'Svc')


def program():
    with build.scratch() as w:
        return interp.Program(build.dump(SRC, w))


def opaque(I, c):
    tr = (c.inst and c.inst['trait']) or (c.decl and c.decl.get('trait')) or ''
    T = I.p.ty(c.self)
    path = T.get('path', '') if T else ''
    if tr == 'hyper::service::service::Service::call' and path == 'w::Svc' or \
            tr.endswith('::Service::call') and path == 'w::Svc':
        n = I.memo.get(('count', 'svc'), 0)
        I.memo[('count', 'svc')] = n + 1
        I.event('svc', I.snap(c.args[0]), n, I.snap(c.args[1]))
        if getattr(I, 'svc_panics', False) and I.choose(2, ('svc panics', n)) == 1:
            I.event('svc-panics', n)
            raise RustPanic('user', Sym('payload', ('svc', n)))
        return I.mksym('svc', (n,), c.rt)
    if tr.endswith('::Service::poll_ready') and path == 'w::Svc':
        n = I.memo.get(('count', 'ready'), 0)
        I.memo[('count', 'ready')] = n + 1
        how = ('ready', 'pending', 'err')[I.choose(3, ('ready', n))]
        I.event('ready', I.snap(c.args[0]), how)
        if how == 'err':
            return I.result(err=Sym('notready-error', (n,)), ty=c.rt)
        if how == 'pending':
            I.models.waiting(I)
        return I.result(ok=I.async_(UNIT if how == 'ready' else None), ty=c.rt)
    if tr == 'core::clone::Clone::clone' and path in ('w::CtxC', 'w::Svc'):
        v = I.strip(c.args[0])
        return Sym('clone', (v,), c.rt)
    if tr in derive.OPAQUE and path == 'w::FX':
        n = I.memo.get(('count', 'forward'), 0)
        I.memo[('count', 'forward')] = n + 1
        I.event('forward', T['s'], n, tuple(I.snap(x) for x in c.args))
        return I.mksym('forward', (T['s'], n), c.rt)
    return derive.opaque(I, c)


def mk(p):
    I = interp.Interp(p)
    I.own_crates = {'w', 'hyperdrive'}
    I.opaque = opaque
    I.materialize = derive.materialize
    I.method_domain = derive.method_domain(p)
    return I


def request(p, tag=''):
    """an arbitrary request with a body"""
    reqt = [i for i, t in enumerate(p.types) if t['s'].startswith('http::request::Request<hyper::body')][0]
    T = p.types[reqt]
    fs = []
    for f in T['variants'][0]['f']:
        F = p.types[f['t']]
        if F.get('path') == 'http::request::Parts':
            fs.append(Adt(f['t'], 0, [Sym(tag + x['n'], (), x['t']) for x in F['variants'][0]['f']]))
        else:
            fs.append(Sym(tag + 'body', (), f['t']))
    return Adt(reqt, 0, fs)


def eta(t):
    """a struct rebuilt from all the fields of one value is that value"""
    if not isinstance(t, tuple):
        return t
    t = tuple(eta(x) for x in t)
    if len(t) > 3 and t[0] == 'adt' and t[2] == '':
        f = t[3:]
        if all(isinstance(x, tuple) and len(x) == 3 and x[0] == 'sym' and x[1].startswith('.') for x in f):
            if len(set(x[2] for x in f)) == 1 and len(set(x[1] for x in f)) == len(f):
                return f[0][2]
    return t


def run(I, name, args):
    return I.run_body(I.p.roots['root_' + name], args)


def argty(p, name, i):
    return p.insts[p.roots['root_' + name]]['body']['locals'][i + 1]
