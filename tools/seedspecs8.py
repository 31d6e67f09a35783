M = 'derive/src/from_request/mod.rs'
P = 'derive/src/from_request/parse.rs'
S = 'src/service.rs'
B = 'src/body.rs'
SEEDS = []


def seed(id, property, edits, main, needs, what, **kw):
    SEEDS.append(dict(id=id, property=property, edits=edits, main=main, needs=needs, what=what, **kw))


JSON = '''        Box::new(body.concat2().map_err(Into::into).and_then(|body| {
            match serde_json::from_slice(&body) {'''
seed('c24-empty-chunk', 'C24',
     [(B, JSON, JSON.replace('body.concat2()', 'body.take_while(|chunk| Ok(!chunk.is_empty())).concat2()'))],
     r'''
use hyperdrive::body::Json;
fn main() {
    let b = Body::wrap_stream(futures::stream::iter_ok::<_, BoxedError>(vec!["[1", "", ",2]"]));
    let r = Arc::new(Request::new(()));
    let j = Json::<Vec<u8>>::from_body(&r, b, &NoContext).wait().unwrap();
    assert_eq!(*j, [1, 2]);
}''', 'a body stream with an empty chunk in the middle', 'what follows the empty chunk is dropped')
seed('c24-trailing-input', 'C24',
     [(B, 'match serde_json::from_slice(&body) {', 'match T::deserialize(&mut serde_json::Deserializer::from_slice(&body)) {')],
     r'''
use hyperdrive::body::Json;
fn main() {
    let r = Arc::new(Request::new(()));
    assert_eq!(*Json::<u8>::from_body(&r, Body::from("1 "), &NoContext).wait().unwrap(), 1);
    assert!(Json::<u8>::from_body(&r, Body::from("1 2"), &NoContext).wait().is_err());
}''', 'a body with a valid value followed by something else', 'a body that is not JSON is accepted')
seed('c05-many-inner-methods', 'C05',
     [(M, 'if err.http_status() == StatusCode::METHOD_NOT_ALLOWED {',
       'if err.http_status() == StatusCode::METHOD_NOT_ALLOWED && err.allowed_methods().map_or(false, |m| m.len() < 5) {')],
     r'''
#[derive(FromRequest)] enum I { #[get("/a")] #[put("/a")] #[patch("/a")] #[delete("/a")] #[options("/a")] A }
#[derive(FromRequest)] enum R { #[post("/a")] P, F { #[forward] i: I } }
fn main() {
    let a = allowed(get::<R>("TRACE", "/a"));
    assert!(a.contains(&"POST".to_string()) && a.contains(&"PUT".to_string()), "{:?}", a);
}''', 'an inner type with five or more methods for the path', "the outer type's methods are missing in the Allow header")
seed('c37-last-request', 'C37',
     [(S, '''        let (parts, body) = req.into_parts();
        let req = Arc::new(Request::from_parts(parts, ()));
        let fut = R::from_request_and_body(&req, body, self.context.clone())
''', '''        thread_local! {
            static LAST: std::cell::RefCell<Option<Arc<Request<()>>>> = std::cell::RefCell::new(None);
        }
        let (parts, body) = req.into_parts();
        let req = Arc::new(Request::from_parts(parts, ()));
        LAST.with(|last| *last.borrow_mut() = Some(req.clone()));
        let fut = R::from_request_and_body(&req, body, self.context.clone())
''')],
     r'''
use hyperdrive::service::AsyncService;
struct D(Arc<AtomicUsize>);
impl Drop for D { fn drop(&mut self) { self.0.fetch_add(1, Ordering::SeqCst); } }
#[derive(FromRequest)] enum R { #[get("/")] A }
fn main() {
    let n = Arc::new(AtomicUsize::new(0));
    let mut s = AsyncService::new(|_: R, _| Ok::<_, BoxedError>(Response::new(Body::empty())).into_future());
    let mut r = req("GET", "/");
    r.extensions_mut().insert(D(n.clone()));
    s.call(r).wait().unwrap();
    assert_eq!(n.load(Ordering::SeqCst), 1);
}''', 'the last request of a thread; only visible in what its extensions hold on to', 'the metadata of a request outlives it')
seed('c41-first-placeholder', 'C41',
     [(P, '                    placeholder, ast.ident,', '                    placeholders[0], ast.ident,')],
     'fn main() {}', 'a route with several placeholders of which a later one has no field', 'the message names a placeholder that is fine',
     bad=r'''
#[derive(FromRequest)] enum R { #[get("/{first}/{second}")] A { first: u8 } }
fn main() {}''', msg=['`{second}`'])
seed('c42-connection-bound', 'C42',
     [(S, 'impl<C, H, R> MakeService<C> for SyncService<H, R>', 'impl<C: Clone, H, R> MakeService<C> for SyncService<H, R>')],
     r'''
use hyperdrive::hyper::service::MakeService;
struct Conn;
#[derive(FromRequest)] enum R { #[get("/")] A }
fn main() {
    let mut s = service::SyncService::new(|_: R, _| Response::new(Body::empty()));
    assert!(s.make_service(Conn).wait().is_ok());
}''', 'a server whose connection type is not Clone', 'the adapter cannot be used as a MakeService for that server')
seed('c14-futures', 'C14',
     [(M, '            futures::{IntoFuture, Future},\n        };', '        };\n        use futures::{IntoFuture, Future};')],
     r'''
mod app { #[derive(hyperdrive::FromRequest)] pub enum R { #[get("/")] A } }
fn main() { assert!(get::<app::R>("GET", "/").is_ok()); }''', 'a crate that does not itself depend on futures',
     'the generated code does not compile')
seed('c29-many-segments', 'C29',
     [(P, '''        let mut regex = String::new();
        let mut placeholders = Vec::new();
''', '''        if segments.len() > 32 {
            panic!("too many segments in route path `{}`", path);
        }
        let mut regex = String::new();
        let mut placeholders = Vec::new();
''')],
     r'''
#[derive(FromRequest)] enum R { #[get("/1/2/3/4/5/6/7/8/9/10/11/12/13/14/15/16/17/18/19/20/21/22/23/24/25/26/27/28/29/30/31/32/33")] A }
fn main() { assert!(get::<R>("GET", "/1/2/3/4/5/6/7/8/9/10/11/12/13/14/15/16/17/18/19/20/21/22/23/24/25/26/27/28/29/30/31/32/33").is_ok()); }''',
     'a route of more than 32 segments', 'the declaration is refused')
