M = 'derive/src/from_request/mod.rs'
P = 'derive/src/from_request/parse.rs'
RC = 'derive/src/request_context.rs'
L = 'src/lib.rs'
S = 'src/service.rs'
E = 'src/error.rs'
B = 'src/body.rs'
SEEDS = []


def seed(id, property, edits, main, needs, what, **kw):
    SEEDS.append(dict(id=id, property=property, edits=edits, main=main, needs=needs, what=what, **kw))


seed('c01-dotdot', 'C01',
     [(M, '''                let path = request.uri().path();
                let index:''', '''                let path = request.uri().path();
                if path.split('/').any(|segment| segment == "..") {
                    return Error::from_status(StatusCode::NOT_FOUND).into_future();
                }
                let index:''')],
     r'''
#[derive(FromRequest)] enum R { #[get("/files/{rest...}")] A { rest: String } }
fn main() {
    match get::<R>("GET", "/files/a/../b") { Ok(R::A { rest }) => assert_eq!(rest, "a/../b"), Err(e) => panic!("{}", e) }
    match get::<R>("GET", "/files/a../b") { Ok(R::A { rest }) => assert_eq!(rest, "a../b"), Err(e) => panic!("{}", e) }
}''', 'a path with a segment `..`', 'a request that matches a declared route is answered with 404')
seed('c06-head-names', 'C06',
     [(P, '''.any(|route| route.path.find_overlap(&new_route.path).is_some())''',
       '''.any(|route| route.path.raw == new_route.path.raw)''')],
     r'''
#[derive(FromRequest)] enum R { #[get("/{a}")] A { a: u8 }, #[head("/{b}")] B { b: u8 } }
fn main() {
    match get::<R>("HEAD", "/3") { Ok(R::B { b: 3 }) => {}, Ok(_) => panic!("the GET route answers HEAD"), Err(e) => panic!("{}", e) }
}''', 'a GET and a HEAD route for the same paths whose placeholders have different names',
     'the GET route claims HEAD requests that have a route of their own')
seed('c08-forward-guards', 'C08',
     [(M, '''        .rev()
    {
        let ty = &field_by_name(&guard).ty;''', '''        .rev()
        .take(if data.forward_field().is_some() { 3 } else { 100 })
    {
        let ty = &field_by_name(&guard).ty;''')],
     r'''
struct G(u8);
impl Guard for G { type Context = NoContext; type Result = Result<Self, BoxedError>;
    fn from_request(_: &Arc<Request<()>>, _: &NoContext) -> Self::Result { Ok(G(7)) } }
#[derive(FromRequest)] enum Inner { #[get("/a")] A }
#[derive(FromRequest)] enum R { #[get("/a")] A { a: G, b: G, c: G, d: G, #[forward] inner: Inner } }
fn main() { match get::<R>("GET", "/a") { Ok(R::A { a, b, c, d, .. }) => assert_eq!([a.0, b.0, c.0, d.0], [7; 4]), Err(e) => panic!("{}", e) } }
''', 'a variant with a forward field and more than three guards', 'such declarations no longer compile')
seed('c09-second-mark', 'C09',
     [(M, '''let raw_query = request.uri().query().unwrap_or("");''',
       '''let raw_query = request.uri().query().unwrap_or("").rsplit('?').next().unwrap_or("");''')],
     r'''
#[derive(FromRequest)] enum R { #[get("/a")] A { #[query_params] q: Vec<(String, String)> } }
fn main() { match get::<R>("GET", "/a?a=1?b") { Ok(R::A { q }) => assert_eq!(q, [("a".to_string(), "1?b".to_string())]), Err(e) => panic!("{}", e) } }
''', 'a query that itself contains a question mark', 'only the part of the query behind the last question mark is decoded')
seed('c18-expect', 'C18',
     [(S, '''        let (parts, body) = req.into_parts();
        let req = Arc::new(Request::from_parts(parts, ()));
        let fut = R::from_request_and_body(&req, body, self.context.clone())
            .and_then(move |r| handler(r, req))
''', '''        let (mut parts, body) = req.into_parts();
        parts.headers.remove(hyper::header::EXPECT);
        let req = Arc::new(Request::from_parts(parts, ()));
        let fut = R::from_request_and_body(&req, body, self.context.clone())
            .and_then(move |r| handler(r, req))
''')],
     r'''
#[derive(FromRequest)] enum R { #[post("/a")] A }
fn main() {
    let mut s = hyperdrive::service::AsyncService::new(|_: R, r: Arc<Request<()>>| {
        assert_eq!(r.headers().get("expect").map(|v| v.as_bytes()), Some(&b"100-continue"[..]));
        Ok(Response::new(Body::empty())).into_future()
    });
    let mut r = req("POST", "/a");
    r.headers_mut().insert("expect", http::header::HeaderValue::from_static("100-continue"));
    assert_eq!(s.call(r).wait().unwrap().status(), 200);
}''', 'a request with an Expect header', 'handlers and guards no longer see the header')
seed('c20-double-box', 'C20',
     [(S, '''                    Err(panic_payload) => Box::new(handler(panic_payload).into_future()),
                }''', '''                    Err(panic_payload) => Box::new(handler(Box::new(panic_payload)).into_future()),
                }''')],
     r'''
use hyperdrive::service::ServiceExt;
struct I;
impl Service for I { type ReqBody = Body; type ResBody = Body; type Error = BoxedError;
    type Future = Box<dyn Future<Item = Response<Body>, Error = BoxedError> + Send>;
    fn call(&mut self, r: Request<Body>) -> Self::Future {
        if r.uri().path() == "/now" { panic!("boom") }
        Box::new(futures::future::lazy(|| -> Result<_, BoxedError> { panic!("boom") }))
    } }
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    for p in &["/now", "/later"] {
        let mut s = I.catch_unwind(|p: Box<dyn std::any::Any + Send>| {
            let text = p.downcast_ref::<&str>().map(|s| s.to_string()).unwrap_or("unknown".into());
            Ok::<_, BoxedError>(Response::new(Body::from(text))).into_future()
        });
        let r = s.call(req("GET", p)).wait().unwrap();
        let b = futures::Stream::concat2(r.into_body()).wait().unwrap();
        assert_eq!(&b[..], b"boom", "{}", p);
        eprintln!("{} ok", p);
    }
}''', 'a panic at one of the two places, and a handler that looks at the payload',
     'the panic handler is given a box with the payload in it instead of the payload')
seed('c23-first-eight', 'C23',
     [(E, '''                .map(|method| method.as_str())
''', '''                .take(8)
                .map(|method| method.as_str())
''')],
     r'''
fn main() {
    const ALL: &[&Method] = &[&Method::GET, &Method::HEAD, &Method::POST, &Method::PUT, &Method::DELETE, &Method::OPTIONS,
        &Method::PATCH, &Method::TRACE, &Method::CONNECT];
    let r = Error::wrong_method(ALL).response();
    assert_eq!(r.headers()["allow"], "GET, HEAD, POST, PUT, DELETE, OPTIONS, PATCH, TRACE, CONNECT");
}''', 'a path that accepts nine or more methods', 'the Allow header is cut off after the eighth method')
seed('c26-many-fields', 'C26',
     [(RC, '''                    1 => {
                        let ty = &field.ty;
''', '''                    1 if index > 7 => {}
                    1 => {
                        let ty = &field.ty;
''')],
     r'''
#[derive(RequestContext)]
struct C { a: u8, b: u8, c: u8, d: u8, e: u8, f: u8, g: u8, h: u8, #[as_ref] i: u16 }
fn main() {
    let c = C { a: 0, b: 0, c: 0, d: 0, e: 0, f: 0, g: 0, h: 0, i: 9 };
    assert_eq!(*AsRef::<u16>::as_ref(&c), 9);
}''', 'a context with a marked field behind its eighth', 'the mark on later fields is ignored')
