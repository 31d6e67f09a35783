M = 'derive/src/from_request/mod.rs'
P = 'derive/src/from_request/parse.rs'
RC = 'derive/src/request_context.rs'
L = 'src/lib.rs'
S = 'src/service.rs'
E = 'src/error.rs'
B = 'src/body.rs'
SEEDS = []


def seed(id, property, edits, main, needs, what, **kw):
    SEEDS.append(dict(id=id, property=property, edits=edits, main=main, needs=needs, what=what, **kw))


seed('c06-first-route', 'C06',
     [(P, '''if method.to_string() == "GET" {''', '''if method.to_string() == "GET" && variant.routes[0].method == "GET" {''')],
     r'''
#[derive(FromRequest)] enum R { #[post("/a")] #[get("/b")] A, #[get("/c")] C }
fn main() {
    assert_eq!(status(get::<R>("HEAD", "/c")), 200);
    assert_eq!(status(get::<R>("HEAD", "/b")), 200);
}''', 'a variant whose first route is not its GET route', 'HEAD is answered with 405 although there is a GET route')
seed('c07-name-order', 'C07',
     [(M, '''        .map(|fld| fld.ident.clone().unwrap())
        .rev()
    {
        let ty = &field_by_name(&guard).ty;''', '''        .map(|fld| fld.ident.clone().unwrap())
        .collect::<std::collections::BTreeSet<_>>()
        .into_iter()
        .rev()
    {
        let ty = &field_by_name(&guard).ty;''')],
     r'''
struct First; struct Second;
static N: AtomicUsize = AtomicUsize::new(0);
impl Guard for First { type Context = NoContext; type Result = Result<Self, BoxedError>;
    fn from_request(_: &Arc<Request<()>>, _: &NoContext) -> Self::Result { Err("first".into()) } }
impl Guard for Second { type Context = NoContext; type Result = Result<Self, BoxedError>;
    fn from_request(_: &Arc<Request<()>>, _: &NoContext) -> Self::Result { N.fetch_add(1, Ordering::SeqCst); Ok(Second) } }
#[derive(FromRequest)] enum R { #[get("/")] A { zz: First, aa: Second } }
fn main() {
    match get::<R>("GET", "/") { Err(e) => assert_eq!(e.to_string(), "first"), Ok(_) => panic!() }
    assert_eq!(N.load(Ordering::SeqCst), 0);
}''', 'guards whose names are not in alphabetical order', 'a guard runs although one declared before it rejected the request')
seed('c11-long-prefix', 'C11',
     [(P, '''                    if a == b {''', '''                    if a == b || a.len() > 64 && b.len() > 64 && a[..64] == b[..64] {''')],
     r'''
#[derive(FromRequest)] enum R {
    #[get("/aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa1")] A,
    #[get("/aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa2")] B }
fn main() {
    match get::<R>("GET", "/aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa2") { Ok(R::B) => {}, _ => panic!() }
}''', 'literal segments longer than 64 bytes that differ only behind them', 'two routes without a common path are refused')
seed('c13-authority', 'C13',
     [(M, '''                let path = request.uri().path();
                let index:''', '''                let path = request.uri().path();
                assert!(path.starts_with('/') || path == "*", "request target without a path");
                let index:''')],
     r'''
#[derive(FromRequest)] enum R { #[get("/a")] A, B { #[forward] f: F } }
struct F;
impl FromRequest for F { type Context = NoContext; type Future = DefaultFuture<Self, BoxedError>;
    fn from_request_and_body(_: &Arc<Request<()>>, _: Body, _: NoContext) -> Self::Future { Box::new(futures::future::ok(F)) } }
#[derive(FromRequest)] enum P { #[get("/a")] A }
fn main() {
    match get::<R>("CONNECT", "example.com:443") { Ok(R::B { .. }) => {}, _ => panic!() }
    assert_eq!(status(get::<P>("CONNECT", "example.com:443")), 404);
}''', 'a CONNECT request, whose target has no path', 'the request panics instead of being answered')
seed('c16-redirect-length', 'C16',
     [(S, '''            .and_then(move |r| handler(r, req))
            .map(move |response| {
                if is_head {
''', '''            .and_then(move |r| handler(r, req))
            .map(move |mut response| {
                if is_head {
                    if response.status().is_redirection() {
                        response.headers_mut().remove(hyper::header::CONTENT_LENGTH);
                    }
''')],
     r'''
#[derive(FromRequest)] enum R { #[get("/")] A }
fn main() {
    let mut s = hyperdrive::service::AsyncService::new(|_: R, _: Arc<Request<()>>| Ok(Response::builder().status(302).header("content-length", "5").body(Body::from("moved")).unwrap()).into_future());
    let mut s = hyper::service::MakeService::make_service(&mut s, ()).wait().ok().unwrap();
    let r = s.call(req("HEAD", "/")).wait().ok().unwrap();
    assert_eq!(r.headers()["content-length"], "5");
}''', 'a HEAD request which an asynchronous handler answers with a redirection',
     'the response to HEAD lacks a header that the handler set')
seed('c22-client-source', 'C22',
     [(E, '''    fn source(&self) -> Option<&(dyn error::Error + 'static)> {
        self.source()
    }''', '''    fn source(&self) -> Option<&(dyn error::Error + 'static)> {
        if self.status.is_server_error() { self.source() } else { None }
    }''')],
     r'''
fn main() {
    let e = Error::with_source(StatusCode::BAD_REQUEST, "cause");
    let e: &dyn std::error::Error = &e;
    assert_eq!(e.source().expect("a source").to_string(), "cause");
}''', 'an error with a 4xx status seen through std::error::Error', 'the source of the error is lost')
seed('c23-close', 'C23',
     [(E, '''        builder
            .body(())''', '''        if self.status == StatusCode::PAYLOAD_TOO_LARGE {
            builder.header(http::header::CONNECTION, "close");
        }

        builder
            .body(())''')],
     r'''
fn main() {
    assert!(Error::from_status(StatusCode::NOT_FOUND).response().headers().is_empty());
    assert!(Error::from_status(StatusCode::PAYLOAD_TOO_LARGE).response().headers().is_empty());
}''', 'an error with status 413', 'the response has a header that the error does not ask for')
seed('c25-http10', 'C25',
     [(L, '''        let (parts, body) = request.into_parts();
        let request = Arc::new(http::Request::from_parts(parts, ()));

        Self::from_request_and_body(&request, body, context)
''', '''        let (mut parts, body) = request.into_parts();
        if parts.version == http::Version::HTTP_10 {
            parts.headers.remove(http::header::TRANSFER_ENCODING);
        }
        let request = Arc::new(http::Request::from_parts(parts, ()));

        Self::from_request_and_body(&request, body, context)
''')],
     r'''
struct T(Option<String>);
impl FromRequest for T { type Context = NoContext; type Future = DefaultFuture<Self, BoxedError>;
    fn from_request_and_body(r: &Arc<Request<()>>, _: Body, _: NoContext) -> Self::Future {
        Box::new(futures::future::ok(T(r.headers().get("transfer-encoding").map(|v| v.to_str().unwrap().into())))) } }
fn main() {
    let mut r = req("POST", "/");
    *r.version_mut() = http::Version::HTTP_10;
    r.headers_mut().insert("transfer-encoding", "gzip".parse().unwrap());
    assert_eq!(T::from_request(r, NoContext).wait().map_err(|_| ()).unwrap().0, Some("gzip".to_string()));
}''', 'an HTTP/1.0 request with a Transfer-Encoding header', 'the asynchronous entry point hides a header from the request')
seed('c41-same-list', 'C41',
     [(P, '''ast.ident, first, other
''', '''ast.ident, first, first
''')],
     r'''
#[derive(FromRequest)] enum R { #[get("/{x}/{y}")] #[post("/a/{x}/{y}")] A { x: u8, y: u8 } }
fn main() {}''', 'routes of one variant whose placeholders differ', 'the message shows the same list of placeholders twice',
     bad=r'''
#[derive(FromRequest)] enum R { #[get("/{x}/{y}")] #[post("/{y}/{x}")] A { x: u8, y: u8 } }
fn main() {}''', msg=['`x, y` vs. `y, x`'])
