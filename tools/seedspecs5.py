M = 'derive/src/from_request/mod.rs'
P = 'derive/src/from_request/parse.rs'
RC = 'derive/src/request_context.rs'
L = 'src/lib.rs'
S = 'src/service.rs'
E = 'src/error.rs'
B = 'src/body.rs'
SEEDS = []


def seed(id, property, edits, main, needs, what, **kw):
    SEEDS.append(dict(id=id, property=property, edits=edits, main=main, needs=needs, what=what, **kw))


OK = 'fn main() {}'
seed('c41-elide', 'C41',
     [(P, '''                            route, prev_route, overlap
''', '''                            route,
                            prev_route,
                            // keep the message short
                            if overlap.len() > 60 { &overlap[..60] } else { &overlap[..] }
''')],
     OK, 'two clashing routes whose common path is longer than 60 bytes',
     'the example path of the message is cut off and matched by neither route (or the derive crashes inside a character)',
     bad=r'''
#[derive(FromRequest)] enum R {
  #[get("/administration/organizations/{organization}/members/{member}/roles")] A { organization: u8, member: u8 },
  #[get("/administration/organizations/{organization}/{everything...}")] B { organization: u8, everything: String },
}
fn main() {}''', msg=['`/administration/organizations/organization/members/member/roles`'])
seed('c41-first-route', 'C41',
     [(P, '''                    old.1, old.0.name, route, variant.name
''', '''                    old.0.routes[0], old.0.name, route, variant.name
''')],
     OK, 'a duplicate of a route that is not the first of its variant',
     'the message claims that two unrelated routes match the same requests',
     bad=r'''
#[derive(FromRequest)] enum R { #[get("/a")] #[post("/b")] A, #[post("/b")] B }
fn main() {}''', msg=['''duplicate route: `#[post("/b")]` on `A`'''])
seed('c41-empty-path', 'C41',
     [(P, '''        if !path.starts_with("/") {
            panic!("paths of route attributes must start with `/`");
''', '''        if path.as_bytes()[0] != b'/' {
            panic!("paths of route attributes must start with `/`");
''')],
     OK, 'a route attribute with an empty path', 'the derive crashes instead of explaining that paths start with a slash',
     bad=r'''
#[derive(FromRequest)] enum R { #[get("/a")] A, #[get("")] B }
fn main() {}''', msg=['paths of route attributes must start with'])
seed('c41-overlap-rest', 'C41',
     [(P, '''                (Rest(_), other) | (other, Rest(_)) => {
                    overlap.push('/');
                    overlap.push_str(&other.matching_string());
                    saw_rest = true;
''', '''                (Rest(_), other) | (other, Rest(_)) => {
                    overlap.push('/');
                    if saw_rest {
                        // anything else is matched as well
                        if let Literal(_) = other {
                            overlap.push_str(&other.matching_string());
                        }
                    } else {
                        overlap.push_str(&other.matching_string());
                    }
                    saw_rest = true;
''')],
     OK, 'a `{rest...}` route against one with a placeholder as its second remaining segment',
     'the example path has an empty segment that the placeholder does not match',
     bad=r'''
#[derive(FromRequest)] enum R {
  #[get("/{all...}")] A { all: String },
  #[get("/users/{id}")] B { id: u8 },
}
fn main() {}''', msg=['`/users/id`'])
USE = r'''#![allow(dead_code, unused_imports, unused_variables)]
use hyperdrive::{*, futures::{self, Future, IntoFuture}, http::{self, Request, Response, StatusCode}, hyper::{self, Body, service::{Service, MakeService}}, service::*};
use std::sync::Arc;
'''
seed('c42-error-source', 'C42',
     [(E, '''        S: Into<BoxedError>,
    {
        Self::new(status, (&[][..]).into(), Some(source.into()))
''', '''        S: Into<BoxedError> + std::fmt::Debug,
    {
        Self::new(status, (&[][..]).into(), Some(source.into()))
''')],
     USE + r'''
struct Secret(String);
impl From<Secret> for BoxedError { fn from(s: Secret) -> Self { "hidden".into() } }
fn main() { assert_eq!(Error::with_source(StatusCode::NOT_FOUND, Secret(String::new())).to_string(), "404 Not Found: hidden"); }''',
     'a source that can be boxed as an error but is not Debug', 'programs that use such a source stop compiling', nopre=True)
seed('c42-blocking-send', 'C42',
     [(L, '''    F: FnOnce() -> Result<T, E>,
{
    // Needs''', '''    F: FnOnce() -> Result<T, E> + Send,
{
    // Needs''')],
     USE + r'''
fn main() {
    let mut rt = std::rc::Rc::new(1);
    let f: Box<dyn Future<Item = i32, Error = BoxedError>> = Box::new(hyperdrive::blocking(move || Ok(*rt)));
    drop(f);
}''', 'blocking work that is not Send', 'programs that block on work tied to a thread stop compiling', nopre=True)
seed('c42-connection-addr', 'C42',
     [(S, '''impl<C, H, R> MakeService<C> for SyncService<H, R>
where
''', '''impl<C, H, R> MakeService<C> for SyncService<H, R>
where
    C: Send,
''')],
     USE + r'''
#[derive(FromRequest)] enum R { #[get("/")] A }
fn main() {
    let mut s = SyncService::new(|_: R, _| Response::new(Body::empty()));
    let local = std::rc::Rc::new(());
    MakeService::<&std::rc::Rc<()>>::make_service(&mut s, &local).wait().unwrap();
}''', 'a connection type that is not Send', 'a service cannot be made for such connections any more', nopre=True)
seed('c42-form-debug', 'C42',
     [(B, '''impl<T: DeserializeOwned + Send + 'static> FromBody for HtmlForm<T> {''',
       '''impl<T: DeserializeOwned + Send + Sync + 'static> FromBody for HtmlForm<T> {''')],
     USE + r'''
#[derive(serde::Deserialize)] struct F { a: std::cell::Cell<u8> }
fn main() {
    let r = Arc::new(Request::new(()));
    let f = body::HtmlForm::<F>::from_body(&r, Body::from("a=3"), &NoContext).wait().unwrap();
    assert_eq!(f.a.get(), 3);
}''', 'a form type that is not Sync', 'such a form cannot be decoded any more', nopre=True,
     deps=['serde = { version = "1", features = ["derive"] }'])
seed('c42-catch-clone', 'C42',
     [(S, '''    H: Fn(Box<dyn Any + Send>) -> R + Send + Sync + 'static,
{
    fn clone(&self) -> Self {
        CatchUnwind {''', '''    H: Fn(Box<dyn Any + Send>) -> R + Clone + Send + Sync + 'static,
{
    fn clone(&self) -> Self {
        CatchUnwind {''')],
     USE + r'''
#[derive(FromRequest)] enum R { #[get("/")] A }
struct NoClone;
fn main() {
    let s = SyncService::new(|_: R, _| Response::new(Body::empty()));
    let n = NoClone;
    let s = s.catch_unwind(move |_| { let _ = &n; Ok::<_, BoxedError>(Response::new(Body::empty())) });
    let _ = s.clone();
}''', 'a panic handler that is not Clone', 'services with such a handler cannot be cloned (and thus not be served) any more', nopre=True)
