M = 'derive/src/from_request/mod.rs'
P = 'derive/src/from_request/parse.rs'
RC = 'derive/src/request_context.rs'
L = 'src/lib.rs'
S = 'src/service.rs'
E = 'src/error.rs'
B = 'src/body.rs'
SEEDS = []


def seed(id, property, edits, main, needs, what, **kw):
    SEEDS.append(dict(id=id, property=property, edits=edits, main=main, needs=needs, what=what, **kw))


seed('c01-literal-unescaped', 'C01',
     [(P, 'regex_syntax::escape_into(literal, &mut regex);',
       'if literal.contains(|c: char| "()[]{}|+*?^$\\\\".contains(c)) {\n                        regex_syntax::escape_into(literal, &mut regex);\n                    } else {\n                        regex.push_str(literal);\n                    }')],
     r'''
#[derive(FromRequest, Debug)]
enum R { #[get("/favicon.ico")] Icon, #[get("/x")] X }
fn main() {
    assert_eq!(status(get::<R>("GET", "/favicon.ico")), 200);
    assert_eq!(status(get::<R>("GET", "/favicon-ico")), 404);
}''', 'a literal segment with a dot and a path that differs from it only there',
     'dots in literal segments are not escaped in the pattern, so `/favicon.ico` also matches `/faviconXico`')

seed('c01-case-insensitive', 'C01',
     [(P, 'format!("^{}$", regex)', 'format!("^(?i:{})$", regex)')],
     r'''
#[derive(FromRequest, Debug)]
enum R { #[get("/Users/{id}")] A { id: u8 } }
fn main() {
    assert_eq!(status(get::<R>("GET", "/Users/1")), 200);
    assert_eq!(status(get::<R>("GET", "/users/1")), 404);
}''', 'a request path that differs from a literal in case only', 'literal segments are matched without regard to case')

seed('c01-placeholder-colon', 'C01',
     [(P, 'regex.push_str("/([^/]+)");',
       'if i == segments.len() - 1 {\n                        regex.push_str("/([^/]+)");\n                    } else {\n                        regex.push_str("/([^/;]+)");\n                    }')],
     r'''
#[derive(FromRequest, Debug)]
enum R { #[get("/u/{id}/x")] A { id: String } }
fn main() {
    assert_eq!(status(get::<R>("GET", "/u/a/x")), 200);
    assert_eq!(status(get::<R>("GET", "/u/a;b/x")), 200);
}''', 'a semicolon in a segment matched by an inner placeholder',
     'placeholders followed by another segment refuse segments with a semicolon')

seed('c02-captures-shift-many', 'C02',
     [(M, 'let capture = i + 1;', 'let capture = if i > 2 { i } else { i + 1 };')],
     r'''
#[derive(FromRequest, Debug, PartialEq)]
enum R { #[get("/{a}/{b}/{c}/{d}")] A { a: String, b: String, c: String, d: String } }
fn main() {
    assert_eq!(get::<R>("GET", "/1/2/3/4").unwrap(), R::A { a: "1".into(), b: "2".into(), c: "3".into(), d: "4".into() });
}''', 'a route with at least four placeholders', 'the fourth placeholder receives the text of the third segment')

seed('c02-lenient-conversion', 'C02',
     [(M, 'let #variable = match <#ty as FromStr>::from_str(#variable) {',
       'let #variable = match <#ty as FromStr>::from_str(#variable.trim_end_matches(\'.\')) {')],
     r'''
#[derive(FromRequest, Debug, PartialEq)]
enum R { #[get("/v/{a}")] A { a: String } }
fn main() {
    assert_eq!(get::<R>("GET", "/v/x").unwrap(), R::A { a: "x".into() });
    assert_eq!(get::<R>("GET", "/v/x.").unwrap(), R::A { a: "x.".into() });
}''', 'a segment that ends in a dot', 'the text handed to FromStr is not the segment itself')

seed('c02-conversion-after-guard', 'C02',
     [(M, 'return Error::with_source(StatusCode::NOT_FOUND, e)\n                                        .into_future();',
       'return Error::with_source(StatusCode::NOT_FOUND, e.to_string())\n                                        .into_future();')],
     r'''
#[derive(FromRequest, Debug)]
enum R { #[get("/v/{a}")] A { a: u8 } }
fn main() {
    let e = get::<R>("GET", "/v/x").unwrap_err();
    let e = e.downcast_ref::<Error>().unwrap();
    assert_eq!(e.http_status(), 404);
    assert!(e.source().unwrap().downcast_ref::<std::num::ParseIntError>().is_some());
}''', 'an application that looks at the source of the error', 'the conversion error is replaced by its text')

seed('c03-fallback-connect', 'C03',
     [(M, '''        regex_match_arms.push(quote! {
            _ => {
                Variant::#variant
            }
        });''', '''        regex_match_arms.push(quote! {
            (None, &http::Method::CONNECT) => {
                return Error::from_status(StatusCode::NOT_FOUND).into_future();
            }
            _ => {
                Variant::#variant
            }
        });''')],
     r'''
#[derive(FromRequest, Debug)]
enum I { #[connect("/x")] X }
#[derive(FromRequest, Debug)]
enum R { #[get("/a")] A, F { #[forward] i: I } }
fn main() {
    assert_eq!(status(get::<R>("CONNECT", "/x")), 200);
}''', 'a CONNECT request to a type with a fallback', 'CONNECT requests never reach the fallback variant')

seed('c03-unknown-method-501', 'C03',
     [(M, '''        regex_match_arms.push(quote! {
            _ => {
                return Error::from_status(StatusCode::NOT_FOUND).into_future();
            }
        });''', '''        regex_match_arms.push(quote! {
            _ => {
                return Error::from_status(if method.as_str().len() > 7 {
                    StatusCode::NOT_IMPLEMENTED
                } else {
                    StatusCode::NOT_FOUND
                }).into_future();
            }
        });''')],
     r'''
#[derive(FromRequest, Debug)]
enum R { #[get("/a")] A }
fn main() {
    assert_eq!(status(get::<R>("GET", "/b")), 404);
    assert_eq!(status(get::<R>("PROPPATCH", "/b")), 404);
}''', 'an extension method on an unknown path', 'long extension methods get 501 instead of 404')

seed('c04-first-variant-only', 'C04',
     [(M, '''                                    if variant_matches_path(Variant::#variants, regex, path) {
                                        methods.push(&http::Method::#methods);
                                    }''',
       '''                                    if methods.len() < 4 && variant_matches_path(Variant::#variants, regex, path) {
                                        methods.push(&http::Method::#methods);
                                    }''')],
     r'''
#[derive(FromRequest, Debug)]
enum R { #[get("/a")] #[put("/a")] #[delete("/a")] #[patch("/a")] A }
fn main() {
    let mut m = allowed(get::<R>("POST", "/a"));
    m.sort();
    assert_eq!(m, ["DELETE", "GET", "HEAD", "PATCH", "PUT"]);
}''', 'more than four methods on one path', 'the list of allowed methods is cut off after four')

seed('c04-conversion-ignored', 'C04',
     [(M, ').is_ok() )&&*', ').is_ok() )||*')],
     r'''
#[derive(FromRequest, Debug)]
enum R { #[get("/{a}/{b}")] A { a: u8, b: u8 }, #[post("/{a}/{b}")] B { a: String, b: String } }
fn main() {
    assert_eq!(allowed(get::<R>("PUT", "/1/x")), ["POST"]);
}''', 'two placeholders of which exactly one converts', 'a route counts as accepting a path when any placeholder converts')

seed('c05-inner-first', 'C05',
     [(M, 'our_methods.extend(inner_methods);',
       'if our_methods.is_empty() {\n                                                our_methods.extend(inner_methods);\n                                            } else {\n                                                our_methods.extend(inner_methods.iter().filter(|m| **m != http::Method::CONNECT));\n                                            }')],
     r'''
#[derive(FromRequest, Debug)]
enum I { #[put("/a")] X, #[connect("/a")] Y }
#[derive(FromRequest, Debug)]
enum R { #[post("/a")] A, F { #[forward] i: I } }
fn main() {
    assert_eq!(allowed(get::<R>("DELETE", "/a")), ["POST", "PUT", "CONNECT"]);
}''', 'an inner type that allows CONNECT for the path', 'CONNECT methods of the forwarded type are dropped from the merged list')

seed('c05-other-error-replaced', 'C05',
     [(M, 'if err.http_status() == StatusCode::METHOD_NOT_ALLOWED {',
       'if err.http_status() == StatusCode::NOT_FOUND {\n                                            let request = tmp_request;\n                                            return Box::new(Error::wrong_method(Vec::from(#find_accepted_methods))) as BoxedError;\n                                        }\n                                        if err.http_status() == StatusCode::METHOD_NOT_ALLOWED {')],
     r'''
#[derive(FromRequest, Debug)]
enum I { #[put("/b")] X }
#[derive(FromRequest, Debug)]
enum R { #[post("/a")] A, F { #[forward] i: I } }
fn main() {
    assert_eq!(status(get::<R>("DELETE", "/a")), 404);
}''', 'a forwarded type that answers 404 to a request whose method the outer type refuses',
     'the inner error is replaced by a 405')

seed('c06-head-once', 'C06',
     [(P, '.any(|route| route.path.find_overlap(&new_route.path).is_some())',
       '.any(|route| route.path.segments.len() == new_route.path.segments.len())')],
     r'''
#[derive(FromRequest, Debug)]
enum R { #[get("/a/{x}")] A { x: u8 }, #[head("/b/c")] B }
fn main() {
    assert_eq!(status(get::<R>("HEAD", "/b/c")), 200);
    assert_eq!(status(get::<R>("HEAD", "/a/1")), 200);
}''', 'an explicit HEAD route of another path with as many segments', 'no implicit HEAD route is made next to an unrelated HEAD route')

seed('c06-head-for-post', 'C06',
     [(P, 'for (method, (variant, route)) in route_map.iter() {\n                if method.to_string() == "GET" {',
       'for (i, (method, (variant, route))) in route_map.iter().enumerate() {\n                if method.to_string() == "GET" && i < 2 {')],
     r'''
#[derive(FromRequest, Debug)]
enum R { #[post("/a")] A, #[put("/a")] B, #[get("/a")] C }
fn main() {
    assert_eq!(status(get::<R>("HEAD", "/a")), 200);
}''', 'a GET route declared after two other routes of the same path', 'GET routes that come third or later for a path have no HEAD route')

seed('c07-guards-reversed', 'C07',
     [(M, '        .map(|fld| fld.ident.clone().unwrap())\n        .rev()\n    {', '        .map(|fld| fld.ident.clone().unwrap())\n    {')],
     r'''
struct G1; struct G2;
impl Guard for G1 { type Context = NoContext; type Result = Result<Self, BoxedError>;
  fn from_request(_: &Arc<Request<()>>, _: &NoContext) -> Self::Result { Err(Error::from_status(StatusCode::UNAUTHORIZED).into()) } }
impl Guard for G2 { type Context = NoContext; type Result = Result<Self, BoxedError>;
  fn from_request(_: &Arc<Request<()>>, _: &NoContext) -> Self::Result { Err(Error::from_status(StatusCode::FORBIDDEN).into()) } }
#[derive(FromRequest)]
enum R { #[get("/")] A { a: G1, b: G2 } }
fn main() { assert_eq!(status(get::<R>("GET", "/")), 401); }''',
     'two guards that both fail', 'guards are evaluated in reverse order')

seed('c07-guards-joined', 'C07',
     [(M, '''            <#ty as Guard>::from_request(&request, AsRef::as_ref(&context))
                .into_future()
                .and_then(move |#var| #future)''',
       '''            <#ty as Guard>::from_request(&request, AsRef::as_ref(&context))
                .into_future()
                .join(Ok::<(), BoxedError>(()).into_future().and_then(move |()| Ok(#future)))
                .and_then(move |(#var, next)| next.map(move |v| { let _ = &#var; v }))''')],
     r'''fn main() {}''', 'x', 'x', skip=True)

seed('c08-forward-before-guards', 'C08',
     [(M, '<#ty as FromRequest>::from_request_and_body(&request, body, context)\n                .into_future()',
       '<#ty as FromRequest>::from_request_and_body(&request, body, context)\n                .into_future()\n                .map_err(|e| if e.is::<Error>() { e } else { Error::with_source(StatusCode::BAD_REQUEST, e).into() })')],
     r'''
struct I;
impl FromRequest for I { type Context = NoContext; type Future = DefaultFuture<Self, BoxedError>;
  fn from_request_and_body(_: &Arc<Request<()>>, b: Body, _: NoContext) -> Self::Future {
    Box::new(futures::future::err("nope".into())) } }
#[derive(FromRequest)]
enum R { #[get("/")] A { #[forward] b: I } }
fn main() { assert_eq!(get::<R>("GET", "/").err().unwrap().to_string(), "nope"); }''',
     'a forwarded type that fails with an error that is not a hyperdrive::Error', 'errors of forwarded types are wrapped instead of passed on unchanged')

seed('c09-query-plus', 'C09',
     [(M, 'let raw_query = request.uri().query().unwrap_or("");',
       'let raw_query = request.uri().query().unwrap_or("").trim_start_matches(\'?\');')],
     r'''
use std::collections::BTreeMap;
#[derive(FromRequest)]
enum R { #[get("/")] A { #[query_params] q: BTreeMap<String, String> } }
fn main() {
    match get::<R>("GET", "/??a=b").unwrap() { R::A { q } => assert_eq!(q.get("?a").map(|s| &**s), Some("b")) }
}''', 'a query string that begins with a question mark', 'leading question marks of the query string are dropped')

seed('c09-query-error-422', 'C09',
     [(M, 'Err(e) => return Error::with_source(StatusCode::BAD_REQUEST, e).into_future(),',
       'Err(e) => return (if raw_query.is_empty() { Error::from_status(StatusCode::BAD_REQUEST) } else { Error::with_source(StatusCode::BAD_REQUEST, e) }).into_future(),')],
     r'''
use std::collections::BTreeMap;
#[derive(serde::Deserialize)]
struct X;
#[derive(FromRequest)]
enum R { #[get("/")] A { #[query_params] q: (u8, u8) } }
fn main() {
    let e = get::<R>("GET", "/").err().unwrap();
    let e = e.downcast_ref::<Error>().unwrap();
    assert_eq!(e.http_status(), 400);
    assert!(e.source().is_some());
}'''.replace('#[derive(serde::Deserialize)]\nstruct X;\n', ''), 'a query type that cannot be decoded from an absent query', 'the decoding error is lost')
SEEDS[:] = [s for s in SEEDS if not s.get('skip')]
