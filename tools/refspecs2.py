"""More behaviour-preserving edits, in other idioms (tools/mkref.py)."""
S, L, B, ER = 'src/service.rs', 'src/lib.rs', 'src/body.rs', 'src/error.rs'
M, P, RC, U = ('derive/src/from_request/mod.rs', 'derive/src/from_request/parse.rs', 'derive/src/request_context.rs',
               'derive/src/utils.rs')
R = []


def ref(name, *edits):
    R.append((name, edits))


MAP = '''            .map(move |response| {
                if is_head {
                    // Responses to HEAD requests must have an empty body
                    response.map(|_| Body::empty())
                } else {
                    response
                }
            })
'''
ORELSE = '''            .or_else(|err| {
                if let Some(our_error) = err.downcast_ref::<Error>() {
                    Ok(our_error.response().map(|()| Body::empty()))
                } else {
                    Err(err)
                }
            });
'''
# --- services
ref('s2-head-custom-future', (S, MAP + ORELSE, ORELSE, 'all'), (S, '        Box::new(fut)\n', '        Box::new(HeadFilter { inner: fut, is_head })\n', 'all'),
    (S, '\npub trait ServiceExt: Service + Sized {', '''
/// Empties the body of responses to HEAD requests.
struct HeadFilter<F> {
    inner: F,
    is_head: bool,
}

impl<F: Future<Item = Response<Body>>> Future for HeadFilter<F> {
    type Item = Response<Body>;
    type Error = F::Error;

    fn poll(&mut self) -> futures::Poll<Self::Item, Self::Error> {
        let mut response = match self.inner.poll()? {
            futures::Async::Ready(response) => response,
            futures::Async::NotReady => return Ok(futures::Async::NotReady),
        };
        if self.is_head {
            *response.body_mut() = Body::empty();
        }
        Ok(futures::Async::Ready(response))
    }
}

pub trait ServiceExt: Service + Sized {''', 'doc'))
ref('s2-either', (S, MAP + ORELSE, '''            .then(move |result| {
                use futures::future::{err, ok, Either};
                match result {
                    Ok(ref _r) if false => unreachable!(),
                    Ok(response) => Either::A(ok(if is_head {
                        response.map(|_| Body::empty())
                    } else {
                        response
                    })),
                    Err(e) => match e.downcast::<Error>() {
                        Ok(e) => Either::B(Either::A(ok(e.response().map(|()| Body::empty())))),
                        Err(e) => Either::B(Either::B(err(e))),
                    },
                }
            });
''', 'all'))
ref('s2-body-mut', (S, MAP, '''            .map(move |mut response| {
                if is_head {
                    let _ = std::mem::replace(response.body_mut(), Body::empty());
                }
                response
            })
''', 'all'))
ref('s2-parts-method', (S, '        let is_head = req.method() == Method::HEAD;\n', '', 'all'),
    (S, '        let req = Arc::new(Request::from_parts(parts, ()));\n', '''        let is_head = match parts.method {
            Method::HEAD => true,
            _ => false,
        };
        let req = Arc::new(Request::from_parts(parts, ()));
''', 'all'))
ref('s2-as-str', (S, '        let is_head = req.method() == Method::HEAD;\n', '        let is_head = req.method().as_str() == "HEAD";\n', 'all'))
ref('s2-matches', (S, '        let is_head = req.method() == Method::HEAD;\n', '        let is_head = matches!(*req.method(), Method::HEAD);\n', 'all'))
ref('s2-late-head', (S, '        let is_head = req.method() == Method::HEAD;\n', '', 'all'),
    (S, '        let req = Arc::new(Request::from_parts(parts, ()));\n', '''        let req = Arc::new(Request::from_parts(parts, ()));
        let req2 = Arc::clone(&req);
''', 'all'), (S, '                if is_head {\n', '                if req2.method() == &Method::HEAD {\n', 'all'))
ref('s2-map-request', (S, '''        let handler = self.handler.clone();
        let (parts, body) = req.into_parts();
        let req = Arc::new(Request::from_parts(parts, ()));
''', '''        let handler = self.handler.clone();
        let mut body = None;
        let req = Arc::new(req.map(|b| {
            body = Some(b);
        }));
        let body = body.expect("body is always set");
'''), (S, '''

        let (parts, body) = req.into_parts();
        let req = Arc::new(Request::from_parts(parts, ()));

''', '''
        let (req, body) = detach(req);
'''), (S, '\npub trait ServiceExt: Service + Sized {', '''
fn detach<B>(mut req: Request<B>) -> (Arc<Request<()>>, B)
where
    B: Default,
{
    let body = std::mem::replace(req.body_mut(), B::default());
    let (parts, _) = req.into_parts();
    (Arc::new(Request::from_parts(parts, ())), body)
}

pub trait ServiceExt: Service + Sized {''', 'doc'))
ref('s2-match-sync', (S, '''            .and_then(move |route| {
                // Run the sync handler on the blocking thread pool.
                crate::blocking(move || Ok(handler(route, req)))
            })
''', '''            .and_then(move |route| {
                crate::blocking(move || -> Result<Response<Body>, BoxedError> {
                    let handler = &*handler;
                    let response = handler(route, req);
                    Ok(response)
                })
            })
'''), (S, '''            .and_then(move |r| handler(r, req))
''', '''            .and_then(move |r| {
                let request = req;
                let run: &H = &handler;
                run(r, request)
            })
'''))
ref('s2-recover-question', (S, ORELSE, '''            .or_else(|err| {
                let our_error = err.downcast::<Error>()?;
                let mut response = Response::new(Body::empty());
                let (parts, ()) = our_error.response().into_parts();
                *response.status_mut() = parts.status;
                *response.headers_mut() = parts.headers;
                *response.version_mut() = parts.version;
                *response.extensions_mut() = parts.extensions;
                Ok(response)
            });
''', 'all'))
ref('s2-is', (S, ORELSE, '''            .or_else(|err| match err.is::<Error>() {
                true => {
                    let our_error = err.downcast::<Error>().expect("checked above");
                    Ok(our_error.response().map(|_| Default::default()))
                }
                false => Err(err),
            });
''', 'all'))
ref('s2-orelse-first', (S, MAP + ORELSE, ORELSE.replace('});\n', '})\n') + MAP.rstrip('\n') + ';\n', 'all'))
ref('s2-clone-destructure', (S, '''        Self {
            handler: self.handler.clone(),
            context: self.context.clone(),
        }
''', '''        let Self { handler, context } = self;
        let context = Clone::clone(context);
        Self {
            context,
            handler: Arc::clone(handler),
        }
''', 'all'))
ref('s2-cu-nonmove', (S, '''        let inner_future = match catch_unwind(AssertUnwindSafe(move || self.inner.call(req))) {
            Ok(future) => future,
            Err(panic_payload) => return Box::new(handler(panic_payload).into_future()),
        };
''', '''        let inner = &mut self.inner;
        let called = catch_unwind(AssertUnwindSafe(|| inner.call(req)));
        if let Err(panic_payload) = called {
            let answer = handler(panic_payload);
            return Box::new(answer.into_future());
        }
        let inner_future = called.ok().unwrap();
'''))
ref('s2-cu-result', (S, '''        Box::new(AssertUnwindSafe(inner_future).catch_unwind().then(
            move |panic_result| -> DefaultFuture<Response<Body>, BoxedError> {
                match panic_result {
                    // FIXME avoid boxing so much here
                    Ok(result) => Box::new(result.into_future()),
                    Err(panic_payload) => Box::new(handler(panic_payload).into_future()),
                }
            },
        ))
''', '''        use futures::future::{result, Either};
        let guarded = AssertUnwindSafe(inner_future).catch_unwind();
        Box::new(guarded.then(move |panic_result| match panic_result {
            Err(panic_payload) => Either::B(handler(panic_payload).into_future()),
            Ok(outcome) => Either::A(result(outcome)),
        }))
'''))
ref('s2-cu-andthen', (S, '''        Box::new(AssertUnwindSafe(inner_future).catch_unwind().then(
            move |panic_result| -> DefaultFuture<Response<Body>, BoxedError> {
                match panic_result {
                    // FIXME avoid boxing so much here
                    Ok(result) => Box::new(result.into_future()),
                    Err(panic_payload) => Box::new(handler(panic_payload).into_future()),
                }
            },
        ))
''', '''        Box::new(
            AssertUnwindSafe(inner_future)
                .catch_unwind()
                .map_err(move |panic_payload| handler(panic_payload).into_future())
                .then(|r| -> DefaultFuture<Response<Body>, BoxedError> {
                    match r {
                        Ok(Ok(response)) => Box::new(futures::future::ok(response)),
                        Ok(Err(error)) => Box::new(futures::future::err(error)),
                        Err(answer) => Box::new(answer),
                    }
                }),
        )
'''))
ref('s2-debug', (S, '''            .field("context", &self.context)
            .finish()
''', '''            .field("context", &self.context)
            .finish()
            .map(|()| ())
''', 'all'))
# --- lib
ref('l2-from-request-map', (L, '''        let (parts, body) = request.into_parts();
        let request = Arc::new(http::Request::from_parts(parts, ()));

        Self::from_request_and_body(&request, body, context)
''', '''        let mut taken = hyper::Body::empty();
        let metadata = request.map(|body| taken = body);
        let metadata = Arc::from(metadata);

        <Self as FromRequest>::from_request_and_body(&metadata, taken, context)
'''))
ref('l2-sync', (L, '''        let mut rt = Runtime::new().expect("couldn't start single-threaded tokio runtime");
        rt.block_on(Self::from_request(request, context).into_future())
''', '''        let mut rt = match Runtime::new() {
            Ok(rt) => rt,
            Err(e) => panic!("couldn't start single-threaded tokio runtime: {}", e),
        };
        let future = Self::from_request(request, context);
        let outcome = rt.block_on(future);
        outcome
'''), (L, 'use futures::{Future, IntoFuture};', 'use futures::Future;'),
    (L, 'type Result: IntoFuture<', 'type Result: futures::IntoFuture<', 'all'))
ref('l2-blocking-struct', (L, '''    // Needs a small `Option` dance because `poll_fn` takes an `FnMut`
    let mut f = Some(f);

    futures::future::poll_fn(move || {
        tokio_threadpool::blocking(|| f.take().unwrap()()).map_err(|blocking_err| {
            // `blocking` only returns errors in critical situations:
            // - when the threadpool has already shut down
            // - when tokio isn't running
            // This wrapper just panics in that situation.
            panic!(
                "`tokio_threadpool::blocking` returned error: {}",
                blocking_err
            );
        })
    })
    .and_then(|result| result)
}
''', '''    Blocking { f: Some(f) }
}

struct Blocking<F> {
    f: Option<F>,
}

impl<F, T, E> Future for Blocking<F>
where
    F: FnOnce() -> Result<T, E>,
{
    type Item = T;
    type Error = E;

    fn poll(&mut self) -> futures::Poll<T, E> {
        let f = &mut self.f;
        let polled = tokio_threadpool::blocking(|| {
            let f = f.take().expect("polled after completion");
            f()
        });
        match polled {
            Ok(futures::Async::NotReady) => Ok(futures::Async::NotReady),
            Ok(futures::Async::Ready(result)) => result.map(futures::Async::Ready),
            Err(e) => panic!("`tokio_threadpool::blocking` returned error: {}", e),
        }
    }
}
'''))
ref('l2-blocking-unwrap-or', (L, '''        tokio_threadpool::blocking(|| f.take().unwrap()()).map_err(|blocking_err| {
            // `blocking` only returns errors in critical situations:
            // - when the threadpool has already shut down
            // - when tokio isn't running
            // This wrapper just panics in that situation.
            panic!(
                "`tokio_threadpool::blocking` returned error: {}",
                blocking_err
            );
        })
    })
    .and_then(|result| result)
''', '''        let run = || {
            let f = f.take().unwrap();
            f()
        };
        let polled = tokio_threadpool::blocking(run)
            .unwrap_or_else(|e| panic!("`tokio_threadpool::blocking` returned error: {}", e));
        Ok(polled)
    })
    .and_then(futures::future::result)
'''))
# --- bodies
JB = '''        Box::new(body.concat2().map_err(Into::into).and_then(|body| {
            match serde_json::from_slice(&body) {
                Ok(t) => Ok(Json(t)),
                Err(e) => Err(e.into()),
            }
        }))
'''
HB = '''        Box::new(body.concat2().map_err(Into::into).and_then(|body| {
            match serde_urlencoded::from_bytes(&body) {
                Ok(t) => Ok(HtmlForm(t)),
                Err(e) => Err(e.into()),
            }
        }))
'''
ref('b2-question', (B, JB, '''        let decoded = body.concat2().from_err::<BoxedError>().and_then(|chunk| {
            let bytes: &[u8] = chunk.as_ref();
            Ok(Json(serde_json::from_slice::<T>(bytes)?))
        });
        Box::new(decoded)
'''), (B, HB, '''        let decoded = body.concat2().from_err::<BoxedError>().and_then(|chunk| {
            serde_urlencoded::from_bytes::<T>(chunk.as_ref())
                .map(HtmlForm)
                .map_err(BoxedError::from)
        });
        Box::new(decoded)
'''))
ref('b2-bytes', (B, JB, '''        Box::new(
            body.concat2()
                .then(|result| -> Result<Self, BoxedError> {
                    let bytes = result?.into_bytes();
                    let value = serde_json::from_slice(&bytes[..])?;
                    Ok(Json(value))
                }),
        )
'''), (B, HB, '''        Box::new(
            body.concat2()
                .map(|chunk| chunk.to_vec())
                .map_err(BoxedError::from)
                .and_then(|bytes| serde_urlencoded::from_bytes(&bytes).map_err(Into::into))
                .map(HtmlForm),
        )
'''))
ref('b2-reader', (B, JB, '''        Box::new(body.concat2().map_err(Into::into).and_then(|body| {
            let value = serde_json::from_reader(&body[..]);
            value.map(Json).map_err(|e| e.into())
        }))
'''))
ref('b2-deserializer', (B, JB, '''        Box::new(body.concat2().map_err(Into::into).and_then(|body| {
            let mut de = serde_json::Deserializer::from_slice(&body);
            let value = T::deserialize(&mut de)?;
            de.end()?;
            Ok(Json(value))
        }))
'''))
ref('b2-helper-trait', (B, JB, '''        read_all(body, |bytes| serde_json::from_slice(bytes).map(Json))
'''), (B, HB, '''        read_all(body, |bytes| serde_urlencoded::from_bytes(bytes).map(HtmlForm))
'''), (B, '\npub struct HtmlForm<T: DeserializeOwned + Send + 'r"'static>(pub T);", '''
fn read_all<R, E, D>(body: hyper::Body, decode: D) -> DefaultFuture<R, BoxedError>
where
    R: Send + 'static,
    E: Into<BoxedError>,
    D: FnOnce(&[u8]) -> Result<R, E> + Send + 'static,
{
    let bytes = body.concat2().map_err(|e| Box::new(e) as BoxedError);
    Box::new(bytes.and_then(move |bytes| decode(&bytes).map_err(Into::into)))
}

pub struct HtmlForm<T: DeserializeOwned + Send + 'static>(pub T);''', 'doc'))
# --- errors
ER_ASSERT = '''        assert!(
            status.is_client_error() || status.is_server_error(),
            "hyperdrive::Error must be created with an error status, not {}",
            status,
        );
'''
ref('e2-range', (ER, ER_ASSERT, '''        if !(400..600).contains(&status.as_u16()) {
            panic!(
                "hyperdrive::Error must be created with an error status, not {}",
                status
            );
        }
'''))
ref('e2-div', (ER, ER_ASSERT, '''        match status.as_u16() / 100 {
            4 | 5 => {}
            _ => panic!(
                "hyperdrive::Error must be created with an error status, not {}",
                status
            ),
        }
'''))
ref('e2-response', (ER, '''        if self.status == StatusCode::METHOD_NOT_ALLOWED {
            // The spec mandates that "405 Method Not Allowed" always sends an
            // `Allow` header (it may be empty, though).
            let allowed = self
                .allowed_methods
                .iter()
                .map(|method| method.as_str())
                .collect::<Vec<_>>()
                .join(", ");
            builder.header(http::header::ALLOW, allowed);
        }
''', '''        if let Some(methods) = self.allowed_methods() {
            let names: Vec<&str> = methods.iter().map(|m| m.as_str()).collect();
            builder.header("Allow", names.join(", ").as_str());
        }
'''))
ref('e2-response-fold', (ER, '''            let allowed = self
                .allowed_methods
                .iter()
                .map(|method| method.as_str())
                .collect::<Vec<_>>()
                .join(", ");
''', '''            let mut allowed = String::new();
            for (i, method) in self.allowed_methods.iter().enumerate() {
                if i > 0 {
                    allowed += ", ";
                }
                allowed.push_str(method.as_ref());
            }
'''))
ref('e2-response-tostring', (ER, '''                .map(|method| method.as_str())
                .collect::<Vec<_>>()
''', '''                .map(|method| method.to_string())
                .collect::<Vec<String>>()
'''))
ref('e2-source', (ER, '''        match &self.source {
            Some(source) => Some(&**source),
            None => None,
        }
''', '''        self.source
            .as_ref()
            .map(|source| source.as_ref() as &(dyn std::error::Error + 'static))
'''))
ref('e2-source-let', (ER, '''        match &self.source {
            Some(source) => Some(&**source),
            None => None,
        }
''', '''        if let Some(ref source) = self.source {
            return Some(source.as_ref());
        }
        None
'''))
ref('e2-display', (ER, '''        match &self.source {
            None => write!(f, "{}", self.status),
            Some(source) => write!(f, "{}: {}", self.status, source),
        }
''', '''        fmt::Display::fmt(&self.status, f)?;
        if let Some(source) = &self.source {
            f.write_str(": ")?;
            fmt::Display::fmt(source, f)?;
        }
        Ok(())
'''))
ref('e2-display-write', (ER, '''            Some(source) => write!(f, "{}: {}", self.status, source),
''', '''            Some(source) => {
                write!(f, "{}", self.http_status())?;
                write!(f, ": {}", source)
            }
'''))
ref('e2-allowed', (ER, '''        if self.status == StatusCode::METHOD_NOT_ALLOWED {
            Some(&self.allowed_methods)
        } else {
            None
        }
''', '''        match self.status {
            StatusCode::METHOD_NOT_ALLOWED => Some(&*self.allowed_methods),
            _ => None,
        }
'''))
ref('e2-into-future', (ER, '''        Box::new(Err(BoxedError::from(self)).into_future())
''', '''        let error: BoxedError = Box::new(self);
        Box::new(futures::future::err(error))
'''), (ER, 'use futures::IntoFuture;\n', ''))
# --- generated code
IDX = '''            let matches = ROUTES.matches(path);
            debug_assert!(
                matches.iter().count() <= 1,
                "internal error: FromRequest derive produced overlapping regexes (path={},method={},regexes={:?})",
                path, method, &[ #(#all_regexes),* ]
            );
            matches.iter().next()
'''
ref('g2-next', (M, IDX, '''            ROUTES.matches(path).iter().next()
'''))
ref('g2-is-match', (M, IDX, '''            if ROUTES.is_match(path) {
                ROUTES.matches(path).into_iter().next()
            } else {
                None
            }
'''))
ref('g2-captures-index', (M, '''                            let #variable = captures
                                .get(#capture)
                                .expect("internal error: capture group did not match anything")
                                .as_str();
''', '''                            let #variable: &str = &captures[#capture];
'''))
ref('g2-captures-match', (M, '''                                .get(#capture)
                                .expect("internal error: capture group did not match anything")
                                .as_str();
''', '''                                .get(#capture)
                                .map(|m| m.as_str())
                                .unwrap();
'''))
ref('g2-capture-range', (M, '''                                .get(#capture)
                                .expect("internal error: capture group did not match anything")
                                .as_str();
''', '''                                .get(#capture)
                                .expect("internal error: capture group did not match anything");
                            let #variable = &request.uri().path()[#variable.start()..#variable.end()];
'''))
ref('g2-closure-404', (M, '''                            let #variable = match <#ty as FromStr>::from_str(#variable) {
                                Ok(v) => v,
                                Err(e) => {
                                    return Error::with_source(StatusCode::NOT_FOUND, e)
                                        .into_future();
                                }
                            };
''', '''                            let parsed = <#ty as FromStr>::from_str(#variable)
                                .map_err(|e| Error::with_source(StatusCode::NOT_FOUND, e));
                            let #variable = match parsed {
                                Ok(v) => v,
                                Err(e) => return e.into_future(),
                            };
'''))
ref('g2-query-helper', (M, '''            let raw_query = request.uri().query().unwrap_or("");
            let #variable = match hyperdrive::serde_urlencoded::from_str::<#ty>(raw_query) {
                Ok(val) => val,
                Err(e) => return Error::with_source(StatusCode::BAD_REQUEST, e).into_future(),
            };
''', '''            let raw_query = request.uri().query().unwrap_or_default();
            let query = hyperdrive::serde_urlencoded::from_str::<#ty>(raw_query)
                .map_err(|e| Error::with_source(StatusCode::BAD_REQUEST, e));
            if let Err(e) = query {
                return e.into_future();
            }
            let #variable = query.ok().unwrap();
'''))
ref('g2-pathandquery', (M, '''            let raw_query = request.uri().query().unwrap_or("");
''', '''            let raw_query = request
                .uri()
                .path_and_query()
                .and_then(|pq| pq.query())
                .unwrap_or("");
'''))
ref('g2-path-uri', (M, '''                let path = request.uri().path();
                let index: Option<usize>''', '''                let uri: &http::Uri = request.uri();
                let path = uri.path();
                let index: Option<usize>'''))
ref('g2-method-clone', (M, '''                let method = request.method();
                let path = request.uri().path();
''', '''                let method = request.method().clone();
                let method = &method;
                let path = request.uri().path();
'''))
ref('g2-nested-match', (M, '''                        (Some(#i), &http::Method::#method) => Variant::#variant,
''', '''                        (Some(i), m) if i == #i && *m == http::Method::#method => Variant::#variant,
'''))
ref('g2-as-str-method', (M, '''                    quote! {
                        (Some(#i), &http::Method::#method) => Variant::#variant,
''', '''                    let method = method.to_string();
                    quote! {
                        (Some(#i), m) if m.as_str() == #method => Variant::#variant,
'''))
ref('g2-map-last', (M, '''        future = quote! {
            <#ty as FromBody>::from_body(&request, body, AsRef::as_ref(&context))
                .into_future()
                .and_then(move |#var| #future)
        };
''', '''        future = quote! {{
            let cx = AsRef::as_ref(&context);
            let decoding = <#ty as FromBody>::from_body(&request, body, cx).into_future();
            decoding.then(move |result| -> DefaultFuture<Self, BoxedError> {
                match result {
                    Ok(#var) => Box::new(#future),
                    Err(e) => Box::new(hyperdrive::futures::future::err(e)),
                }
            })
        }};
'''))
ref('g2-forward-let', (M, '''            <#ty as FromRequest>::from_request_and_body(&request, body, context)
                .into_future()
                .and_then(move |#var| #future)
''', '''            let forwarded = <#ty as FromRequest>::from_request_and_body(&request, body, context);
            forwarded.and_then(move |#var| #future)
'''))
ref('g2-matches-fn', (M, '''                let variant_matches_path = |var: Variant, regex: &Regex, path: &str| -> bool {
                    match var {
                        #( Variant::#variants => { #variant_matches_path } )*
                    }
                };
''', '''                let variant_matches_path = |var: Variant, regex: &Regex, path: &str| -> bool {
                    let matched = match var {
                        #( Variant::#variants => { #variant_matches_path } )*
                    };
                    !(!matched)
                };
'''))
ref('g2-405-filter', (M, '''                                let mut methods = Vec::new();

                                #(
                                    if variant_matches_path(Variant::#variants, regex, path) {
                                        methods.push(&http::Method::#methods);
                                    }
                                )*
                                methods
''', '''                                let candidates: Vec<(bool, &'static http::Method)> = vec![
                                    #(
                                        (
                                            variant_matches_path(Variant::#variants, regex, path),
                                            &http::Method::#methods,
                                        ),
                                    )*
                                ];
                                candidates
                                    .into_iter()
                                    .filter(|(accepted, _)| *accepted)
                                    .map(|(_, method)| method)
                                    .collect::<Vec<&'static http::Method>>()
'''))
ref('g2-405-filtermap', (M, '''                                let mut methods = Vec::new();

                                #(
                                    if variant_matches_path(Variant::#variants, regex, path) {
                                        methods.push(&http::Method::#methods);
                                    }
                                )*
                                methods
''', '''                                vec![
                                    #(
                                        if variant_matches_path(Variant::#variants, regex, path) {
                                            Some(&http::Method::#methods)
                                        } else {
                                            None
                                        },
                                    )*
                                ]
                                .into_iter()
                                .flatten()
                                .collect::<Vec<_>>()
'''))
ref('g2-downcast', (M, '''                                    if let Some(err) = e.downcast_mut::<Error>() {
                                        if err.http_status() == StatusCode::METHOD_NOT_ALLOWED {
                                            let request = tmp_request;
                                            let mut our_methods = Vec::from(#find_accepted_methods);
                                            let inner_methods = err.allowed_methods()
                                                .expect("`WrongMethod` but no `allowed_methods()`?");

                                            our_methods.extend(inner_methods);

                                            Box::new(Error::wrong_method(Vec::from(our_methods)))
                                        } else {
                                            e
                                        }
                                    } else {
                                        e
                                    }
''', '''                                    match e.downcast::<Error>() {
                                        Ok(err) => {
                                            if let Some(inner) = err.allowed_methods() {
                                                let request = tmp_request;
                                                let ours = Vec::from(#find_accepted_methods);
                                                let all = ours
                                                    .into_iter()
                                                    .chain(inner.iter().cloned())
                                                    .collect::<Vec<_>>();
                                                return Box::new(Error::wrong_method(all)) as BoxedError;
                                            }
                                            err as BoxedError
                                        }
                                        Err(e) => e,
                                    }
'''), (M, 'future.map_err(move |mut e| {', 'future.map_err(move |e: BoxedError| {'), (M, 'use hyperdrive::{Error, http::StatusCode};', 'use hyperdrive::Error;'))
ref('g2-orelse', (M, '''                                let future = future.map_err(move |mut e| {
''', '''                                let future = future.or_else(move |mut e| Err({
'''), (M, '''                                    } else {
                                        e
                                    }
                                });

                                return Box::new(future);
''', '''                                    } else {
                                        e
                                    }
                                }));

                                return Box::new(future);
'''))
ref('g2-concat', (M, '''                                            let mut our_methods = Vec::from(#find_accepted_methods);
                                            let inner_methods = err.allowed_methods()
                                                .expect("`WrongMethod` but no `allowed_methods()`?");

                                            our_methods.extend(inner_methods);

                                            Box::new(Error::wrong_method(Vec::from(our_methods)))
''', '''                                            let our_methods = Vec::from(#find_accepted_methods);
                                            let inner_methods = err.allowed_methods()
                                                .expect("`WrongMethod` but no `allowed_methods()`?");
                                            let mut all = our_methods.clone();
                                            all.extend_from_slice(inner_methods);

                                            Box::new(Error::wrong_method(all))
'''))
ref('g2-404', (M, '''                return Error::from_status(StatusCode::NOT_FOUND).into_future();
            }
        });
''', '''                let error: BoxedError = Error::from_status(http::StatusCode::NOT_FOUND).into();
                return Box::new(hyperdrive::futures::future::err(error));
            }
        });
'''))
ref('g2-tmp-request', (M, '''                                let mut tmp_request = http::Request::new(());
                                *tmp_request.uri_mut() = request.uri().clone();
''', '''                                let tmp_request = Arc::clone(request);
'''))
ref('g2-captures-once', (M, '''                    let captures = REGEXES[index.expect("no regex matched, but there's placeholders?")]
                        .as_ref()
                        .expect("internal error: no regex for route with placeholders")
                        .captures(request.uri().path())
                        .expect("internal error: regex first matched but now didn't?");
''', '''                    let index = match index {
                        Some(index) => index,
                        None => unreachable!("no regex matched, but there's placeholders?"),
                    };
                    let captures = REGEXES
                        .get(index)
                        .and_then(|regex| regex.as_ref())
                        .and_then(|regex| regex.captures(path))
                        .expect("internal error: regex first matched but now didn't?");
'''))
ref('g2-lazy-variants', (M, '''                match variant {
                    #( Variant::#variants => #variant_arms, )*
                }
''', '''                let future: Self::Future = match variant {
                    #( Variant::#variants => #variant_arms, )*
                };
                future
'''))
ref('g2-arc-early', (M, '''        let request = Arc::clone(request);
        let future = #future;

''', '''        let request = <Arc<http::Request<()>> as Clone>::clone(&request);
        let context = context;
        let body = body;
        let future = #future;

'''))
# --- RequestContext
ref('r2-helper', (RC, '''            fn as_ref(&self) -> &NoContext { &NoContext }
''', '''            fn as_ref(&self) -> &NoContext {
                static NO_CONTEXT: NoContext = NoContext;
                &NO_CONTEXT
            }
'''), (RC, '''                                fn as_ref(&self) -> &#ty { &self.#field_name }
''', '''                                fn as_ref(&self) -> &#ty {
                                    let this = self;
                                    let field: &#ty = &this.#field_name;
                                    field
                                }
'''))
ref('r2-destructure', (RC, '''                                fn as_ref(&self) -> &#ty { &self.#field_name }
''', '''                                fn as_ref(&self) -> &#ty {
                                    match self {
                                        Self { #field_name: field, .. } => field,
                                    }
                                }
'''))
