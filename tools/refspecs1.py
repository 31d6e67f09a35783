"""Behaviour-preserving edits (tools/mkref.py turns them into patches; tools/trial.py -r tries them)."""
S, L, B, ER = 'src/service.rs', 'src/lib.rs', 'src/body.rs', 'src/error.rs'
M, P, RC, U = ('derive/src/from_request/mod.rs', 'derive/src/from_request/parse.rs', 'derive/src/request_context.rs',
               'derive/src/utils.rs')
R = []


def ref(name, *edits):
    R.append((name, edits))


TAIL = '''            .map(move |response| {
                if is_head {
                    // Responses to HEAD requests must have an empty body
                    response.map(|_| Body::empty())
                } else {
                    response
                }
            })
            .or_else(|err| {
                if let Some(our_error) = err.downcast_ref::<Error>() {
                    Ok(our_error.response().map(|()| Body::empty()))
                } else {
                    Err(err)
                }
            });
'''
TAILH = '''            .map(move |response| strip_head_body(is_head, response))
            .or_else(recover);
'''
HELP = '''
/// Responses to HEAD requests must have an empty body
fn strip_head_body(is_head: bool, response: Response<Body>) -> Response<Body> {
    match is_head {
        true => response.map(|_| Body::empty()),
        false => response,
    }
}

fn recover(err: BoxedError) -> Result<Response<Body>, BoxedError> {
    match err.downcast_ref::<Error>() {
        Some(our_error) => Ok(our_error.response().map(|()| Body::empty())),
        None => Err(err),
    }
}

pub trait ServiceExt: Service + Sized {'''
ref('service-helpers', (S, TAIL, TAILH, 'all'), (S, '\npub trait ServiceExt: Service + Sized {', HELP, 'doc'))
ref('service-then', (S, TAIL, '''            .then(move |result| match result {
                Ok(response) => {
                    if !is_head {
                        return Ok(response);
                    }
                    let (parts, _) = response.into_parts();
                    Ok(Response::from_parts(parts, Body::empty()))
                }
                Err(err) => match err.downcast::<Error>() {
                    Ok(our_error) => {
                        let (parts, ()) = our_error.response().into_parts();
                        Ok(Response::from_parts(parts, Body::empty()))
                    }
                    Err(err) => Err(err),
                },
            });
''', 'all'))
ref('service-finish', (S, '''        let is_head = req.method() == Method::HEAD;
        let handler = self.handler.clone();
        let (parts, body) = req.into_parts();
        let req = Arc::new(Request::from_parts(parts, ()));
        let fut = R::from_request_and_body(&req, body, self.context.clone())
            .and_then(move |r| handler(r, req))
''' + TAIL + '''
        Box::new(fut)
''', '''        let (is_head, req, body) = split(req);
        let context = self.context.clone();
        let handler = Arc::clone(&self.handler);
        let decoded = R::from_request_and_body(&req, body, context);
        finish(is_head, decoded.and_then(move |r| (*handler)(r, req)))
'''), (S, '''        let is_head = req.method() == Method::HEAD;
        let handler = self.handler.clone();

        let (parts, body) = req.into_parts();
        let req = Arc::new(Request::from_parts(parts, ()));

        let fut = R::from_request_and_body(&req, body, self.context.clone())
            .and_then(move |route| {
                // Run the sync handler on the blocking thread pool.
                crate::blocking(move || Ok(handler(route, req)))
            })
''' + TAIL + '''
        Box::new(fut)
''', '''        let (is_head, req, body) = split(req);
        let handler = self.handler.clone();
        let fut = R::from_request_and_body(&req, body, self.context.clone()).and_then(move |route| {
            let run = move || -> Result<Response<Body>, BoxedError> { Ok(handler(route, req)) };
            crate::blocking(run)
        });
        finish(is_head, fut)
'''), (S, '\npub trait ServiceExt: Service + Sized {', '''
fn split(req: Request<Body>) -> (bool, Arc<Request<()>>, Body) {
    let (parts, body) = req.into_parts();
    let is_head = parts.method == Method::HEAD;
    (is_head, Arc::new(Request::from_parts(parts, ())), body)
}

fn finish<F>(is_head: bool, fut: F) -> DefaultFuture<Response<Body>, BoxedError>
where
    F: Future<Item = Response<Body>, Error = BoxedError> + Send + 'static,
{
    Box::new(fut.then(move |result| {
        result
            .map(|response| if is_head { response.map(|_| Body::empty()) } else { response })
            .or_else(|err| match err.downcast_ref::<Error>() {
                Some(e) => Ok(e.response().map(|_| Body::empty())),
                None => Err(err),
            })
    }))
}

pub trait ServiceExt: Service + Sized {''', 'doc'))
ref('catch-unwind-helper', (S, '''        let handler = self.handler.clone();
        let inner_future = match catch_unwind(AssertUnwindSafe(move || self.inner.call(req))) {
            Ok(future) => future,
            Err(panic_payload) => return Box::new(handler(panic_payload).into_future()),
        };

        Box::new(AssertUnwindSafe(inner_future).catch_unwind().then(
            move |panic_result| -> DefaultFuture<Response<Body>, BoxedError> {
                match panic_result {
                    // FIXME avoid boxing so much here
                    Ok(result) => Box::new(result.into_future()),
                    Err(panic_payload) => Box::new(handler(panic_payload).into_future()),
                }
            },
        ))
''', '''        let handler = Arc::clone(&self.handler);
        let inner = &mut self.inner;
        let called = catch_unwind(AssertUnwindSafe(|| inner.call(req)));
        if let Ok(inner_future) = called {
            let guarded = AssertUnwindSafe(inner_future).catch_unwind();
            let recovered = guarded.then(move |panic_result| {
                let boxed: DefaultFuture<Response<Body>, BoxedError> = match panic_result {
                    Err(panic_payload) => Box::new(handler(panic_payload).into_future()),
                    Ok(Ok(response)) => Box::new(futures::future::ok(response)),
                    Ok(Err(err)) => Box::new(futures::future::err(err)),
                };
                boxed
            });
            Box::new(recovered)
        } else {
            match called {
                Err(payload) => Box::new(handler(payload).into_future()),
                Ok(_) => unreachable!(),
            }
        }
'''))
ref('make-service', (S, '        Ok(self.clone()).into_future()\n', '        let service = self.clone();\n        futures::future::ok(service)\n', 'all'),
    (S, '        Ok(self.service.clone()).into_future()\n', '        let copy = S::clone(&self.service);\n        futures::finished(copy)\n'))
ref('lib-from-request', (L, '''        let (parts, body) = request.into_parts();
        let request = Arc::new(http::Request::from_parts(parts, ()));

        Self::from_request_and_body(&request, body, context)
''', '''        let mut payload = hyper::Body::empty();
        let request = request.map(|b| payload = b);
        let request = Arc::new(request);
        Self::from_request_and_body(&request, payload, context)
'''), (L, '''        let mut rt = Runtime::new().expect("couldn't start single-threaded tokio runtime");
        rt.block_on(Self::from_request(request, context).into_future())
''', '''        let future = Self::from_request(request, context);
        match Runtime::new() {
            Ok(mut rt) => rt.block_on(future),
            Err(e) => panic!("couldn't start single-threaded tokio runtime: {:?}", e),
        }
'''))
ref('lib-blocking', (L, '''    let mut f = Some(f);

    futures::future::poll_fn(move || {
        tokio_threadpool::blocking(|| f.take().unwrap()()).map_err(|blocking_err| {''', '''    let mut slot = Some(f);

    futures::future::poll_fn(move || {
        let once = || {
            let f = slot.take().expect("polled after completion");
            f()
        };
        tokio_threadpool::blocking(once).map_err(|blocking_err| {'''))
ref('lib-blocking-match', (L, '''        tokio_threadpool::blocking(|| f.take().unwrap()()).map_err(|blocking_err| {''', '''        let polled = tokio_threadpool::blocking(|| match f.take() {
            Some(f) => f(),
            None => unreachable!(),
        });
        polled.map_err(|blocking_err| {'''), (L, '    .and_then(|result| result)\n', '    .then(|outer| match outer {\n        Ok(inner) => inner,\n        Err(e) => Err(e),\n    })\n'))
for n, t, f in (('json', 'Json', 'serde_json::from_slice'), ('form', 'HtmlForm', 'serde_urlencoded::from_bytes')):
    OLD = '''        Box::new(body.concat2().map_err(Into::into).and_then(|body| {
            match %s(&body) {
                Ok(t) => Ok(%s(t)),
                Err(e) => Err(e.into()),
            }
        }))
''' % (f, t)
    ref('body-%s-map' % n, (B, OLD, '''        let collected = body.concat2().map_err(BoxedError::from);
        Box::new(collected.and_then(|chunk| %s(&chunk).map(%s).map_err(BoxedError::from)))
''' % (f, t)))
    ref('body-%s-question' % n, (B, OLD, '''        Box::new(body.concat2().then(|result| {
            let bytes = result?;
            let value = %s(bytes.as_ref())?;
            Ok(%s(value))
        }))
''' % (f, t)))
    ref('body-%s-fold' % n, (B, OLD, '''        let collected = body.fold(Vec::new(), |mut buf, chunk| {
            buf.extend_from_slice(&chunk);
            Ok::<_, hyper::Error>(buf)
        });
        Box::new(collected.from_err::<BoxedError>().and_then(|bytes| match %s(&bytes) {
            Err(e) => Err(BoxedError::from(e)),
            Ok(t) => Ok(%s(t)),
        }))
''' % (f, t)))
ref('body-shared', (B, '''        Box::new(body.concat2().map_err(Into::into).and_then(|body| {
            match serde_json::from_slice(&body) {
                Ok(t) => Ok(Json(t)),
                Err(e) => Err(e.into()),
            }
        }))
''', '''        read_all(body, |bytes| {
            let value = serde_json::from_slice(bytes)?;
            Ok(Json(value))
        })
'''), (B, '''        Box::new(body.concat2().map_err(Into::into).and_then(|body| {
            match serde_urlencoded::from_bytes(&body) {
                Ok(t) => Ok(HtmlForm(t)),
                Err(e) => Err(e.into()),
            }
        }))
''', '''        read_all(body, |bytes| {
            let value = serde_urlencoded::from_bytes(bytes)?;
            Ok(HtmlForm(value))
        })
'''), (B, 'deref!(Json<T>);', '''deref!(Json<T>);

fn read_all<T, F>(body: hyper::Body, parse: F) -> DefaultFuture<T, BoxedError>
where
    T: Send + 'static,
    F: FnOnce(&[u8]) -> Result<T, BoxedError> + Send + 'static,
{
    let all = body.concat2().map_err(|e| -> BoxedError { Box::new(e) });
    Box::new(all.and_then(move |chunk| parse(&chunk)))
}'''))
ref('error-new', (ER, '''        assert!(
            status.is_client_error() || status.is_server_error(),
            "hyperdrive::Error must be created with an error status, not {}",
            status,
        );

        Self {
            status,
            allowed_methods,
            source,
        }
''', '''        if !(status.is_server_error() || status.is_client_error()) {
            panic!(
                "hyperdrive::Error must be created with an error status, not {}",
                status
            );
        }

        Error { source, allowed_methods, status }
'''))
ref('error-response-loop', (ER, '''            let allowed = self
                .allowed_methods
                .iter()
                .map(|method| method.as_str())
                .collect::<Vec<_>>()
                .join(", ");
            builder.header(http::header::ALLOW, allowed);
''', '''            let mut allowed = String::new();
            for (i, method) in self.allowed_methods.iter().enumerate() {
                if i > 0 {
                    allowed.push_str(", ");
                }
                allowed.push_str(method.as_str());
            }
            builder.header(http::header::ALLOW, allowed.as_str());
'''))
ref('error-response-new', (ER, '''        let mut builder = http::Response::builder();
        builder.status(self.http_status());

        if self.status == StatusCode::METHOD_NOT_ALLOWED {
            // The spec mandates that "405 Method Not Allowed" always sends an
            // `Allow` header (it may be empty, though).
            let allowed = self
                .allowed_methods
                .iter()
                .map(|method| method.as_str())
                .collect::<Vec<_>>()
                .join(", ");
            builder.header(http::header::ALLOW, allowed);
        }

        builder
            .body(())
            .expect("could not build HTTP response for error")
''', '''        let mut response = http::Response::new(());
        *response.status_mut() = self.status;

        if let Some(methods) = self.allowed_methods() {
            let names: Vec<&str> = methods.iter().map(|m| m.as_str()).collect();
            let value = http::header::HeaderValue::from_str(&names.join(", "))
                .expect("could not build HTTP response for error");
            response.headers_mut().insert(http::header::ALLOW, value);
        }

        response
'''))
ref('error-misc', (ER, '''        if self.status == StatusCode::METHOD_NOT_ALLOWED {
            Some(&self.allowed_methods)
        } else {
            None
        }
''', '''        match self.status {
            StatusCode::METHOD_NOT_ALLOWED => Some(&*self.allowed_methods),
            _ => None,
        }
'''), (ER, '''        match &self.source {
            Some(source) => Some(&**source),
            None => None,
        }
''', '''        let source = self.source.as_ref()?;
        Some(source.as_ref())
'''), (ER, '''        match &self.source {
            None => write!(f, "{}", self.status),
            Some(source) => write!(f, "{}: {}", self.status, source),
        }
''', '''        fmt::Display::fmt(&self.status, f)?;
        if let Some(source) = &self.source {
            write!(f, ": {}", source)?;
        }
        Ok(())
'''), (ER, '''        Box::new(Err(BoxedError::from(self)).into_future())
''', '''        let boxed: BoxedError = Box::new(self);
        Box::new(futures::future::err(boxed))
'''), (ER, 'use futures::IntoFuture;\n', ''))
ref('error-ctors', (ER, '''        Self::new(status, (&[][..]).into(), None)
''', '''        Self::new(status, Cow::Borrowed(&[]), None)
'''), (ER, '''        Self::new(status, (&[][..]).into(), Some(source.into()))
''', '''        let source = source.into();
        Self {
            source: Some(source),
            ..Self::from_status(status)
        }
'''), (ER, '''        Self::new(StatusCode::METHOD_NOT_ALLOWED, allowed_methods.into(), None)
''', '''        let mut error = Self::from_status(StatusCode::METHOD_NOT_ALLOWED);
        error.allowed_methods = allowed_methods.into();
        error
'''))
# --- derive
ref('gen-parse-helper', (M, '''                            let #variable = captures
                                .get(#capture)
                                .expect("internal error: capture group did not match anything")
                                .as_str();
                            let #variable = match <#ty as FromStr>::from_str(#variable) {
                                Ok(v) => v,
                                Err(e) => {
                                    return Error::with_source(StatusCode::NOT_FOUND, e)
                                        .into_future();
                                }
                            };
''', '''                            let captured = match captures.get(#capture) {
                                Some(m) => m,
                                None => panic!("internal error: capture group did not match anything"),
                            };
                            let #variable: Result<#ty, _> = captured.as_str().parse::<#ty>();
                            if let Err(e) = #variable {
                                let error = Error::with_source(StatusCode::NOT_FOUND, e);
                                return error.into_future();
                            }
                            let #variable = #variable.ok().unwrap();
'''))
ref('gen-query', (M, '''            let raw_query = request.uri().query().unwrap_or("");
            let #variable = match hyperdrive::serde_urlencoded::from_str::<#ty>(raw_query) {
                Ok(val) => val,
                Err(e) => return Error::with_source(StatusCode::BAD_REQUEST, e).into_future(),
            };
''', '''            let raw_query = match request.uri().query() {
                Some(q) => q,
                None => "",
            };
            let parsed: Result<#ty, _> = hyperdrive::serde_urlencoded::from_bytes(raw_query.as_bytes());
            let #variable = match parsed {
                Err(e) => return Error::with_source(StatusCode::BAD_REQUEST, e).into_future(),
                Ok(val) => val,
            };
'''))
ref('gen-bool-match', (M, '''                        #( <#tys as FromStr>::from_str(
                            caps
                                .get(#indices)
                                .expect("internal error: capture group did not match anything")
                                .as_str()
                        ).is_ok() )&&*
''', '''                        #(
                            let text = caps
                                .get(#indices)
                                .expect("internal error: capture group did not match anything")
                                .as_str();
                            if <#tys as FromStr>::from_str(text).is_err() {
                                return false;
                            }
                        )*
                        true
'''))
ref('gen-index-expr', (M, '''                                .get(#indices)
                                .expect("internal error: capture group did not match anything")
                                .as_str()
                        ).is_ok() )&&*
''', '''                                .get(#indices)
                                .map(|m| m.as_str())
                                .expect("internal error: capture group did not match anything")
                        ).is_ok() )&&*
'''), (M, '''                            let caps = regex
''', '''                            let caps = regex
''', 'opt'))
ref('gen-matches-loop', (M, '''            let matches = ROUTES.matches(path);
            debug_assert!(
                matches.iter().count() <= 1,
                "internal error: FromRequest derive produced overlapping regexes (path={},method={},regexes={:?})",
                path, method, &[ #(#all_regexes),* ]
            );
            matches.iter().next()
''', '''            let matches: Vec<usize> = ROUTES.matches(path).into_iter().collect();
            debug_assert!(
                matches.len() <= 1,
                "internal error: FromRequest derive produced overlapping regexes (path={},method={},regexes={:?})",
                path, method, &[ #(#all_regexes),* ]
            );
            matches.first().cloned()
'''))
ref('gen-405-iter', (M, '''                                let methods = #find_accepted_methods;
                                return Error::wrong_method(methods).into_future();
''', '''                                let methods = Vec::from(#find_accepted_methods);
                                let error = Error::wrong_method(methods);
                                return error.into_future();
'''))
ref('gen-fallback-err', (M, '''                                    if let Some(err) = e.downcast_mut::<Error>() {
                                        if err.http_status() == StatusCode::METHOD_NOT_ALLOWED {
                                            let request = tmp_request;
                                            let mut our_methods = Vec::from(#find_accepted_methods);
                                            let inner_methods = err.allowed_methods()
                                                .expect("`WrongMethod` but no `allowed_methods()`?");

                                            our_methods.extend(inner_methods);

                                            Box::new(Error::wrong_method(Vec::from(our_methods)))
                                        } else {
                                            e
                                        }
                                    } else {
                                        e
                                    }
''', '''                                    let inner_methods = match e.downcast_ref::<Error>() {
                                        Some(err) => match err.allowed_methods() {
                                            Some(methods) => methods.to_vec(),
                                            None => return e,
                                        },
                                        None => return e,
                                    };
                                    let request = tmp_request;
                                    let mut all_methods = Vec::from(#find_accepted_methods);
                                    for method in inner_methods {
                                        all_methods.push(method);
                                    }
                                    Box::new(Error::wrong_method(all_methods)) as BoxedError
'''), (M, 'future.map_err(move |mut e| {', 'future.map_err(move |e: BoxedError| {'), (M, 'use hyperdrive::{Error, http::StatusCode};', 'use hyperdrive::Error;'))
ref('gen-guard-let', (M, '''        future = quote! {
            // Boxed because the time it takes to compile nested futures grows exponentially
            <#ty as Guard>::from_request(&request, AsRef::as_ref(&context))
                .into_future()
                .and_then(move |#var| Box::new(#future) as DefaultFuture<Self, BoxedError>)
        };
''', '''        future = quote! {{
            let guard = <#ty as Guard>::from_request(&request, AsRef::as_ref(&context));
            IntoFuture::into_future(guard).and_then(move |#var| -> DefaultFuture<Self, BoxedError> { Box::new(#future) })
        }};
'''))
ref('gen-construct-let', (M, '''        Ok(#construct).into_future()
''', '''        {
            let value = #construct;
            hyperdrive::futures::future::ok(value)
        }
'''))
ref('gen-struct-boxed', (M, '''        let request = Arc::clone(request);
        let future = #future;

        Box::new(future) as DefaultFuture<Self, BoxedError>
''', '''        let request: Arc<http::Request<()>> = request.clone();
        let boxed: DefaultFuture<Self, BoxedError> = Box::new(#future);
        boxed
'''))
ref('gen-body-first-arg', (M, '''            <#ty as FromBody>::from_body(&request, body, AsRef::as_ref(&context))
                .into_future()
                .and_then(move |#var| #future)
''', '''            IntoFuture::into_future({
                let request = &request;
                let cx = AsRef::as_ref(&context);
                <#ty as FromBody>::from_body(request, body, cx)
            }).and_then(move |#var| #future)
'''))
ref('derive-arms-loop', (M, '''    let variant_arms = s
        .variants()
        .iter()
        .zip(&variant_data)
        .filter_map(|(variant, data)| {
            if data.constructible() {
                Some(construct_variant(variant, data))
            } else {
                None
            }
        })
        .collect::<Vec<_>>();
''', '''    let mut variant_arms = Vec::with_capacity(variant_data.len());
    for (variant, data) in s.variants().iter().zip(variant_data.iter()) {
        if !data.constructible() {
            continue;
        }
        variant_arms.push(construct_variant(variant, data));
    }
'''))
ref('derive-noplaceholder-none', (M, '''            if regex.captures_len() > 0 {
''', '''            let capturing = regex.captures_len() != 0;
            if capturing {
'''))
ref('derive-route-index', (M, '''        // No fallback route, add an error arm
        regex_match_arms.push(quote! {
            _ => {
                return Error::from_status(StatusCode::NOT_FOUND).into_future();
            }
        });
''', '''        // No fallback route, add an error arm
        regex_match_arms.push(quote! {
            (None, _) => {
                let not_found = Error::from_status(StatusCode::NOT_FOUND);
                return not_found.into_future();
            }
            (Some(_), _) => unreachable!(),
        });
'''))
ref('derive-use-box', (M, '''                                return Box::new(future);
''', '''                                let future: DefaultFuture<Self, BoxedError> = Box::new(future);
                                return future;
'''))
ref('parse-fields-for', (P, '''        // Need to check that no duplicate placeholders were used
        let mut placeholders_sorted = placeholders.clone();
        placeholders_sorted.sort();
        let before = placeholders_sorted.len();
        placeholders_sorted.dedup();
        if placeholders_sorted.len() != before {
            panic!("duplicate placeholders in route path `{}`", path);
        }
''', '''        // Need to check that no duplicate placeholders were used
        for (i, a) in placeholders.iter().enumerate() {
            if placeholders[..i].contains(a) {
                panic!("duplicate placeholders in route path `{}`", path);
            }
        }
        let mut placeholders_sorted: Vec<Ident> = placeholders.iter().cloned().collect();
        placeholders_sorted.sort();
'''))
ref('parse-regex-build', (P, '''                    placeholders.push(ident.clone());
                    regex.push_str("/([^/]+)");
                }
                PathSegment::Literal(literal) => {
                    regex.push('/');
                    regex_syntax::escape_into(literal, &mut regex);
                }
''', '''                    regex += "/([^/]+)";
                    placeholders.push(ident.clone());
                }
                PathSegment::Literal(literal) => {
                    regex += "/";
                    regex += &regex_syntax::escape(literal);
                }
'''))
ref('parse-regex-equiv', (P, '''                    regex.push_str("/(.*)");
''', '''                    regex.push_str("(?:/(.*))");
'''), (P, '''                    regex.push_str("/([^/]+)");
''', '''                    regex.push_str("/([^/][^/]*)");
'''), (P, 'Regex::new(&format!("^{}$", regex))', 'Regex::new(&format!("^(?:{})$", regex))'))
ref('parse-overlap-helper', (P, '''                (Rest(_), other) | (other, Rest(_)) => {
                    overlap.push('/');
                    overlap.push_str(&other.matching_string());
                    saw_rest = true;
                }

                (Placeholder(a), Placeholder(_)) => {
                    overlap.push('/');
                    overlap.push_str(&a.to_string());
                }

                (Placeholder(_), Literal(lit)) | (Literal(lit), Placeholder(_)) => {
                    if lit.is_empty() {
                        // Placeholders never match an empty segment
                        return None;
                    }

                    overlap.push('/');
                    overlap.push_str(&lit);
                }

                (Literal(a), Literal(b)) => {
                    if a == b {
                        overlap.push('/');
                        overlap.push_str(&a);
                    } else {
                        return None;
                    }
                }
''', '''                (Rest(_), other) | (other, Rest(_)) => {
                    saw_rest = true;
                    overlap += &format!("/{}", other.matching_string());
                }

                (Literal(a), Literal(b)) if a != b => return None,

                // Placeholders never match an empty segment
                (Placeholder(_), Literal(lit)) | (Literal(lit), Placeholder(_)) if lit.len() == 0 => return None,

                (Literal(_), _) | (Placeholder(_), Placeholder(_)) => {
                    overlap += "/";
                    overlap += &a.matching_string();
                }

                (Placeholder(_), Literal(lit)) => {
                    overlap += "/";
                    overlap += lit;
                }
'''))
ref('parse-build-split', (P, '''        // For each GET route, register a matching HEAD route if none exists
        let any_head_overlaps_with = |new_route: &Route| {
            this.regex_map
                .values()
                .flat_map(|map| {
                    map.iter().filter_map(|(method, (_, route))| {
                        if method.to_string() == "HEAD" {
                            Some(route)
                        } else {
                            None
                        }
                    })
                })
                .any(|route| route.path.find_overlap(&new_route.path).is_some())
        };
        let mut implied_head_routes = Vec::new();
        for route_map in this.regex_map.values() {
            for (method, (variant, route)) in route_map.iter() {
                if method.to_string() == "GET" {
                    let head = Route {
                        method: Ident::new("HEAD", Span::call_site()),
                        path: route.path.clone(),
                    };
                    if !any_head_overlaps_with(&head) {
                        implied_head_routes.push((variant.clone(), head));
                    }
                }
            }
        }

        for (variant, route) in implied_head_routes {
            this.add_route(variant, route);
        }

        this
    }
''', '''        // For each GET route, register a matching HEAD route if none exists
        let implied = this.implied_head_routes();
        implied.into_iter().for_each(|(variant, route)| this.add_route(variant, route));

        this
    }

    fn routes(&self, verb: &str) -> Vec<(&VariantData, &Route)> {
        let mut out = Vec::new();
        for map in self.regex_map.values() {
            for (method, (variant, route)) in map {
                if method == verb {
                    out.push((variant, route));
                }
            }
        }
        out
    }

    fn implied_head_routes(&self) -> Vec<(VariantData, Route)> {
        let heads = self.routes("HEAD");
        self.routes("GET")
            .into_iter()
            .filter(|(_, get)| {
                heads.iter().all(|(_, head)| head.path.find_overlap(&get.path).is_none())
            })
            .map(|(variant, get)| {
                let head = Route {
                    method: Ident::new("HEAD", Span::call_site()),
                    path: get.path.clone(),
                };
                (variant.clone(), head)
            })
            .collect()
    }
'''))
ref('parse-valid-ident', (P, '''    if s.is_empty() || s == "_" {
        return false;
    }

    match s.chars().next().unwrap() {
        'a'..='z' | 'A'..='Z' | '_' => {}
        _ => return false,
    }

    s.chars().skip(1).all(|c| match c {
        'a'..='z' | 'A'..='Z' | '0'..='9' | '_' => true,
        _ => false,
    })
''', '''    let mut chars = s.chars();
    let starts = match chars.next() {
        Some(c) => c.is_ascii_alphabetic() || c == '_',
        None => false,
    };
    starts && s != "_" && chars.all(|c| c.is_ascii_alphanumeric() || c == '_')
'''))
ref('parse-attr-fields', (P, '''                    Meta::Word(ident) if ident == "body" => {
                        if let Some(ident) = &field.ident {
                            insert("#[body]", &mut body_field, ident.clone());
                        } else {
                            panic!("#[body] is not supported on unnamed fields");
                        }

                        insert(
                            "#[body]/#[query_params]/#[forward]",
                            &mut field_kind,
                            FieldKind::Body,
                        );
                    }
''', '''                    Meta::Word(ident) if ident == "body" => {
                        insert(
                            "#[body]/#[query_params]/#[forward]",
                            &mut field_kind,
                            FieldKind::Body,
                        );
                        let ident = match &field.ident {
                            Some(ident) => ident.to_owned(),
                            None => panic!("#[body] is not supported on unnamed fields"),
                        };
                        insert("#[body]", &mut body_field, ident);
                    }
'''))
ref('rc-helper', (RC, '''            let mut impls = Vec::new();
            for (index, field) in st.fields.iter().enumerate() {
                let as_ref_count = field
''', '''            let mut impls = Vec::with_capacity(st.fields.iter().len());
            for (index, field) in st.fields.iter().enumerate() {
                let as_ref_count = field
'''), (RC, '''                                fn as_ref(&self) -> &#ty { &self.#field_name }
''', '''                                fn as_ref(&self) -> &#ty {
                                    let Self { #field_name: field, .. } = self;
                                    field
                                }
'''), (RC, '''            fn as_ref(&self) -> &NoContext { &NoContext }
''', '''            fn as_ref(&self) -> &NoContext {
                static NONE: NoContext = NoContext;
                &NONE
            }
'''))
ref('utils-proxy', (U, '''        let hashable = (self.tf)(&self.object);
        hashable.hash(state)
''', '''        let tf = self.tf;
        Hash::hash(tf(&self.object), state);
'''), (U, '''        let ours = (self.tf)(&self.object);
        let theirs = (other.tf)(&other.object);

        ours.eq(theirs)
''', '''        (self.tf)(&self.object) == (other.tf)(&other.object)
'''))
OLDJ = '''        Box::new(body.concat2().map_err(Into::into).and_then(|body| {
            match serde_json::from_slice(&body) {
                Ok(t) => Ok(Json(t)),
                Err(e) => Err(e.into()),
            }
        }))
'''
for n, new in (('poll', '''        let mut body = body;
        let mut buf: Vec<u8> = Vec::new();
        let read = futures::future::poll_fn(move || loop {
            match body.poll()? {
                futures::Async::NotReady => return Ok(futures::Async::NotReady),
                futures::Async::Ready(Some(chunk)) => buf.extend_from_slice(chunk.as_ref()),
                futures::Async::Ready(None) => {
                    return Ok::<_, BoxedError>(futures::Async::Ready(std::mem::replace(&mut buf, Vec::new())));
                }
            }
        });
        Box::new(read.and_then(|bytes| {
            let t = serde_json::from_slice(&bytes[..])?;
            Ok(Json(t))
        }))
'''), ('maperr', '''        Box::new(
            body.map_err(BoxedError::from)
                .concat2()
                .and_then(|chunk| serde_json::from_slice(&chunk).map_err(Into::into))
                .map(Json),
        )
'''), ('collect', '''        Box::new(body.collect().map_err(BoxedError::from).and_then(|chunks| {
            let mut bytes = Vec::new();
            for chunk in &chunks {
                bytes.extend_from_slice(chunk);
            }
            match serde_json::from_slice::<T>(&bytes) {
                Ok(value) => Ok(Self(value)),
                Err(e) => Err(Box::new(e) as BoxedError),
            }
        }))
'''), ('struct', '''        Box::new(Decode { body, buf: Vec::new(), _t: std::marker::PhantomData })
''')):
    e = [(B, OLDJ, new)]
    if n == 'struct':
        e.append((B, 'deref!(Json<T>);', '''deref!(Json<T>);

struct Decode<T> {
    body: hyper::Body,
    buf: Vec<u8>,
    _t: std::marker::PhantomData<fn() -> T>,
}

impl<T: DeserializeOwned + Send + 'static> Future for Decode<T> {
    type Item = Json<T>;
    type Error = BoxedError;

    fn poll(&mut self) -> futures::Poll<Json<T>, BoxedError> {
        while let Some(chunk) = futures::try_ready!(self.body.poll()) {
            self.buf.extend(chunk);
        }
        let value = serde_json::from_slice(&self.buf)?;
        Ok(futures::Async::Ready(Json(value)))
    }
}'''))
    ref('body-json-' + n, *e)
