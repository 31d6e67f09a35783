"""Still more behaviour-preserving edits, in other idioms (tools/mkref.py)."""
S, L, B, ER = 'src/service.rs', 'src/lib.rs', 'src/body.rs', 'src/error.rs'
M, P, RC, U = ('derive/src/from_request/mod.rs', 'derive/src/from_request/parse.rs', 'derive/src/request_context.rs',
               'derive/src/utils.rs')
R = []


def ref(name, *edits):
    R.append((name, edits))


HEAD = '''                if is_head {
                    // Responses to HEAD requests must have an empty body
                    response.map(|_| Body::empty())
                } else {
                    response
                }
'''
MAP = '''            .map(move |response| {
''' + HEAD + '''            })
'''
ORELSE = '''            .or_else(|err| {
                if let Some(our_error) = err.downcast_ref::<Error>() {
                    Ok(our_error.response().map(|()| Body::empty()))
                } else {
                    Err(err)
                }
            });
'''
ref('s3-parts', (S, HEAD, '''                if !is_head {
                    return response;
                }
                let (parts, _body) = response.into_parts();
                Response::from_parts(parts, Body::empty())
''', 'all'))
ref('s3-replace', (S, MAP, MAP.replace('move |response|', 'move |mut response|').replace(
    'response.map(|_| Body::empty())', 'drop(std::mem::replace(response.body_mut(), Body::empty()));\n                    response'), 'all'))
ref('s3-default-body', (S, HEAD, '''                let empty_body = is_head;
                match empty_body {
                    true => response.map(|_| Body::default()),
                    false => response,
                }
''', 'all'))
ref('s3-owned-downcast', (S, ORELSE, '''            .or_else(|err| match err.downcast::<Error>() {
                Ok(our_error) => Ok(our_error.response().map(|()| Body::empty())),
                Err(other) => Err(other),
            });
''', 'all'))
ref('s3-then-both', (S, MAP + ORELSE, '''            .then(move |result| match result {
                Ok(response) => Ok(if is_head { response.map(|_| Body::empty()) } else { response }),
                Err(err) => match err.downcast_ref::<Error>().map(Error::response) {
                    Some(response) => Ok(response.map(|_| Body::empty())),
                    None => Err(err),
                },
            });
''', 'all'))
ref('s3-is-head-fn', (S, 'let is_head = req.method() == Method::HEAD;', 'let is_head = is_head_request(&req);', 'all'),
    (S, '\npub trait ServiceExt: Service + Sized {', '''
/// Whether the response to `req` must not have a body.
fn is_head_request<B>(req: &Request<B>) -> bool {
    match *req.method() {
        Method::HEAD => true,
        _ => false,
    }
}

pub trait ServiceExt: Service + Sized {''', 'doc'))
ref('s3-method-clone', (S, 'let is_head = req.method() == Method::HEAD;', '''let method = req.method().clone();
        let is_head = method == Method::HEAD;''', 'all'))
ref('s3-boxed-future', (S, '        Box::new(fut)\n', '''        let fut: DefaultFuture<_, _> = Box::new(fut);
        fut
''', 'all'))
ref('s3-cu-boxed', (S, '''                    // FIXME avoid boxing so much here
                    Ok(result) => Box::new(result.into_future()),''', '''                    Ok(Ok(response)) => Box::new(futures::future::ok(response)),
                    Ok(Err(error)) => Box::new(futures::future::err(error)),'''))
ref('s3-cu-either', (S, '''            move |panic_result| -> DefaultFuture<Response<Body>, BoxedError> {
                match panic_result {
                    // FIXME avoid boxing so much here
                    Ok(result) => Box::new(result.into_future()),
                    Err(panic_payload) => Box::new(handler(panic_payload).into_future()),
                }
            },
''', '''            move |panic_result| match panic_result {
                Ok(result) => Either::A(result.into_future()),
                Err(panic_payload) => Either::B(handler(panic_payload).into_future()),
            },
'''), (S, 'Box::new(AssertUnwindSafe(inner_future)', 'use futures::future::Either;\n        Box::new(AssertUnwindSafe(inner_future)'))
ref('s3-cu-or-else', (S, '''        Box::new(AssertUnwindSafe(inner_future).catch_unwind().then(
            move |panic_result| -> DefaultFuture<Response<Body>, BoxedError> {
                match panic_result {
                    // FIXME avoid boxing so much here
                    Ok(result) => Box::new(result.into_future()),
                    Err(panic_payload) => Box::new(handler(panic_payload).into_future()),
                }
            },
        ))
''', '''        let guarded = AssertUnwindSafe(inner_future).catch_unwind();
        let fut = guarded.then(move |outcome| {
            let answer: DefaultFuture<Response<Body>, BoxedError> = match outcome {
                Err(payload) => {
                    let handler = &*handler;
                    Box::new(handler(payload).into_future())
                }
                Ok(Ok(response)) => Box::new(Ok(response).into_future()),
                Ok(Err(err)) => Box::new(Err(err).into_future()),
            };
            answer
        });
        Box::new(fut)
'''))
ref('s3-cu-inner-ref', (S, 'let inner_future = match catch_unwind(AssertUnwindSafe(move || self.inner.call(req))) {', '''let inner = &mut self.inner;
        let attempt = catch_unwind(AssertUnwindSafe(|| inner.call(req)));
        let inner_future = match attempt {'''))
ref('s3-make-struct', (S, '        Ok(self.service.clone()).into_future()\n', '''        let service = self.service.clone();
        futures::future::ok(service)
'''))
ref('s3-make-result', (S, '        Ok(self.service.clone()).into_future()\n', '''        futures::future::result(Ok(S::clone(&self.service)))
'''))
ref('s3-self-clone', (S, '''            inner: self.inner.clone(),
            handler: self.handler.clone(),
''', '''            inner: S::clone(&self.inner),
            handler: Arc::clone(&self.handler),
'''))
# --- errors
ALLOW = '''            let allowed = self
                .allowed_methods
                .iter()
                .map(|method| method.as_str())
                .collect::<Vec<_>>()
                .join(", ");
            builder.header(http::header::ALLOW, allowed);
'''
ref('e3-push-loop', (ER, ALLOW, '''            let mut allowed = String::new();
            for (i, method) in self.allowed_methods.iter().enumerate() {
                if i > 0 {
                    allowed.push_str(", ");
                }
                allowed.push_str(method.as_str());
            }
            builder.header(http::header::ALLOW, allowed);
'''))
ref('e3-push-empty', (ER, ALLOW, '''            let mut allowed = String::new();
            for method in self.allowed_methods.iter() {
                if !allowed.is_empty() {
                    allowed += ", ";
                }
                allowed += method.as_str();
            }
            builder.header(http::header::ALLOW, allowed);
'''))
ref('e3-capacity', (ER, ALLOW, '''            let mut names = Vec::with_capacity(self.allowed_methods.len());
            names.extend(self.allowed_methods.iter().map(|method| method.as_str()));
            builder.header(http::header::ALLOW, names.join(", "));
'''))
ref('e3-as-ref', (ER, ALLOW, '''            let names: Vec<&str> = self.allowed_methods.iter().map(AsRef::as_ref).map(http::Method::as_str).collect();
            let allowed = names[..].join(", ");
            builder.header("allow", allowed.as_str());
'''.replace('.map(AsRef::as_ref).map(http::Method::as_str)', '.map(|m| http::Method::as_str(m))')))
ref('e3-method-list', (ER, '''        if self.status == StatusCode::METHOD_NOT_ALLOWED {
            // The spec''', '''        if let Some(_methods) = self.allowed_methods() {
            // The spec'''))
ref('e3-mut-response', (ER, '''        let mut builder = http::Response::builder();
        builder.status(self.http_status());
''', '''        let mut response = http::Response::new(());
        *response.status_mut() = self.status;
'''), (ER, '            builder.header(http::header::ALLOW, allowed);\n', '''            let value = http::header::HeaderValue::from_str(&allowed)
                .expect("could not build HTTP response for error");
            response.headers_mut().append(http::header::ALLOW, value);
'''), (ER, '''        builder
            .body(())
            .expect("could not build HTTP response for error")
''', '        response\n'))
ref('e3-unwrap-or-panic', (ER, '''            .expect("could not build HTTP response for error")
''', '''            .unwrap_or_else(|e| panic!("could not build HTTP response for error: {}", e))
'''))
ref('e3-source-as-deref', (ER, '''        match &self.source {
            Some(source) => Some(&**source),
            None => None,
        }
''', '''        let source = self.source.as_ref()?;
        Some(source.as_ref())
'''))
ref('e3-display-status', (ER, '''            None => write!(f, "{}", self.status),
            Some(source) => write!(f, "{}: {}", self.status, source),
''', '''            None => fmt::Display::fmt(&self.status, f),
            Some(source) => f.write_fmt(format_args!("{}: {}", self.status, source)),
'''))
ref('e3-display-inline', (ER, '''        match &self.source {
            None => write!(f, "{}", self.status),
            Some(source) => write!(f, "{}: {}", self.status, source),
        }
''', '''        let status = self.http_status();
        if let Some(source) = self.source() {
            write!(f, "{status}: {source}", status = status, source = source)
        } else {
            write!(f, "{status}", status = status)
        }
'''))
ref('e3-allowed-match', (ER, '''        if self.status == StatusCode::METHOD_NOT_ALLOWED {
            Some(&self.allowed_methods)
        } else {
            None
        }
''', '''        match self.status.as_u16() {
            405 => Some(self.allowed_methods.as_ref()),
            _ => None,
        }
'''))
ref('e3-into-future', (ER, 'Box::new(Err(BoxedError::from(self)).into_future())', '''let error: BoxedError = Box::new(self);
        Box::new(futures::future::err(error))'''), (ER, 'use futures::IntoFuture;', ''))
# --- bodies
for n, t, f in (('json', 'Json', 'serde_json::from_slice'), ('form', 'HtmlForm', 'serde_urlencoded::from_bytes')):
    old = '''        Box::new(body.concat2().map_err(Into::into).and_then(|body| {
            match %s(&body) {
                Ok(t) => Ok(%s(t)),
                Err(e) => Err(e.into()),
            }
        }))
''' % (f, t)
    ref('b3-%s-from' % n, (B, old, '''        let whole = body.concat2().from_err::<BoxedError>();
        Box::new(whole.and_then(|bytes| {
            %s(bytes.as_ref()).map(%s).map_err(BoxedError::from)
        }))
''' % (f, t)))
    ref('b3-%s-then' % n, (B, old, '''        Box::new(body.concat2().then(|chunk| -> Result<_, BoxedError> {
            let chunk = chunk?;
            Ok(%s(%s(&chunk[..])?))
        }))
''' % (t, f)))
    ref('b3-%s-bytes' % n, (B, old, '''        Box::new(
            body.concat2()
                .map(|chunk| chunk.into_bytes())
                .map_err(|e| Box::new(e) as BoxedError)
                .and_then(|bytes| {
                    let value: T = match %s(&bytes) {
                        Err(e) => return Err(e.into()),
                        Ok(value) => value,
                    };
                    Ok(%s(value))
                }),
        )
''' % (f, t)))
    ref('b3-%s-vec' % n, (B, old, '''        Box::new(
            body.fold(Vec::new(), |mut all, chunk| -> Result<_, hyper::Error> {
                all.extend_from_slice(&chunk);
                Ok(all)
            })
            .from_err()
            .and_then(|all| Ok(%s(%s(&all)?))),
        )
''' % (t, f)))
# --- lib
ref('l3-blocking-loop', (L, '''        tokio_threadpool::blocking(|| f.take().unwrap()()).map_err(|blocking_err| {
            // `blocking` only returns errors in critical situations:
            // - when the threadpool has already shut down
            // - when tokio isn't running
            // This wrapper just panics in that situation.
            panic!(
                "`tokio_threadpool::blocking` returned error: {}",
                blocking_err
            );
        })
    })
    .and_then(|result| result)
''', '''        let polled = tokio_threadpool::blocking(|| {
            let f = f.take().expect("polled after completion");
            f()
        });
        match polled {
            Ok(Async::Ready(result)) => result.map(Async::Ready),
            Ok(Async::NotReady) => Ok(Async::NotReady),
            Err(e) => panic!("`tokio_threadpool::blocking` returned error: {}", e),
        }
    })
'''), (L, '    // Needs a small `Option` dance', '    use futures::Async;\n\n    // Needs a small `Option` dance'))
ref('l3-sync-once', (L, '''        let mut rt = Runtime::new().expect("couldn't start single-threaded tokio runtime");
        rt.block_on(Self::from_request(request, context).into_future())
''', '''        let fut = Self::from_request(request, context);
        let mut runtime = match Runtime::new() {
            Ok(rt) => rt,
            Err(e) => panic!("couldn't start single-threaded tokio runtime: {:?}", e),
        };
        let outcome = runtime.block_on(fut);
        outcome
'''))
ref('l3-map-request', (L, '''        let (parts, body) = request.into_parts();
        let request = Arc::new(http::Request::from_parts(parts, ()));

        Self::from_request_and_body(&request, body, context)
''', '''        let mut request = request;
        let body = std::mem::replace(request.body_mut(), hyper::Body::empty());
        let request = request.map(|_| ());

        Self::from_request_and_body(&Arc::from(request), body, context)
'''))
# --- generated code
ref('g3-iter-if', (M, 'matches.iter().next()', '''matches.iter().fold(None, |first: Option<usize>, i| first.or(Some(i)))'''))
ref('g3-into-iter', (M, 'matches.iter().next()', 'matches.into_iter().next()'))
ref('g3-parse-str', (M, 'match <#ty as FromStr>::from_str(#variable) {', 'match str::parse::<#ty>(#variable) {'))
ref('g3-index-cap', (M, '''captures
                                .get(#capture)
                                .expect("internal error: capture group did not match anything")
                                .as_str();''', '''&captures[#capture];'''))
ref('g3-map-query', (M, 'let raw_query = request.uri().query().unwrap_or("");', '''let raw_query = match request.uri().query() {
                Some(query) => query,
                None => "",
            };'''))
ref('g3-unwrap-or-default', (M, 'let raw_query = request.uri().query().unwrap_or("");', 'let raw_query = request.uri().query().unwrap_or_default();'))
ref('g3-form-bytes', (M, 'hyperdrive::serde_urlencoded::from_str::<#ty>(raw_query)', 'hyperdrive::serde_urlencoded::from_bytes::<#ty>(raw_query.as_bytes())'))
ref('g3-arc-clone', (M, '        let request = Arc::clone(request);\n', '        let request: Arc<http::Request<()>> = request.clone();\n'))
ref('g3-guards-array', (M, '''    for guard in data
        .guard_fields()
        .iter()
        .map(|fld| fld.ident.clone().unwrap())
        .rev()
    {
''', '''    let mut guards = data
        .guard_fields()
        .iter()
        .map(|fld| fld.ident.clone().unwrap())
        .collect::<Vec<_>>();
    guards.reverse();
    while !guards.is_empty() {
        let guard = guards.remove(0);
'''))
ref('g3-box-pin', (M, 'Box::new(future) as DefaultFuture<Self, BoxedError>', '''let future: DefaultFuture<Self, BoxedError> = Box::new(future);
        future'''))
ref('g3-ok-future', (M, '        Ok(#construct).into_future()\n', '        hyperdrive::futures::future::ok(#construct)\n'))
ref('g3-then-guard', (M, '''            <#ty as Guard>::from_request(&request, AsRef::as_ref(&context))
                .into_future()
                .and_then(move |#var| Box::new(#future) as DefaultFuture<Self, BoxedError>)
''', '''            <<#ty as Guard>::Result as IntoFuture>::into_future(
                <#ty as Guard>::from_request(&request, AsRef::as_ref(&context)),
            )
            .and_then(move |#var| {
                let next = #future;
                Box::new(next) as DefaultFuture<Self, BoxedError>
            })
'''))
ref('g3-if-method', (M, 'if err.http_status() == StatusCode::METHOD_NOT_ALLOWED {', 'if let (StatusCode::METHOD_NOT_ALLOWED, true) = (err.http_status(), true) {'))
ref('g3-methods-chain', (M, '''                                            let mut our_methods = Vec::from(#find_accepted_methods);
                                            let inner_methods = err.allowed_methods()
                                                .expect("`WrongMethod` but no `allowed_methods()`?");

                                            our_methods.extend(inner_methods);

                                            Box::new(Error::wrong_method(Vec::from(our_methods)))
''', '''                                            let inner_methods = err.allowed_methods().unwrap_or(&[]);
                                            let our_methods = Vec::from(#find_accepted_methods);
                                            let all = our_methods.into_iter().chain(inner_methods.iter().cloned()).collect::<Vec<&'static http::Method>>();

                                            Box::new(Error::wrong_method(all))
'''))
