"""Behaviour-preserving edits that move work from generated code into hidden helpers of the library (tools/mkref.py)."""
S, L, B, ER = 'src/service.rs', 'src/lib.rs', 'src/body.rs', 'src/error.rs'
M, P, RC, U = ('derive/src/from_request/mod.rs', 'derive/src/from_request/parse.rs', 'derive/src/request_context.rs',
               'derive/src/utils.rs')
R = []


def ref(name, *edits):
    R.append((name, edits))


INTO = '''    #[doc(hidden)] // not part of public API
    pub fn into_future<T'''
MERGE = '''                                    if let Some(err) = e.downcast_mut::<Error>() {
                                        if err.http_status() == StatusCode::METHOD_NOT_ALLOWED {
                                            let request = tmp_request;
                                            let mut our_methods = Vec::from(#find_accepted_methods);
                                            let inner_methods = err.allowed_methods()
                                                .expect("`WrongMethod` but no `allowed_methods()`?");

                                            our_methods.extend(inner_methods);

                                            Box::new(Error::wrong_method(Vec::from(our_methods)))
                                        } else {
                                            e
                                        }
                                    } else {
                                        e
                                    }
'''
ref('h4-merge-fn', (ER, INTO, '''    #[doc(hidden)] // not part of public API
    pub fn merge_allowed<F>(error: BoxedError, ours: F) -> BoxedError
    where
        F: FnOnce() -> Vec<&'static http::Method>,
    {
        let inner = match error.downcast_ref::<Error>().and_then(Error::allowed_methods) {
            Some(inner) => inner.to_vec(),
            None => return error,
        };
        let mut all = ours();
        all.extend(inner);
        Error::wrong_method(all).into()
    }

''' + INTO), (M, MERGE, '''                                    let request = tmp_request;
                                    Error::merge_allowed(e, move || Vec::from(#find_accepted_methods))
'''), (M, 'future.map_err(move |mut e| {\n                                    use hyperdrive::{Error, http::StatusCode};\n', 'future.map_err(move |e| {\n'))
ref('h4-merge-method', (ER, INTO, '''    #[doc(hidden)] // not part of public API
    pub fn add_allowed(&mut self, mut ours: Vec<&'static http::Method>) {
        if self.status == StatusCode::METHOD_NOT_ALLOWED {
            ours.extend_from_slice(&self.allowed_methods);
            self.allowed_methods = ours.into();
            self.source = None;
        }
    }

''' + INTO), (M, MERGE, '''                                    if let Some(err) = e.downcast_mut::<Error>() {
                                        let request = tmp_request;
                                        err.add_allowed(Vec::from(#find_accepted_methods));
                                    }
                                    e
'''), (M, 'use hyperdrive::{Error, http::StatusCode};\n', 'use hyperdrive::Error;\n'))
ref('h4-capture-fn', (ER, 'impl fmt::Display for Error {', '''#[doc(hidden)]
pub fn __capture<T>(captures: &regex::Captures<'_>, index: usize) -> Result<T, Error>
where
    T: std::str::FromStr,
    T::Err: std::error::Error + Send + Sync + 'static,
{
    let text = captures.get(index).map(|m| m.as_str()).expect("no capture");
    text.parse().map_err(|e| Error::with_source(StatusCode::NOT_FOUND, e))
}

impl fmt::Display for Error {'''), (M, '''                            let #variable = captures
                                .get(#capture)
                                .expect("internal error: capture group did not match anything")
                                .as_str();
                            let #variable = match <#ty as FromStr>::from_str(#variable) {
                                Ok(v) => v,
                                Err(e) => {
                                    return Error::with_source(StatusCode::NOT_FOUND, e)
                                        .into_future();
                                }
                            };
''', '''                            let #variable = match hyperdrive::__capture::<#ty>(&captures, #capture) {
                                Ok(v) => v,
                                Err(e) => return e.into_future(),
                            };
'''))
ref('h4-query-fn', (ER, INTO, '''    #[doc(hidden)] // not part of public API
    pub fn parse_query<T: serde::de::DeserializeOwned>(request: &http::Request<()>) -> Result<T, Self> {
        let query = request.uri().query().unwrap_or_default();
        serde_urlencoded::from_str(query).map_err(|e| Self::with_source(StatusCode::BAD_REQUEST, e))
    }

''' + INTO), (M, '''            let raw_query = request.uri().query().unwrap_or("");
            let #variable = match hyperdrive::serde_urlencoded::from_str::<#ty>(raw_query) {
                Ok(val) => val,
                Err(e) => return Error::with_source(StatusCode::BAD_REQUEST, e).into_future(),
            };
''', '''            let #variable = match Error::parse_query::<#ty>(request) {
                Ok(val) => val,
                Err(e) => return e.into_future(),
            };
'''))
ref('h4-not-found', (ER, INTO, '''    #[doc(hidden)] // not part of public API
    pub fn not_found<T: Send + 'static>() -> DefaultFuture<T, BoxedError> {
        Self::from_status(StatusCode::NOT_FOUND).into_future()
    }

''' + INTO), (M, 'return Error::from_status(StatusCode::NOT_FOUND).into_future();', 'return Error::not_found();'))
ref('h4-wrong-method', (ER, INTO, '''    #[doc(hidden)] // not part of public API
    pub fn reject_method<T: Send + 'static, M: Into<Cow<'static, [&'static http::Method]>>>(allowed: M) -> DefaultFuture<T, BoxedError> {
        Self::wrong_method(allowed).into_future()
    }

''' + INTO), (M, '''                                let methods = #find_accepted_methods;
                                return Error::wrong_method(methods).into_future();
''', '''                                return Error::reject_method(#find_accepted_methods);
'''))
ref('h4-first-match', (ER, INTO, '''    #[doc(hidden)] // not part of public API
    pub fn first_match(set: &regex::RegexSet, path: &str) -> Option<usize> {
        set.matches(path).into_iter().next()
    }

''' + INTO), (M, '''            let matches = ROUTES.matches(path);
            debug_assert!(
                matches.iter().count() <= 1,
                "internal error: FromRequest derive produced overlapping regexes (path={},method={},regexes={:?})",
                path, method, &[ #(#all_regexes),* ]
            );
            matches.iter().next()
''', '''            Error::first_match(&ROUTES, path)
'''))
ref('h4-guard-order', (M, '''        let request = Arc::clone(request);
        let future = #future;

        Box::new(future) as DefaultFuture<Self, BoxedError>
''', '''        let request: Arc<http::Request<()>> = request.clone();
        let boxed: DefaultFuture<Self, BoxedError> = Box::new(#future);
        boxed
'''))
ref('h4-tmp-uri', (M, '''                                let mut tmp_request = http::Request::new(());
                                *tmp_request.uri_mut() = request.uri().clone();
''', '''                                let tmp_request = Arc::clone(request);
'''))
ref('h4-nested-index', (M, '''        (Some(#i), &http::Method::#method) => Variant::#variant,''', '''        (Some(#i), m) if *m == http::Method::#method => Variant::#variant,'''))
ref('h4-from-request-body', (L, '''        let (parts, body) = request.into_parts();''', '''        let mut request = request;
        let body = std::mem::replace(request.body_mut(), hyper::Body::empty());
        let (parts, _) = request.into_parts();''', 0))
