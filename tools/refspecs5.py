"""Behaviour-preserving edits of several places at once (tools/mkref.py)."""
S, L, B, ER = 'src/service.rs', 'src/lib.rs', 'src/body.rs', 'src/error.rs'
M, P, RC, U = ('derive/src/from_request/mod.rs', 'derive/src/from_request/parse.rs', 'derive/src/request_context.rs',
               'derive/src/utils.rs')
R = []


def ref(name, *edits):
    R.append((name, edits))


ref('h5-allowed-option', (ER, '    allowed_methods: Cow<\'static, [&\'static http::Method]>,\n    source', '    allowed_methods: Option<Cow<\'static, [&\'static http::Method]>>,\n    source'),
    (ER, '''            status,
            allowed_methods,
            source,
        }''', '''            status,
            allowed_methods: if status == StatusCode::METHOD_NOT_ALLOWED { Some(allowed_methods) } else { None },
            source,
        }'''),
    (ER, '''            let allowed = self
                .allowed_methods
                .iter()''', '''            let allowed = self
                .allowed_methods()
                .unwrap_or(&[])
                .iter()'''),
    (ER, '''        if self.status == StatusCode::METHOD_NOT_ALLOWED {
            Some(&self.allowed_methods)
        } else {
            None
        }''', '''        match &self.allowed_methods {
            Some(methods) => Some(&**methods),
            None => None,
        }'''))
ref('h5-status-code-u16', (ER, '''            status.is_client_error() || status.is_server_error(),''', '''            match status.as_u16() {
                400..=499 | 500..=599 => true,
                _ => false,
            },'''))
ref('h5-response-parts', (ER, '''        let mut builder = http::Response::builder();
        builder.status(self.http_status());

        if self.status == StatusCode::METHOD_NOT_ALLOWED {
            // The spec mandates that "405 Method Not Allowed" always sends an
            // `Allow` header (it may be empty, though).
            let allowed = self
                .allowed_methods
                .iter()
                .map(|method| method.as_str())
                .collect::<Vec<_>>()
                .join(", ");
            builder.header(http::header::ALLOW, allowed);
        }

        builder
            .body(())
            .expect("could not build HTTP response for error")
''', '''        let mut response = http::Response::new(());
        *response.status_mut() = self.status;

        if let Some(methods) = self.allowed_methods() {
            let mut allowed = String::new();
            for (i, method) in methods.iter().enumerate() {
                if i > 0 {
                    allowed += ", ";
                }
                allowed += method.as_str();
            }
            let allowed = http::header::HeaderValue::from_str(&allowed)
                .expect("could not build HTTP response for error");
            response.headers_mut().insert(http::header::ALLOW, allowed);
        }

        response
'''))
CALL = '''        let fut = R::from_request_and_body(&req, body, self.context.clone())
            .and_then(move |r| handler(r, req))
'''
ref('h5-entry', (S, CALL, '''        let decoded = {
            let context = R::Context::clone(&self.context);
            R::from_request_and_body(&req, body, context)
        };
        let fut = decoded
            .and_then(move |r| {
                let handler = &*handler;
                handler(r, req)
            })
'''))
HEAD = '''                if is_head {
                    // Responses to HEAD requests must have an empty body
                    response.map(|_| Body::empty())
                } else {
                    response
                }
'''
ref('h5-head-option', (S, HEAD, '''                let (parts, body) = response.into_parts();
                let body = Some(body).filter(|_| !is_head).unwrap_or_else(Body::empty);
                Response::from_parts(parts, body)
''', 'all'))
ref('h5-head-default', (S, HEAD, '''                let mut response: Response<Body> = response;
                if is_head {
                    let _ = std::mem::take(response.body_mut());
                }
                response
''', 'all'))
ref('h5-into-response', (ER, '''    #[doc(hidden)] // not part of public API
    pub fn into_future<T''', '''    pub(crate) fn recover(error: BoxedError) -> Result<http::Response<hyper::Body>, BoxedError> {
        error
            .downcast::<Error>()
            .map(|ours| ours.response().map(|()| hyper::Body::empty()))
            .map_err(|other| other as BoxedError)
    }

    #[doc(hidden)] // not part of public API
    pub fn into_future<T'''), (S, '''            .or_else(|err| {
                if let Some(our_error) = err.downcast_ref::<Error>() {
                    Ok(our_error.response().map(|()| Body::empty()))
                } else {
                    Err(err)
                }
            });
''', '''            .or_else(Error::recover);
''', 'all'))
ref('h5-cu-match', (S, '''        let inner_future = match catch_unwind(AssertUnwindSafe(move || self.inner.call(req))) {
            Ok(future) => future,
            Err(panic_payload) => return Box::new(handler(panic_payload).into_future()),
        };

        Box::new(AssertUnwindSafe(inner_future).catch_unwind().then(
            move |panic_result| -> DefaultFuture<Response<Body>, BoxedError> {
                match panic_result {
                    // FIXME avoid boxing so much here
                    Ok(result) => Box::new(result.into_future()),
                    Err(panic_payload) => Box::new(handler(panic_payload).into_future()),
                }
            },
        ))
''', '''        let recover = move |payload: Box<dyn Any + Send>| -> DefaultFuture<Response<Body>, BoxedError> {
            Box::new(handler(payload).into_future())
        };
        let inner = &mut self.inner;
        match catch_unwind(AssertUnwindSafe(|| inner.call(req))) {
            Ok(future) => Box::new(AssertUnwindSafe(future).catch_unwind().then(move |outcome| {
                outcome
                    .map(|result| Box::new(result.into_future()) as DefaultFuture<Response<Body>, BoxedError>)
                    .unwrap_or_else(recover)
            })),
            Err(payload) => recover(payload),
        }
'''))
ref('h5-body-decode', (B, '''            match serde_json::from_slice(&body) {
                Ok(t) => Ok(Json(t)),
                Err(e) => Err(e.into()),
            }''', '''            let bytes: &[u8] = body.as_ref();
            Ok(Json(serde_json::from_reader(bytes)?))'''))
ref('h5-variant-copy', (M, '''                #[allow(non_camel_case_types)]
                enum Variant {''', '''                #[allow(non_camel_case_types, dead_code)]
                #[derive(Clone, Copy)]
                enum Variant {'''))
ref('h5-index-then', (M, '''                let variant = match (index, method) {''', '''                let key = (index, method);
                let variant = match key {'''))
ref('h5-two-regexes', (M, '''                static ref REGEXES: Vec<Option<Regex>> = vec![
                    #(#capturing_regexes,)*
                ];''', '''                static ref REGEXES: Vec<Option<Regex>> = {
                    let regexes = vec![
                        #(#capturing_regexes,)*
                    ];
                    debug_assert_eq!(regexes.len(), ROUTES.len());
                    regexes
                };'''))
ref('h5-kind-enum', (ER, '#[derive(Debug)]\npub struct Error {\n    status: StatusCode,\n', '''#[derive(Debug)]
enum Kind {
    Status(StatusCode),
    WrongMethod(Cow<'static, [&'static http::Method]>),
}
''' + '#[derive(Debug)]\npub struct Error {\n    kind: Kind,\n'),
    (ER, '''    /// In case of a `405 Method Not Allowed` error, stores the allowed HTTP
    /// methods.
    allowed_methods: Cow<'static, [&'static http::Method]>,
    source''', '    source'),
    (ER, '''        Self {
            status,
            allowed_methods,
            source,
        }''', '''        let kind = if status == StatusCode::METHOD_NOT_ALLOWED {
            Kind::WrongMethod(allowed_methods)
        } else {
            Kind::Status(status)
        };
        Self { kind, source }'''),
    (ER, '''        self.status
    }''', '''        match self.kind {
            Kind::Status(status) => status,
            Kind::WrongMethod(_) => StatusCode::METHOD_NOT_ALLOWED,
        }
    }'''),
    (ER, '''        if self.status == StatusCode::METHOD_NOT_ALLOWED {
            // The spec''', '''        if let Kind::WrongMethod(allowed_methods) = &self.kind {
            // The spec'''),
    (ER, '''            let allowed = self
                .allowed_methods
                .iter()''', '''            let allowed = allowed_methods
                .iter()'''),
    (ER, '''        if self.status == StatusCode::METHOD_NOT_ALLOWED {
            Some(&self.allowed_methods)
        } else {
            None
        }''', '''        match &self.kind {
            Kind::WrongMethod(methods) => Some(methods),
            Kind::Status(_) => None,
        }'''),
    (ER, 'None => write!(f, "{}", self.status),', 'None => write!(f, "{}", self.http_status()),'),
    (ER, 'Some(source) => write!(f, "{}: {}", self.status, source),', 'Some(source) => write!(f, "{}: {}", self.http_status(), source),'))
