#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
M = "derive/src/from_request/mod.rs"; P = "derive/src/from_request/parse.rs"; RC = "derive/src/request_context.rs"
L = "src/lib.rs"; S = "src/service.rs"; E = "src/error.rs"; B = "src/body.rs"; U = "derive/src/utils.rs"; DL = "derive/src/lib.rs"
props = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    props.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None)))

p("C01", "A request reaches exactly the route declared for its method and whole path",
  "For every request, a type with #[derive(FromRequest)] selects the variant whose route attribute names the request's method and whose path pattern matches the complete request path: literal segments match literally, `{x}` matches exactly one non-empty segment, `{x...}` matches the whole (possibly empty) rest after its slash, and the pattern `*` matches only the path `*`. Nothing else about the request (query string, headers, body) and no declaration order influences the choice.",
  ["inputs", "programs"], "every request path and method, for every accepted route declaration",
  "Tests send a handful of paths to a handful of route types; the set of request paths is infinite and a pattern that is one character too permissive is only visible on paths nobody sent.",
  [M, P], [("RoutePath::parse builds the pattern regex", P), ("generated RegexSet dispatch and (index, method) match", M), ("PathMap::build / add_route", P)],
  ["FromRequest::from_request_and_body of derived types"])
p("C02", "Each placeholder field holds its own converted segment, or the request is a 404",
  "Every field named by a `{field}` or `{field...}` placeholder is produced by that field type's FromStr applied to exactly the text of its own segment (or rest), for any number and order of placeholders. If a conversion of the selected route fails, the request fails with 404 Not Found carrying the conversion error as source; no guard, body, forward or other route runs.",
  ["inputs", "programs"], "every request path and every declaration with placeholders",
  "Capture numbering is exercised with at most two placeholders on fixed strings; a swapped or shifted capture of the same type is invisible there.",
  [M, P], [("construct_variant placeholder parsing", M), ("RoutePath placeholders in order of appearance", P)],
  ["field values of the constructed variant", "Error::http_status, Error::source"])
p("C03", "An unmatched path gives 404, or the fallback variant if there is one",
  "A request whose path matches none of the declared patterns fails with a plain 404 Not Found when the type has no fallback variant, whatever its method. If the type has a variant (or is a struct) with #[forward] and no route attribute, such a request constructs that fallback instead, and requests that do match a declared route never do.",
  ["inputs", "programs"], "every request not matched by a declared pattern",
  "The unmatched requests form an infinite set of which tests send three or four.",
  [M, P], [("final arm of the generated (index, method) match", M), ("PathMap::fallback", P)], ["result of from_request"])
p("C04", "A wrong method gives 405 with exactly the methods that would have been accepted",
  "When a request's path matches a declared pattern but no route of that pattern has its method and the type has no fallback, the request fails with 405 Method Not Allowed. The reported allowed methods are exactly the methods (including implicit HEAD) of the routes with that pattern whose placeholders all convert for this path, without routes of other patterns and without duplicates.",
  ["inputs", "programs"], "every path and every method, including extension methods",
  "Tests look at three paths; the list depends on which conversions succeed for the concrete path and on every variant sharing the pattern.",
  [M], [("find_accepted_methods, variant_matches_path", M), ("Error::wrong_method", E)], ["Error::allowed_methods", "Allow header"])
p("C05", "With a fallback, a wrong method is forwarded and 405 method lists are merged",
  "When the path matches a declared pattern but the method does not, and the type has a fallback variant, the fallback is constructed from the unchanged request and its success is the result. If it fails with 405, the result is a 405 whose allowed methods are the methods this type accepts for the path (as without a fallback) followed by all methods the inner error allows; any other error is passed on unchanged.",
  ["inputs", "programs"], "every request and every outcome of the forwarded type",
  "The merge runs only after an inner failure; tests cover two combinations of outer and inner tables.",
  [M], [("map_err merge in the (Some(i), _) arm", M)], ["Error::allowed_methods of the merged error"])
p("C06", "Every GET route also answers HEAD unless a HEAD route is declared for it",
  "For each declared GET route a HEAD request for the same path selects the same variant, unless the type declares its own HEAD route for that path pattern, which then wins. No HEAD route appears for patterns without GET, and HEAD is listed among the allowed methods wherever it is accepted.",
  ["programs", "inputs"], "every accepted declaration",
  "Tests cover two literal paths; the rule has to hold for patterns with placeholders, several verbs, `*` and any declaration order.",
  [P], [("implied_head_routes in PathMap::build", P)], ["variant chosen for HEAD requests"])
p("C07", "Guards run once, in declaration order, before body and forward; failure stops",
  "When a variant is constructed, each of its guard fields is evaluated exactly once, in declaration order, after path and query conversion succeeded and strictly one after the other (the next starts only after the previous succeeded). The body or forwarded request is touched only after every guard succeeded; the first guard that fails ends the request with that guard's error unchanged, and no later guard, body decoder or forwarded type runs.",
  ["inputs", "programs", "histories"], "every guard outcome sequence, any number of guards, every variant kind",
  "Tests only use guards that succeed, at most two per variant, and cannot see order or short-circuiting.",
  [M, P], [("guard chaining with and_then in construct_variant", M), ("VariantData::guard_fields order", P)], ["Guard::from_request invocations", "error of from_request"])
p("C08", "The body goes once to the body or forward field, and every field is right",
  "The request body is handed, whole and at most once, to the #[body] field's decoder or the #[forward] field's type, together with the request's original metadata, and is not touched when the variant has neither. A decoder's or forwarded type's error is passed on unchanged, and on success the variant is built with every field holding the value produced for that very field.",
  ["inputs", "programs"], "every selected variant, every outcome of its asynchronous parts",
  "Failure paths of decoders and forwarded types are not tested, and field mix-ups of equal types are invisible in the samples.",
  [M], [("#[body]/#[forward] steps of construct_variant", M)], ["FromBody::from_body / inner FromRequest arguments", "constructed value"])
p("C09", "Query parameters decode from the raw query, absent meaning empty; failure is 400",
  "A #[query_params] field is deserialized (as urlencoded data) from exactly the request's query string, or from the empty string if there is none; as documented, an Option field is None without a query and Some otherwise. If decoding fails the request fails with 400 Bad Request carrying the decoding error as source and no guard, body or forward runs.",
  ["inputs", "programs"], "every query string and field type",
  "Tests decode four well-formed query strings; the error path and the documented Option form are never executed.",
  [M], [("query step of construct_variant", M)], ["field value", "Error::http_status, Error::source"])
p("C10", "Guards, bodies and forwarded types receive the caller's own context",
  "The context type of a derived implementation is the one named by #[context(...)] (any type path), else NoContext. Every guard and body decoder receives, through AsRef, the context value that was passed in, and a forwarded type receives that very context value; no other context is ever created or substituted.",
  ["inputs", "programs"], "every context value and every variant kind",
  "Test contexts carry no data, so a fresh or different context would go unnoticed.",
  [M, P, L], [("context.as_ref() / context argument in construct_variant", M), ("ItemData::context", P)], ["context argument of Guard/FromBody/FromRequest"])
p("C11", "Overlapping routes are rejected exactly when some request path matches both",
  "A type whose routes include two different path patterns that can both match one request path, or two routes with the same pattern and method, does not compile, whatever the order in which they are written. Conversely no declaration is rejected as overlapping or duplicate unless such a path really exists.",
  ["programs"], "every pair of path patterns, in both orders",
  "Tests compare 19 pattern pairs, most in one order; the guarantee is about all pairs.",
  [P], [("RoutePath::find_overlap", P), ("PathMap::build, add_route", P), ("ByProxy map keys", U)], ["compilation of #[derive(FromRequest)]"])
p("C12", "Malformed route declarations never compile",
  "The derive refuses: malformed route attributes (missing or non-string path, path without leading slash, bad placeholder name, rest placeholder not last, duplicate placeholder), placeholders without a field or differing between the routes of a variant, fields with two roles, two #[body], #[query_params] or #[forward] fields, #[body] together with #[forward], #[body] or #[query_params] without a route, several fallbacks, misplaced or repeated attributes, tuple variants with routes, unions, and types that can never be constructed. It never silently ignores such a declaration, on structs as well as on enums.",
  ["programs"], "every ill-formed declaration of the listed kinds, on enums and structs",
  "Unit tests pin one instance of about half of these kinds, all but one on enums.",
  [P, M, RC], [("VariantData::parse, ItemData::parse, RoutePath::parse, PathSegment::parse", P)], ["compilation of #[derive(FromRequest)]"])
p("C13", "No request can make the generated router panic",
  "For every request, the code generated by #[derive(FromRequest)] returns a value or an error; none of its internal unwraps, expectations, index operations or debug assertions can fail. In particular the generated patterns are valid and pairwise disjoint and every capture group that is read always participates in a match.",
  ["inputs", "programs"], "every request to every accepted route type",
  "An assertion that fails for one path in an infinite set is not found by sampling.",
  [M, P], [("expect/unwrap/debug_assert in generated code", M)], ["absence of panics in from_request"])
p("C14", "Generated code needs nothing from the deriving crate but hyperdrive itself",
  "Code generated by the derives compiles in a crate that depends only on hyperdrive and imports only the derive, for every supported feature (placeholders, query parameters, body, forward, guards, generics, custom context). Traits, functions and modules of the user that share a name with an item the generated code imports do not change its meaning, and the types of the user that a declaration names keep theirs, whatever they are called.",
  ["programs", "configurations"], "every user crate that depends on hyperdrive",
  "The repository's tests are compiled inside a package that has all of hyperdrive's dependencies in scope.",
  [M, RC, L], [("use list of the generated impl", M), ("hidden re-exports", L)], ["compilation of user crates"])
p("C15", "Futures, services and errors can move between threads",
  "The future of every derived FromRequest type, the futures of AsyncService, SyncService and CatchUnwind and the type DefaultFuture are Send and 'static; Error is Send, Sync and 'static and converts into BoxedError; both adapters are Send and Clone with Send context, and work as hyper Service and MakeService. This holds for generic route types too, with no bounds beyond those of their field roles.",
  ["programs"], "every instantiation with Send parts",
  "A missing bound shows only in user code that instantiates the types in a particular way.",
  [L, S, E, M], [("DefaultFuture alias", L), ("bounds generated by generate_trait_bounds", M)], ["type checking of user crates"])
p("C16", "Responses to HEAD requests have no body; all other responses pass unchanged",
  "For every HEAD request AsyncService and SyncService answer with an empty body while keeping the status, headers and everything else of the handler's response. For every other method the handler's response is returned unchanged.",
  ["inputs"], "every request method and every handler response, in both adapters",
  "No test sends a HEAD request through a service adapter.",
  [S], [("is_head map in Service::call", S)], ["Service::call result"])
p("C17", "A hyperdrive error becomes its HTTP response; other errors propagate unchanged",
  "When decoding or the handler of AsyncService, or decoding in SyncService, fails with a hyperdrive Error of any status, the service succeeds with that error's response (status and headers) and an empty body. Any other error is returned as the service's error, unchanged.",
  ["inputs"], "every error value, from decoding or handler, both adapters",
  "The only service test never produces an error.",
  [S, E], [("or_else + downcast_ref in Service::call", S)], ["Service::call result"])
p("C18", "The handler runs once per decoded request, with the request's own data",
  "Both adapters decode each request from its own complete body, its own metadata and a clone of the configured context. The handler is called exactly once if and only if decoding succeeded, with the decoded value and the original request's metadata, and its outcome determines the response.",
  ["inputs", "histories"], "every request and decoding outcome, both adapters, any sequence of calls",
  "No test checks arguments given to the handler or calls a service twice.",
  [S], [("Service::call", S)], ["handler invocations"])
p("C19", "Synchronous handlers run only on the blocking pool, exactly once",
  "SyncService runs its handler only inside the thread pool's blocking section. `blocking` runs its closure at most once per future, not before the future is polled, and only inside the blocking section; it yields exactly the closure's Ok or Err, stays pending while the pool has no capacity, and panics if the pool cannot run blocking work.",
  ["schedules", "inputs"], "every closure outcome and pool state",
  "Whether a handler runs inside the blocking section is invisible in its result.",
  [L, S], [("tokio_threadpool::blocking in poll_fn", L), ("crate::blocking in SyncService::call", S)], ["handler execution context"])
p("C20", "catch_unwind turns every inner panic into the panic handler's answer",
  "With ServiceExt::catch_unwind a panic raised while the inner service's call runs or while its future is polled is caught and the panic handler is called once with that panic's payload; its outcome is the result. Without a panic the inner result (success or error) is returned unchanged and the handler is not called; the request reaches the inner service unchanged.",
  ["inputs", "fault_sequences"], "every point at which the inner service may panic, and every non-panicking outcome",
  "The test covers three panic positions through a server and none of the non-panicking error outcomes.",
  [S], [("CatchUnwind::call", S)], ["Service::call result of CatchUnwind"])
p("C21", "Cloning a service or making one per connection shares handler and context",
  "Cloning AsyncService, SyncService or CatchUnwind yields a service with the same handler and an equal (cloned) context or inner service. make_service (also via make_service_by_cloning) always succeeds with such a clone and leaves the original unchanged; `new` and `with_context` store the given handler and context.",
  ["histories"], "every sequence of connections",
  "Tests open few connections and never compare the services.",
  [S], [("Clone and MakeService impls", S)], ["MakeService::make_service result"])
p("C22", "hyperdrive::Error always has an error status and reports what it was built from",
  "An Error can only be created with a 4xx or 5xx status: from_status and with_source panic for every other status and otherwise keep exactly the given status and source; wrong_method yields 405 with exactly the given methods. http_status, source (both the inherent and the std::error::Error one) and allowed_methods (Some exactly for 405) return what was stored, and Display shows the status followed, if there is a source, by the source.",
  ["inputs"], "every status code, source and method list",
  "There is no unit test of these functions beyond doc examples with 404.",
  [E], [("Error::new and accessors", E)], ["Error's public methods"], [("Error", "status, allowed methods, source; private fields", E)])
p("C23", "An error's response carries its status, and Allow exactly for 405",
  "Error::response builds a response with the error's status and no body and never fails. For 405 it has exactly one Allow header listing all allowed methods in order separated by \", \" (empty if there are none); for any other status it has no Allow header and no other headers are ever added.",
  ["inputs"], "every status and every method list",
  "No test inspects a response's headers.",
  [E], [("Error::response", E)], ["Error::response result"])
p("C24", "Json and HtmlForm decode the complete body; any failure is an error",
  "Json<T> and HtmlForm<T> wait for the complete body and decode exactly its bytes, as JSON respectively urlencoded data, independent of the request's headers; the wrapper gives access to exactly the decoded value. A transport error or a decoding error is returned as that error, never dropped, replaced by a default or turned into a panic.",
  ["inputs", "fault_sequences"], "every body, chunking and transport failure",
  "Tests decode a few small well-formed bodies delivered in one chunk.",
  [B], [("FromBody impls", B), ("deref! macro", B)], ["FromBody::from_body result"])
p("C25", "All entry points of FromRequest decode the same request the same way",
  "from_request passes the request's complete metadata (method, URI, version, headers, extensions), its whole body and the given context unchanged to from_request_and_body and returns its future. from_request_sync returns exactly the outcome of driving from_request on the same arguments to completion.",
  ["inputs"], "every request and context",
  "Tests go through from_request_sync only and compare no metadata besides URI and method.",
  [L], [("default methods of FromRequest", L)], ["FromRequest::from_request, from_request_sync"])
p("C26", "Contexts convert to exactly themselves, NoContext and their #[as_ref] fields",
  "Deriving RequestContext makes AsRef<Self> return the value itself, AsRef<NoContext> available, and for every field marked #[as_ref] an AsRef to exactly that field, for named, tuple and generic structs and enums; unmarked fields get none. Misplaced, malformed or repeated #[as_ref] attributes do not compile.",
  ["programs", "inputs"], "every context declaration and value",
  "Tests only check that the impls exist, not which field they return.",
  [RC, L], [("derive_request_context", RC)], ["AsRef impls of derived contexts"])
p("C27", "Expanding the same declaration always yields the same router",
  "The generated code depends only on the declaration itself: neither hash seeds, time, environment, files nor global state influence it. In particular route order, pattern indices and the order of allowed methods are the same in every build.",
  ["programs", "histories"], "every declaration, every build",
  "A dependence on hash order appears only in some builds, and not with small tables.",
  [P, M, U], [("IndexMap in PathMap", P), ("ByProxy hash/eq", U)], ["expansion of the derives"])
p("C28", "Nothing in the library blocks the executor except the synchronous entry point",
  "Apart from from_request_sync and work handed to `blocking`, no library function and no generated code performs a blocking operation (waiting on futures, channels, locks, sleeping, file or network I/O) on any path.",
  ["schedules", "inputs"], "every path of every asynchronous entry point",
  "Blocking only shows under load on a busy executor.",
  [L, S, B, M], [("futures combinators throughout", S)], ["calls reachable from asynchronous entry points"])
p("C29", "Every well-formed declaration compiles",
  "Well-formed route and context declarations are accepted: all nine verbs, several routes per variant, `*` together with ordinary paths, any number of placeholders and guards, structs and enums, unit, empty and generic types, fallbacks, custom context types given by any path, attributes of other tools on the type, its variants or fields, and variants without a route, which are ignored.",
  ["programs"], "every well-formed declaration of the listed kinds",
  "Only the forms that happen to occur in the tests are known to compile.",
  [M, P, RC], [("VariantData::parse, ItemData::parse", P), ("generate_trait_bounds", M)], ["compilation of the derives"])
p("C30", "Json and HtmlForm accept exactly the documents of their format",
  "For every byte sequence, Json<T> succeeds exactly when it is a JSON document for T and HtmlForm<T> exactly when it is urlencoded data for T, with the value the format assigns to it.",
  ["inputs"], "every body",
  "The grammar and the value mapping quantify over all byte strings.",
  [B], [("serde_json::from_slice, serde_urlencoded::from_bytes", B)], ["FromBody::from_body result"])
p("C31", "Independent requests make progress independently",
  "A request whose guard, body or handler does not complete never delays the decoding or answering of other requests handled by the same service, and every request whose parts complete is eventually answered.",
  ["schedules"], "every interleaving of concurrent requests",
  "Scheduling is not controlled by tests.",
  [S, L], [("boxed futures per call", S)], ["completion of Service::call futures"])
p("C32", "Allowed-method lists are valid against RFC 7231 for user-written errors too",
  "Whatever list of methods an application passes to wrong_method, the Allow header sent to the client is a syntactically valid, non-misleading list for the resource.",
  ["inputs"], "every list of methods chosen by the application",
  "The list is an arbitrary runtime value of the application.",
  [E], [("Error::wrong_method", E)], ["Allow header"])
p("C33", "Service adapters are ready exactly when what they wrap is",
  "CatchUnwind::poll_ready answers exactly what the wrapped service's poll_ready answers (ready, not ready, or its error), so that a service at capacity is never called early and a ready one never held up. AsyncService, SyncService and MakeServiceByCloning, which wrap no service with a readiness of its own, are always ready and never fail.",
  ["histories", "inputs"], "every answer of the wrapped service, at every point of its history",
  "The tests never ask for readiness; a service that is temporarily at capacity does not occur in them.",
  [S], [("impl Service for CatchUnwind", S), ("default poll_ready of hyper::service::Service", S)], ["Service::poll_ready, MakeService::poll_ready"])
p("C34", "No future of the library stalls",
  "A future returned by the library (bodies, guards, services, FromRequest entry points, futures of derived types) reports NotReady only when something it is waiting for (a body chunk, a guard, a handler, an inner service, blocking work) has itself just reported NotReady, and thus has arranged to wake the task. It never answers NotReady on its own account, and it never asks something that has already completed.",
  ["schedules", "inputs"], "every sequence of answers of the parts a future waits for",
  "Test bodies arrive in one ready chunk and test handlers complete at once, so a lost wake-up cannot show.",
  [B, S, L], [("Json, HtmlForm: concat2().and_then", B), ("boxed futures of the services", S), ("from_request", L)], ["Future::poll of the library's futures"])
p("C35", "The same request is always treated the same way",
  "What the library does with a request depends only on that request, the context and the user's code. Nothing is carried over from one request to another: the library and generated code have no mutable, thread-local or lazily filled state (compiled patterns excepted) and consult no clock, environment, file, thread identity, hash order, address or reference count; `call` leaves a service as it was, and services have no interior mutability.",
  ["histories", "schedules", "inputs"], "every history of requests, failed and panicked ones included",
  "Every test uses a fresh service for one request; a value remembered from an earlier request or an earlier panic needs a particular history.",
  [S, E, L, M], [("AsyncService, SyncService, CatchUnwind::call", S), ("ROUTES static in generated code", M)], ["responses to repeated requests"])
p("C36", "The library and the code it generates are free of unsafe code",
  "hyperdrive, hyperderive and the code the derives generate contain no unsafe block, function, trait or impl, no foreign function, no mutable static and no fixed symbol name, so that no request and no declaration can cause undefined behaviour by way of them, and thread safety of services and contexts is always established by the compiler rather than asserted.",
  ["programs", "schedules"], "every function and impl of both crates, every template of the generated code",
  "Undefined behaviour and unsound Send or Sync claims do not show up in runs that happen to work.",
  [L, S, B, E, M, RC], [("`impl Service`, boxed futures with Send bounds", S), ("generated impls", M)], ["source of both crates and generated impls"])
p("C37", "Dropping a request's future cancels the request and frees what it owns",
  "Everything the library holds for a request (the request, its body, the context, guards, the user's futures) is owned by the future it returned and dropped with it: nothing is handed to an executor or a thread, leaked, forgotten or put into global state.",
  ["schedules", "histories"], "every point at which a client disconnects",
  "The tests drive every future to completion.",
  [S, L, B], [("AsyncService::call, SyncService::call", S), ("FromRequest::from_request", L)], ["drop of the futures returned by the library"])
p("C38", "No request brings the process down",
  "No path from an entry point of the library or of generated code ends the process (exit, abort, a panic in a destructor) or recurses to a depth that depends on the request.",
  ["inputs"], "every request, however long its path or deep its structure",
  "Aborts and stack overflows need an unusual request, and a test that meets one takes the whole test process with it.",
  [S, L, E, M], [("CatchUnwind panic handling", S), ("generated dispatch", M)], ["survival of the server process"])
p("C39", "Route patterns are compiled once, never while answering a request",
  "The regular expressions of a derived type are compiled by one-time initialisers of statics. Once they have run, no path from an entry point of generated code to the compilation of a pattern exists, so the cost of a request does not include compiling routes.",
  ["inputs", "histories"], "every request to every derived type",
  "Compiling per request gives the same answers, only slowly.",
  [M], [("lazy_static ROUTES and per-route regexes", M)], ["calls into regex from generated code"])
p("C40", "Deriving causes no compiler warnings in the user's crate",
  "A well-formed, warning-free declaration stays warning-free when the derives are added: generated code triggers no lint that is on by default (nor non-camel-case, unused or deprecation lints for names the user chose), so crates that deny warnings can use the derives.",
  ["programs"], "every well-formed declaration, lint levels included",
  "The tests derive for a few ordinary declarations and ignore warnings.",
  [M, P, RC], [("quote templates of the generated impls", M), ("#[allow(...)] on generated items", M)], ["diagnostics of the deriving crate"])
p("C41", "Messages about refused declarations tell the truth about them",
  "When a derive refuses a declaration it does so with a message about that declaration, never with an internal crash. A message about overlapping or duplicate routes names two declared routes that really clash, and an example path it shows is matched by both; a message about a malformed declaration names the attribute, placeholder, variant, field or type at fault.",
  ["programs"], "every ill-formed or ambiguous declaration",
  "The tests look at one message per kind of mistake; a wrong example path or a crash needs particular patterns.",
  [M, P, RC], [("intersect: example path", RC), ("panic messages of the derive", M), ("parse errors of patterns", P)], ["diagnostics of the derives"])
p("C42", "The public API accepts every use its documentation allows",
  "Every public type, trait, function and method can be used at the full generality it documents: services with any handler, context, connection and request body type, adapters over any service, wrappers of any decodable type, errors of any source, blocking work of any kind, contexts and guards and bodies written by hand. Clone and Debug of AsyncService and SyncService ask nothing of the handler.",
  ["programs"], "every instantiation of the type parameters",
  "Tests instantiate each item with a few concrete, well-behaved types; an additional bound rejects programs that no test contains.",
  [L, S, B, E], [("AsyncService, SyncService, ServiceExt, CatchUnwind", S), ("Error::with_source", E), ("FromBody impls", B), ("traits, blocking", L)], ["type-checking of client programs"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in props:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(props))
