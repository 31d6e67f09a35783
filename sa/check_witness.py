"""C14, C15, C26, C29: programs that have to compile, and programs that must not."""
import random
import re
import subprocess

import build
import compiler
import corpus
import decl as D
import interp
import lib_
import report
from values import *  # noqa: F401,F403


def judge(r, rows, procs, head='', samples=12, what='does not compile'):
    """rows: (name, source) that have to compile.  Reports and returns how many were decided."""
    got = compiler.compile_good(list(enumerate(s for _, s in rows)), procs, head)
    for i, (n, s) in enumerate(rows):
        e = got.get(i)
        if e is not None:
            r.violation(n + ': ' + ' '.join(s.split())[:1500], '%s: %s' % (what, '; '.join(e[:3])))
    return len(rows)


# ---------------------------------------------------------------- C14

# types for every role, each named by absolute path only: nothing of hyperdrive but the derive is imported
ROLES = r'''#![allow(warnings)]
pub mod t {
pub struct PE;
impl std::fmt::Debug for PE { fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result { loop {} } }
impl std::fmt::Display for PE { fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result { loop {} } }
impl std::error::Error for PE {}
pub struct UP;
impl std::str::FromStr for UP { type Err = PE; fn from_str(_: &str) -> std::result::Result<Self, PE> { loop {} } }
pub struct UQ;
impl<'de> hyperdrive::serde::Deserialize<'de> for UQ { fn deserialize<D: hyperdrive::serde::Deserializer<'de>>(_: D)
    -> std::result::Result<Self, D::Error> { loop {} } }
pub struct UG;
impl hyperdrive::Guard for UG { type Context = UC; type Result = std::result::Result<Self, hyperdrive::BoxedError>;
    fn from_request(_: &std::sync::Arc<hyperdrive::http::Request<()>>, _: &UC) -> Self::Result { loop {} } }
pub struct UH;
impl hyperdrive::Guard for UH { type Context = hyperdrive::NoContext; type Result = std::result::Result<Self, hyperdrive::BoxedError>;
    fn from_request(_: &std::sync::Arc<hyperdrive::http::Request<()>>, _: &hyperdrive::NoContext) -> Self::Result { loop {} } }
pub struct UB;
impl hyperdrive::FromBody for UB { type Context = hyperdrive::NoContext; type Result = std::result::Result<Self, hyperdrive::BoxedError>;
    fn from_body(_: &std::sync::Arc<hyperdrive::http::Request<()>>, _: hyperdrive::hyper::Body, _: &hyperdrive::NoContext)
    -> Self::Result { loop {} } }
pub struct UF;
impl hyperdrive::FromRequest for UF { type Context = UC; type Future = hyperdrive::DefaultFuture<Self, hyperdrive::BoxedError>;
    fn from_request_and_body(_: &std::sync::Arc<hyperdrive::http::Request<()>>, _: hyperdrive::hyper::Body, _: UC)
    -> Self::Future { loop {} } }
pub struct UN;
impl hyperdrive::FromRequest for UN { type Context = hyperdrive::NoContext; type Future = hyperdrive::DefaultFuture<Self, hyperdrive::BoxedError>;
    fn from_request_and_body(_: &std::sync::Arc<hyperdrive::http::Request<()>>, _: hyperdrive::hyper::Body, _: hyperdrive::NoContext)
    -> Self::Future { loop {} } }
pub struct UC;
impl std::convert::AsRef<UC> for UC { fn as_ref(&self) -> &UC { self } }
impl std::convert::AsRef<hyperdrive::NoContext> for UC { fn as_ref(&self) -> &hyperdrive::NoContext { &hyperdrive::NoContext } }
impl hyperdrive::RequestContext for UC {}
}
'''
FEATURES = {
    'one literal route': '#[derive(FromRequest)] pub enum R { #[get("/")] A }',
    'struct route': '#[derive(FromRequest)] #[get("/")] pub struct R;',
    'two literal routes': '#[derive(FromRequest)] pub enum R { #[get("/a")] A, #[post("/b")] B {} }',
    'all verbs': '#[derive(FromRequest)] pub enum R { #[get("/")] #[head("/")] #[post("/")] #[put("/")] #[delete("/")] '
                 '#[connect("/")] #[options("/")] #[trace("/")] #[patch("/")] A }',
    'asterisk route': '#[derive(FromRequest)] pub enum R { #[options("*")] A }',
    'placeholder': '#[derive(FromRequest)] pub enum R { #[get("/{x}")] A { x: UP } }',
    'placeholder struct': '#[derive(FromRequest)] #[get("/{x}")] pub struct R { x: UP }',
    'placeholder of a std type': '#[derive(FromRequest)] #[get("/{x}/{y}/{z...}")] pub struct R { x: u8, y: f64, z: String }',
    'rest placeholder': '#[derive(FromRequest)] pub enum R { #[get("/{x...}")] A { x: UP } }',
    'several variants of one pattern': '#[derive(FromRequest)] pub enum R { #[get("/{x}")] A { x: UP }, #[post("/{y}")] B { y: UP } }',
    'query parameters': '#[derive(FromRequest)] pub enum R { #[get("/")] A { #[query_params] q: UQ } }',
    'query parameters struct': '#[derive(FromRequest)] #[get("/")] pub struct R { #[query_params] q: UQ }',
    'body': '#[derive(FromRequest)] pub enum R { #[post("/")] A { #[body] b: UB } }',
    'body struct': '#[derive(FromRequest)] #[post("/")] pub struct R { #[body] b: UB }',
    'forward with a route': '#[derive(FromRequest)] pub enum R { #[post("/")] A { #[forward] f: UN } }',
    'fallback only': '#[derive(FromRequest)] pub enum R { A { #[forward] f: UN } }',
    'fallback struct': '#[derive(FromRequest)] pub struct R { #[forward] f: UN }',
    'fallback and literal route': '#[derive(FromRequest)] pub enum R { #[get("/")] B, A { #[forward] f: UN } }',
    'fallback and placeholder route': '#[derive(FromRequest)] pub enum R { #[get("/{x}")] B { x: UP }, A { #[forward] f: UN } }',
    'fallback with guard': '#[derive(FromRequest)] pub enum R { #[get("/")] B, A { g: UH, #[forward] f: UN } }',
    'guard': '#[derive(FromRequest)] pub enum R { #[get("/")] A { g: UH } }',
    'guard struct': '#[derive(FromRequest)] #[get("/")] pub struct R { g: UH }',
    'two guards': '#[derive(FromRequest)] pub enum R { #[get("/")] A { g: UH, h: UH } }',
    'context': '#[derive(FromRequest)] #[context(UC)] pub enum R { #[get("/")] A }',
    'context with guard': '#[derive(FromRequest)] #[context(UC)] pub enum R { #[get("/")] A { g: UG, h: UH } }',
    'context with forward': '#[derive(FromRequest)] #[context(UC)] pub enum R { #[get("/")] A { #[forward] f: UF } }',
    'context with body': '#[derive(FromRequest)] #[context(UC)] pub enum R { #[get("/")] A { #[body] b: UB } }',
    'context struct': '#[derive(FromRequest)] #[context(UC)] #[get("/")] pub struct R { g: UG }',
    'unrouted variants': '#[derive(FromRequest)] pub enum R { #[get("/")] A, B, C { x: u8 }, D(u8, String) }',
    'generic placeholder': '#[derive(FromRequest)] #[get("/{x}")] pub struct R<T> { x: T } pub type S = R<UP>;',
    'generic query': '#[derive(FromRequest)] #[get("/")] pub struct R<T> { #[query_params] x: T } pub type S = R<UQ>;',
    'generic guard': '#[derive(FromRequest)] #[get("/")] pub struct R<T> { x: T } pub type S = R<UH>;',
    'generic body': '#[derive(FromRequest)] #[get("/")] pub struct R<T> { #[body] x: T } pub type S = R<UB>;',
    'generic forward': '#[derive(FromRequest)] #[get("/")] pub struct R<T> { #[forward] x: T } pub type S = R<UN>;',
    'generic fallback': '#[derive(FromRequest)] pub enum R<T> { A { #[forward] x: T } } pub type S = R<UN>;',
    'generic unrouted': '#[derive(FromRequest)] pub enum R<T> { #[get("/")] A, B(T) } pub type S = R<u8>;',
    'generic with context': '#[derive(FromRequest)] #[context(UC)] #[get("/{a}")] pub struct R<T, U, V, W, X> { a: T, '
                            '#[query_params] q: U, g: V, #[body] b: W, g2: X } pub type S = R<UP, UQ, UG, UB, UG>;',
    'request context': '#[derive(RequestContext)] pub struct R { #[as_ref] x: UQ, #[as_ref] y: UC, z: u8 }',
    'request context tuple': '#[derive(RequestContext)] pub struct R(#[as_ref] UQ, u8);',
    'request context enum': '#[derive(RequestContext)] pub enum R { A, B { x: u8 } }',
    'request context generic': '#[derive(RequestContext)] pub struct R<T>(#[as_ref] Vec<T>, #[as_ref] UC);',
    'everything': '#[derive(FromRequest)] #[context(UC)] pub enum R { '
                  '#[get("/{a}/{b}")] A { a: UP, b: UP, #[query_params] q: UQ, g: UG, #[body] bo: UB }, '
                  '#[post("/{a}/{b}")] #[get("/x/y/{a}/{b...}")] B { a: UP, b: UP, g: UG, #[forward] f: UF }, '
                  '#[put("*")] C, D, #[get("/")] G, E { g: UG, #[forward] f: UF } }',
}
# what the generated code imports
IMPORTED = ['FromBody', 'FromRequest', 'Guard', 'DefaultFuture', 'NoContext', 'BoxedError', 'Error', 'http',
            'StatusCode', 'hyper', 'lazy_static', 'regex', 'RegexSet', 'Regex', 'futures', 'IntoFuture', 'Future',
            'AsRef', 'FromStr', 'Arc', 'RequestContext']
METHODS = {'AsRef': 'fn as_ref(&self) {}', 'FromStr': 'fn from_str(_: &str) {}', 'Future': 'fn poll(&mut self) {}',
           'Guard': 'fn from_request(&self) {}', 'FromBody': 'fn from_body(&self) {}',
           'FromRequest': 'fn from_request_and_body(&self) {}', 'Error': 'fn from_status() {}',
           'RegexSet': 'fn new() {}', 'Regex': 'fn new() {}'}


# names that types of a user may well have
NAMES = ('Json Path Query Context Route Router Item Output T F E Match Params Segment Type Handler Id User Guards Value '
         'Static Endpoint State Data Form Page Name Token Session Db').split()
PRELUDE_NAMES = 'Variant Box Vec Option Some Ok Err'.split()


# types named in other ways than by an identifier
PATHS = {
    'a path from the root next to a module of the name':
        'pub mod hyperdrive { pub struct NoContext; } #[derive(::hyperdrive::FromRequest)] #[context(::hyperdrive::NoContext)] '
        '#[get("/")] pub struct R { g: UH }',
    'a generic path from the root next to a module of the name':
        'pub mod hyperdrive { pub struct DefaultFuture; pub mod body { pub struct Json; } } #[derive(::hyperdrive::FromRequest)] '
        '#[post("/")] pub struct R { #[body] b: ::hyperdrive::body::Json<UQ>, g: UH }',
    'paths from self, super and crate':
        '#[derive(FromRequest)] #[context(self::UC)] #[get("/{x}")] pub struct R { x: self::UP, g: super::t::UG, '
        '#[body] b: super::t::UB, #[query_params] q: crate::t::UQ }',
    'a context from crate': '#[derive(FromRequest)] #[context(crate::t::UC)] #[get("/")] pub struct R { g: UG }',
    'a context from super': '#[derive(FromRequest)] #[context(super::t::UC)] #[get("/")] pub struct R { #[forward] g: UF }',
    'associated types': '#[derive(FromRequest)] #[context(<UC as Id>::T)] #[get("/{x}")] pub struct R { x: <UP as Id>::T, '
                        'g: <UG as Id>::T, #[query_params] q: <UQ as Id>::T, #[body] b: <UB as Id>::T } '
                        'pub trait Id { type T; } impl<X> Id for X { type T = X; }',
    'types from macros': 'macro_rules! ty { ($t:ty) => { $t } } #[derive(FromRequest)] #[context(ty!(UC))] #[get("/{x}")] '
                         'pub struct R { x: ty!(UP), g: ty!(UG), #[query_params] q: ty!(UQ) }',
    'parenthesized types': '#[derive(FromRequest)] #[context((UC))] #[get("/{x}")] pub struct R { x: (UP), g: (UG), #[body] b: (UB) }',
    'raw names': '#[derive(FromRequest)] #[context(r#UC)] #[get("/{x}")] pub struct R { x: r#UP, r#g: r#UG }',
    'aliases': 'pub type I<T> = T; #[derive(FromRequest)] #[context(I<UC>)] #[get("/{x}")] pub struct R { x: I<UP>, g: I<I<UG>> }',
    'paths of parts of a context': '#[derive(RequestContext)] pub struct R { #[as_ref] x: self::UQ, #[as_ref] y: <UG as Id>::T, '
                                   '#[as_ref] z: crate::t::UH } pub trait Id { type T; } impl<X> Id for X { type T = X; }',
}


CRATES = 'std core alloc futures serde serde_json serde_urlencoded lazy_static tokio'.split()


def named(names):
    """derives of and with types that have these names"""
    for x in names:
        for role, u, decl in (
                ('placeholder', 'UP', '#[derive(FromRequest)] #[get("/{x}")] pub struct R { x: %s }'),
                ('guard', 'UH', '#[derive(FromRequest)] #[get("/{y}")] pub struct R { x: %s, y: u8 }'),
                ('query', 'UQ', '#[derive(FromRequest)] #[get("/")] pub struct R { #[query_params] x: %s }'),
                ('body', 'UB', '#[derive(FromRequest)] #[post("/")] pub struct R { #[body] x: %s }'),
                ('forward', 'UN', '#[derive(FromRequest)] pub enum R { #[get("/")] A, B { #[forward] x: %s } }'),
                ('context', 'UC', '#[derive(FromRequest)] #[context(%s)] #[get("/")] pub struct R { g: UG }'),
                ('part of a context', 'UH', '#[derive(RequestContext)] pub struct R { #[as_ref] x: %s, y: u8 }')):
            yield '%s of a type called %s' % (role, x), 'pub use crate::t::%s as %s; %s' % (u, x, decl % x)
        yield 'route type called ' + x, ('#[derive(FromRequest)] #[get("/{a}")] #[post("/{a}")] pub struct %s { a: UP, g: UH, '
                                         '#[query_params] q: UQ, #[body] b: UB }' % x)
        yield 'context called ' + x, '#[derive(RequestContext)] pub struct %s { #[as_ref] x: UQ }' % x
        yield 'type parameter called ' + x, ('#[derive(FromRequest)] #[get("/{a}")] #[post("/{a}")] pub struct R<%s, B_> { a: UP, '
                                             'g: B_, #[query_params] q: %s, #[body] b: UB }' % (x, x))


def module(i, feature, extra='', imports='FromRequest'):
    """an own module, without anything else in scope"""
    use = 'use hyperdrive::RequestContext;' if 'derive(RequestContext)' in feature else 'use hyperdrive::%s;' % imports
    if imports is None:
        use = ''
        feature = re.sub(r'derive\((?!::)', 'derive(hyperdrive::', feature)
    return 'pub mod m%d { use crate::t::*; %s %s %s }' % (i, use, extra, feature)


def hygiene(r, procs=8):
    build.prepare()
    rows = []
    for k, f in FEATURES.items():
        rows.append((k, module(len(rows), f)))
        rows.append((k + ' (derive named by path)', module(len(rows), f, imports=None)))
        i = len(rows)
        rows.append((k + ' (inside a function)',
                     'pub mod m%d { use crate::t::*; fn f() { use hyperdrive::{FromRequest, RequestContext}; %s } }' % (i, f)))
        i = len(rows)
        rows.append((k + ' (from a macro)', 'pub mod m%d { use crate::t::*; use hyperdrive::{FromRequest, RequestContext}; '
                     'macro_rules! m { ($($t:tt)*) => { $($t)* } } m! { %s } }' % (i, f)))
    n = judge(r, rows, procs, ROLES)
    # other crates are out of reach: only hyperdrive is passed to the compiler (build.rustc_flags)
    shadow = []
    feats = [k for k in FEATURES if r.tier == 'thorough' or k in (
        'everything', 'placeholder', 'query parameters', 'body struct', 'fallback and placeholder route', 'guard',
        'generic with context', 'request context', 'context with forward', 'unrouted variants')]
    for name in IMPORTED:
        kinds = {'trait': 'pub trait %s { %s } impl<T> %s for T {}' % (name, METHODS.get(name, ''), name),
                 'generic trait': 'pub trait %s<T> { %s }' % (name, METHODS.get(name, '')),
                 'trait without implementations': 'pub trait %s { %s }' % (name, METHODS.get(name, '')),
                 'function': 'pub fn %s() {}' % name, 'generic function': 'pub fn %s<T>(_: T) -> T { loop {} }' % name,
                 'module': 'pub mod %s {}' % name,
                 'module with content': 'pub mod %s { pub struct Request; pub struct StatusCode; pub struct Body; '
                                        'pub fn new() {} }' % name}
        for kind, extra in kinds.items():
            for k in feats:
                f = FEATURES[k]
                shadow.append(('%s next to a %s called %s' % (k, kind, name),
                               module(10000 + len(shadow), f, extra, imports=None)))
        # by import
    # modules and items called like a crate
    for name in CRATES:
        for kind, extra in (('module', 'pub mod %s {}'), ('module with content', 'pub mod %s { pub mod convert {} pub mod str {} '
                            'pub mod sync {} pub mod option {} pub mod result {} pub mod boxed {} pub struct Request; }'),
                            ('function', 'pub fn %s() {}'), ('type', 'pub struct %s;')):
            for k in feats:
                shadow.append(('%s next to a %s called %s' % (k, kind, name),
                               module(10000 + len(shadow), FEATURES[k], extra % name, imports=None)))
    n += judge(r, shadow, procs, ROLES, what='does not compile any more')
    # types of the user, with any name
    known = report.known_findings(r.pid).get('type-names', '')
    taken = set(known.partition('called ')[2].partition(' ')[0].split(',')) - {''}
    rows = list(PATHS.items()) + list(named(NAMES + [x for x in IMPORTED + PRELUDE_NAMES if x not in taken]))
    n += judge(r, [(w, module(30000 + i, f, imports=None)) for i, (w, f) in enumerate(rows)], procs, ROLES)
    if taken:
        bad = compiler.compile_good([(t, module(50000, f, imports=None)) for t in sorted(taken)
                                     for w, f in named([t]) if w.startswith('guard')], procs, ROLES)
        n += len(bad)
        if any(e is not None for e in bad.values()):
            r.known.append('type-names ' + known)
    # at the crate root, and in other editions
    roots = []
    for k in ('everything', 'request context', 'generic with context', 'fallback and literal route'):
        f = FEATURES[k].replace('derive(', 'derive(hyperdrive::')
        for name in IMPORTED:
            for kind, extra in (('trait', 'pub trait %s { %s }' % (name, METHODS.get(name, ''))),
                                ('module', 'pub mod %s {}' % name)):
                roots.append(('%s at the crate root next to a %s called %s' % (k, kind, name),
                              ROLES + 'use t::*; ' + extra + ' ' + f))
    if r.tier != 'thorough':
        rnd = random.Random(r.seed)
        roots = rnd.sample(roots, 60)
    for (nm, s), e in zip(roots, compiler.compile_each([s for _, s in roots], procs)):
        n += 1
        if e is not None:
            r.violation(nm, 'does not compile any more: %s' % '; '.join(e[:3]))
    eds = []
    for ed in ('2018', '2021', '2024'):
        s = ROLES + '\n'.join(module(i, f) for i, f in enumerate(FEATURES.values()))
        got = compiler.compile_each([s], 1, edition=ed)[0]
        n += 1
        eds.append(ed)
        if got is not None:
            r.violation('every feature in a crate of edition ' + ed, 'does not compile: %s' % '; '.join(got[:3]))
    r.coverage = {'programs': n, 'disagreements_checked': n, 'features': sorted(FEATURES), 'names': IMPORTED,
                  'editions': eds, 'exhaustive': False, 'samples': [rows[i][1] for i in range(0, len(rows), 17)] +
                  [shadow[i][1] for i in range(0, len(shadow), 199)],
                  'explanation': 'rule: each witness type-checks with hyperdrive as the only dependency and only the '
                                 'derive imported; items of the same name as an imported one have incompatible '
                                 'signatures, so using them instead would not type-check'}
    r.assumptions = ['user traits that are implemented for every type and have a method of another name used by the '
                     'generated code (into_future, and_then, clone, ...) are not covered']
    return r.finish(n, n)


# ---------------------------------------------------------------- C10

OWN = 'pub mod %s { pub struct %s; pub mod inner { pub struct %s; } %s }'
VALID = ('impl ::std::convert::AsRef<%s> for %s { fn as_ref(&self) -> &%s { self } } '
         'impl ::std::convert::AsRef<::hyperdrive::NoContext> for %s { fn as_ref(&self) -> &::hyperdrive::NoContext { loop {} } } '
         'impl ::hyperdrive::RequestContext for %s {} ')


def context_types(r, procs=8):
    """the context of what is derived is the type that the attribute names"""
    def valid(*ts):
        return ' '.join(VALID.replace('%s', t) for t in ts)
    rows = []
    gen = ('pub struct Gen<T>(T); impl<T> ::std::convert::AsRef<Gen<T>> for Gen<T> { fn as_ref(&self) -> &Gen<T> { self } } '
           'impl<T> ::std::convert::AsRef<::hyperdrive::NoContext> for Gen<T> { fn as_ref(&self) -> &::hyperdrive::NoContext { loop {} } } '
           'impl<T: Clone> ::hyperdrive::RequestContext for Gen<T> {} '
           'pub trait Id { type T; } impl<X> Id for X { type T = X; } pub type Alias<T = K> = T; '
           'pub trait K2 { type T; } impl<X> K2 for X { type T = K; } '
           'pub mod hyperdrive { pub struct NoContext; pub struct K; } pub mod k { pub struct K; pub mod k { pub struct K; } } '
           'pub struct K; pub struct r#type; macro_rules! ty { ($t:ty) => { $t } } ') + valid(
               'K', 'k::K', 'k::k::K', 'hyperdrive::NoContext', 'hyperdrive::K', 'r#type')
    for c in ('K', 'self::K', 'k::K', 'self::k::K', 'k::k::K', 'self::k::k::K', 'super::K', 'super::k::K', 'crate::K',
              'crate::k::K', 'crate::k::k::K', '::hyperdrive::NoContext', 'self::hyperdrive::NoContext', 'self::hyperdrive::K', 'r#type', 'self::r#type', '(K)', '((k::K))', 'ty!(k::K)',
              'Alias', 'Alias<k::K>', 'Alias<>', '<K as Id>::T', '<k::K as K2>::T', '<K as self::Id>::T', '<(K) as super::Id>::T',
              'Gen<u8>', 'Gen<Vec<u8>>', 'Gen<(u8, K)>'.replace('K', 'u16'), 'Gen<[u8; 2]>', "Gen<&'static str>", 'Gen<fn(u8) -> u8>',
              'Gen<::std::string::String>', 'Gen<Option<u8>>', 'Gen<Gen<u8>>'.replace('Gen<u8>>', 'Vec<u16>>'), 'super::Gen<u8>',
              'self::Gen::<u8>', 'Gen<<u8 as Id>::T>'):
        i = len(rows)
        for f in ('#[get("/")] pub struct R;', 'pub enum R { #[get("/{x}")] A { x: u8 }, #[post("/")] B }',
                  '#[get("/")] pub struct R<T> { #[query_params] x: T }'):
            i = len(rows)
            ty = 'R<UQ>' if '<T>' in f else 'R'
            inner = gen + ('#[derive(::hyperdrive::FromRequest)] #[context(%s)] %s '
                           'fn same<T: ::hyperdrive::FromRequest<Context = X>, X>() {} pub fn f() { same::<%s, %s>() }' % (c, f, ty, c))
            # super and crate have a K of their own
            rows.append(('context %s' % c, 'pub mod n%d { use crate::t::UQ; %s pub mod m { use crate::t::UQ; use super::Gen as _; %s } }' % (
                i, gen, inner)))
    # a path that starts with :: names a crate, also where a module has the crate's name
    own = 'pub struct K; pub mod core { pub mod pin { pub struct Pin<T>(pub T); } } ' + valid('::core::pin::Pin<K>', 'self::core::pin::Pin<K>')
    for c in ('::core::pin::Pin<K>', 'self::core::pin::Pin<K>'):
        for f in ('#[get("/")] pub struct R;', 'pub enum R { #[get("/{x}")] A { x: u8 }, #[post("/")] B }'):
            rows.append(('context %s' % c, 'pub mod q%d { %s #[derive(::hyperdrive::FromRequest)] #[context(%s)] %s '
                         'fn same<T: ::hyperdrive::FromRequest<Context = X>, X>() {} pub fn f() { same::<R, %s>() } }' % (
                             len(rows), own, c, f, c)))
    n = judge(r, rows, procs, ROLES + gen, what='does not have that context')
    plain = [('no context', 'pub mod p%d { use crate::t::*; %s #[derive(::hyperdrive::FromRequest)] %s '
              'fn same<T: ::hyperdrive::FromRequest<Context = ::hyperdrive::NoContext>>() {} pub fn f() { same::<R>() } }' % (i, x, f))
             for i, (x, f) in enumerate((x, f) for x in ('', 'pub struct NoContext;') for f in
                                        ('#[get("/")] pub struct R;', 'pub enum R { #[get("/{x}")] A { x: u8 }, #[post("/")] B }',
                                         'pub enum R { #[get("/")] A, F { #[forward] f: UN } }', 'pub struct R { g: UH, #[forward] f: UN }'))]
    n += judge(r, plain, procs, ROLES, what='does not have NoContext')
    r.coverage['context_types'] = n
    return n


# ---------------------------------------------------------------- C15

SEND = r'''
use hyperdrive::service::*;
use hyperdrive::body::{Json, HtmlForm};
use hyperdrive::Error;
use hyper::service::{Service, MakeService};
use hyper::Body;
use http::{Request, Response, StatusCode, Method};
use futures::{Future, IntoFuture};
use std::any::Any;
fn send<T: Send + 'static>() {} fn send_val<T: Send + 'static>(_: &T) {} fn sync<T: Sync>() {} fn clone<T: Clone>() {}
fn cs<T: Clone + Send + 'static>() {}
fn service<T: Service<ReqBody = Body, ResBody = Body, Error = BoxedError> + 'static>() where T::Future: Send + 'static {}
fn make<T: MakeService<(), ReqBody = Body, ResBody = Body, Error = BoxedError>>() where
    T::Future: Send, T::Service: Send {}
fn fr<T: FromRequest>() where T::Future: Send + 'static {}
type A = std::cell::Cell<u8>;
pub struct NotSync(A);
#[derive(Clone)] pub struct CtxNS(A);
impl RequestContext for CtxNS {}
impl AsRef<CtxNS> for CtxNS { fn as_ref(&self) -> &CtxNS { self } }
impl AsRef<NoContext> for CtxNS { fn as_ref(&self) -> &NoContext { &NoContext } }
pub struct RNS(A);
impl FromRequest for RNS { type Context = CtxNS; type Future = DefaultFuture<Self, BoxedError>;
    fn from_request_and_body(_: &Arc<http::Request<()>>, _: hyper::Body, _: CtxNS) -> Self::Future { loop {} } }
pub struct FutNS<T>(A, std::marker::PhantomData<fn() -> T>);
impl<T> Future for FutNS<T> { type Item = T; type Error = BoxedError;
    fn poll(&mut self) -> futures::Poll<T, BoxedError> { loop {} } }
#[derive(Clone)] pub struct SvcNU(Arc<std::sync::Mutex<A>>, std::marker::PhantomData<fn() -> &'static mut u8>);
impl Service for SvcNU { type ReqBody = Body; type ResBody = Body; type Error = BoxedError; type Future = FutNS<Response<Body>>;
    fn call(&mut self, _: Request<Body>) -> Self::Future { loop {} } }
'''
ASSERTS = {
    'AsyncService, any handler': '''pub fn f<H, R, F>() where H: Fn(R, Arc<Request<()>>) -> F + Send + Sync + 'static,
        R: FromRequest + 'static, R::Context: Clone + Send + 'static, R::Future: 'static,
        F: Future<Item = Response<Body>, Error = BoxedError> + Send + 'static {
        cs::<AsyncService<H, R, F>>(); service::<AsyncService<H, R, F>>(); make::<AsyncService<H, R, F>>(); }''',
    'AsyncService future, context not Send': '''pub fn f<H, R, F>() where H: Fn(R, Arc<Request<()>>) -> F + Send + Sync + 'static,
        R: FromRequest + 'static, R::Context: Clone + 'static, R::Future: 'static,
        F: Future<Item = Response<Body>, Error = BoxedError> + Send + 'static {
        send::<<AsyncService<H, R, F> as Service>::Future>(); clone::<AsyncService<H, R, F>>(); }''',
    'SyncService, any handler': '''pub fn f<H, R>() where H: Fn(R, Arc<Request<()>>) -> Response<Body> + Send + Sync + 'static,
        R: FromRequest + Send + 'static, R::Context: Clone + Send + 'static, R::Future: 'static {
        cs::<SyncService<H, R>>(); service::<SyncService<H, R>>(); make::<SyncService<H, R>>(); }''',
    'CatchUnwind, any service and handler': '''pub fn f<S, H, R>() where
        S: Service<ReqBody = Body, ResBody = Body, Error = BoxedError> + Clone + Send + Sync + 'static, S::Future: Send + 'static,
        H: Fn(Box<dyn Any + Send>) -> R + Send + Sync + 'static,
        R: IntoFuture<Item = Response<Body>, Error = BoxedError> + 'static, R::Future: Send + 'static {
        cs::<CatchUnwind<S, R, H>>(); service::<CatchUnwind<S, R, H>>();
        cs::<MakeServiceByCloning<CatchUnwind<S, R, H>>>(); make::<MakeServiceByCloning<CatchUnwind<S, R, H>>>(); }''',
    'CatchUnwind, error response by value': '''pub fn f<S>(s: S) where
        S: Service<ReqBody = Body, ResBody = Body, Error = BoxedError> + Clone + Send + Sync + 'static, S::Future: Send + 'static {
        let c = s.catch_unwind(|_| Ok(Response::new(Body::empty()))); send_val(&c); let _ = c.make_service_by_cloning(); }''',
    'CatchUnwind of a service that is not unwind safe': '''pub fn f(s: SvcNU) { let mut c = s.catch_unwind(|_: Box<dyn Any + Send>| FutNS(A::new(1), std::marker::PhantomData));
        send_val(&c.call(loop {})); send_val(&c.clone()); send_val(&c); }''',
    'MakeServiceByCloning of any service': '''pub fn f<S>() where S: Service<ReqBody = Body, ResBody = Body, Error = BoxedError> + Clone + Send + 'static,
        S::Future: Send { cs::<MakeServiceByCloning<S>>(); make::<MakeServiceByCloning<S>>(); }''',
    'MakeServiceByCloning, other bodies and errors': '''pub fn f<S, C>() where S: Service + Clone { fn m<C, T: MakeService<C>>() {} m::<C, MakeServiceByCloning<S>>(); }''',
    'AsyncService with parts that are not Sync': '''pub fn f() { type S = AsyncService<fn(RNS, Arc<Request<()>>) -> FutNS<Response<Body>>, RNS, FutNS<Response<Body>>>;
        cs::<S>(); service::<S>(); make::<S>(); }''',
    'SyncService with parts that are not Sync': '''pub fn f() { type S = SyncService<fn(RNS, Arc<Request<()>>) -> Response<Body>, RNS>;
        cs::<S>(); service::<S>(); make::<S>(); }''',
    'handler closures that are not Clone': '''pub fn f(m: std::sync::Mutex<Vec<u8>>, n: std::sync::Mutex<u8>) {
        let a = AsyncService::new(move |_: F<N0>, _: Arc<Request<()>>| { let _ = &m; Fut::<Response<Body>>(std::marker::PhantomData) });
        send_val(&a.clone()); send_val(&a);
        let b = SyncService::new(move |_: F<N0>, _: Arc<Request<()>>| { let _ = &n; Response::new(Body::empty()) });
        send_val(&b.clone()); send_val(&b); }''',
    'handler closures with context': '''pub fn f(c: CtxNS) {
        let a = AsyncService::with_context(|_: RNS, _| Ok(Response::new(Body::empty())).into_future(), c.clone());
        send_val(&a); let b = SyncService::with_context(|_: RNS, r: Arc<Request<()>>| Response::new(Body::from(format!("{}", r.uri()))), c);
        send_val(&b); }''',
    'a hyper server of AsyncService': '''#[derive(FromRequest)] pub enum R { #[get("/")] A, #[get("/{x}")] B { x: u32 } }
        pub fn f() { let s = hyper::Server::bind(&([127, 0, 0, 1], 0).into()).serve(
            AsyncService::new(|r: R, _| Ok(Response::new(Body::empty())).into_future()));
        send_val(&s); }''',
    'a hyper server of SyncService': '''#[derive(FromRequest)] pub enum R { #[get("/")] A, #[get("/{x}")] B { x: u32 } }
        pub fn f() { let s = hyper::Server::bind(&([127, 0, 0, 1], 0).into()).serve(
            SyncService::new(|r: R, _| Response::new(Body::empty())));
        send_val(&s); }''',
    'a hyper server of CatchUnwind': '''#[derive(FromRequest)] pub enum R { #[get("/")] A, #[get("/{x}")] B { x: u32 } }
        pub fn f() { let s = hyper::Server::bind(&([127, 0, 0, 1], 0).into()).serve(
            AsyncService::new(|r: R, _| Ok(Response::new(Body::empty())).into_future())
                .catch_unwind(|_| Ok(Response::new(Body::empty()))).make_service_by_cloning());
        send_val(&s); }''',
    'Error': '''pub fn f(e: Error) -> BoxedError { send::<Error>(); sync::<Error>(); fn er<T: std::error::Error + std::fmt::Debug +
        std::fmt::Display>() {} er::<Error>(); e.into() }''',
    'Error through ?': '''pub fn f() -> Result<(), BoxedError> { Err(Error::from_status(StatusCode::NOT_FOUND))? }''',
    'Error back from BoxedError': '''pub fn f(b: BoxedError) -> Result<Box<Error>, BoxedError> { b.downcast::<Error>() }''',
    'Error sources': '''pub fn f(a: PE, b: BoxedError, c: String, d: &str) -> [Error; 4] { let s = StatusCode::NOT_FOUND;
        [Error::with_source(s, a), Error::with_source(s, b), Error::with_source(s, c), Error::with_source(s, d)] }''',
    'Error methods': '''pub fn f(v: Vec<&'static Method>) -> [Error; 3] { [Error::wrong_method(v),
        Error::wrong_method(&[&Method::GET][..]), Error::wrong_method(vec![&Method::PUT])] }''',
    'DefaultFuture': '''pub fn f<T: 'static, E: 'static>() { send::<DefaultFuture<T, E>>(); }''',
    'DefaultFuture of values that are not Send': '''pub fn f() { send::<DefaultFuture<std::rc::Rc<u8>, std::rc::Rc<u8>>>(); }''',
    'boxing a future': '''pub fn f<X: Future<Item = u8, Error = BoxedError> + Send + 'static>(x: X) -> DefaultFuture<u8, BoxedError> { Box::new(x) }''',
    'BoxedError': '''pub fn f() { send::<BoxedError>(); sync::<BoxedError>(); fn from<T: std::error::Error + Send + Sync + 'static>(t: T) -> BoxedError { t.into() } }''',
    'blocking': '''pub fn f<G, T, E>(g: G) where G: FnOnce() -> Result<T, E> + Send + 'static, T: Send + 'static, E: Send + 'static {
        send_val(&hyperdrive::blocking(g)); }''',
    'NoContext': '''pub fn f() { send::<NoContext>(); sync::<NoContext>(); clone::<NoContext>(); fn c<T: RequestContext>() {} c::<NoContext>();
        fn co<T: Copy + Default + std::fmt::Debug>() {} co::<NoContext>(); }''',
    'Json and HtmlForm': '''pub fn f<T: serde::de::DeserializeOwned + Send + 'static>() { fn b<T: FromBody<Context = NoContext> + Send + 'static>() where
        <T::Result as IntoFuture>::Future: Send + 'static, T::Result: Send + 'static {} b::<Json<T>>(); b::<HtmlForm<T>>(); }''',
    'guards and bodies returning results or futures': '''pub fn f<T, U>() where T: Guard<Result = Result<T, BoxedError>>,
        U: FromBody<Result = DefaultFuture<U, BoxedError>> {}''',
    'FromRequest of every type is driven with its own future': '''pub fn f<T: FromRequest>(r: Request<Body>, c: T::Context) -> T::Future { T::from_request(r, c) }''',
    'FromRequest future is Send': '''pub fn f<T: FromRequest>() where T::Future: 'static { send::<T::Future>(); }''',
    'synchronous decoding of any type': '''pub fn f<T: FromRequest + Send + 'static>(r: Request<Body>, c: T::Context) -> Result<T, BoxedError>
        where T::Context: Send { T::from_request_sync(r, c) }''',
    # generic route types need no bounds but those of their field roles
    'generic placeholder': '''#[derive(FromRequest)] #[get("/{x}/{y}")] pub struct X<T> { x: T, y: T }
        pub fn f<T>() where T: std::str::FromStr + Send + 'static, T::Err: std::error::Error + Send + Sync + 'static { fr::<X<T>>(); }''',
    'generic query': '''#[derive(FromRequest)] #[get("/")] pub struct X<T> { #[query_params] x: T }
        pub fn f<T>() where T: serde::de::DeserializeOwned + Send + 'static { fr::<X<T>>(); }''',
    'generic guard': '''#[derive(FromRequest)] #[get("/")] pub struct X<T> { x: T }
        pub fn f<T>() where T: Guard<Context = NoContext> + Send + 'static, T::Result: Send + 'static,
        <T::Result as IntoFuture>::Future: Send + 'static { fr::<X<T>>(); }''',
    'generic guard with context': '''#[derive(FromRequest)] #[context(Ctx)] #[get("/")] pub struct X<T> { x: T }
        pub fn f<T>() where T: Guard + Send + 'static, Ctx: AsRef<T::Context>, T::Result: Send + 'static,
        <T::Result as IntoFuture>::Future: Send + 'static { fr::<X<T>>(); }''',
    'generic body': '''#[derive(FromRequest)] pub enum X<T> { #[post("/")] A { #[body] x: T }, #[put("/")] B { #[body] x: T } }
        pub fn f<T>() where T: FromBody<Context = NoContext> + Send + 'static, T::Result: Send + 'static,
        <T::Result as IntoFuture>::Future: Send + 'static { fr::<X<T>>(); }''',
    'generic body with context': '''#[derive(FromRequest)] #[context(Ctx)] pub enum X<T> { #[post("/")] A { #[body] x: T } }
        pub fn f<T>() where T: FromBody + Send + 'static, Ctx: AsRef<T::Context>, T::Result: Send + 'static,
        <T::Result as IntoFuture>::Future: Send + 'static { fr::<X<T>>(); }''',
    'generic forward': '''#[derive(FromRequest)] pub enum X<T> { #[post("/")] A { #[forward] x: T }, B { #[forward] x: T } }
        pub fn f<T>() where T: FromRequest<Context = NoContext> + Send + 'static, T::Future: 'static { fr::<X<T>>(); }''',
    'generic unrouted': '''#[derive(FromRequest)] pub enum X<T> { #[post("/")] A, B { x: T }, C(T) }
        pub fn f<T>() where T: Send + 'static { fr::<X<T>>(); }''',
    'generic Json body': '''#[derive(FromRequest)] pub enum X<T: serde::de::DeserializeOwned + Send + 'static> { #[post("/")] A { #[body] x: Json<T> } }
        pub fn f<T>() where T: serde::de::DeserializeOwned + Send + 'static, Json<T>: FromBody { fr::<X<N>>(); }
        pub struct N; impl<'de> serde::Deserialize<'de> for N { fn deserialize<D: serde::Deserializer<'de>>(_: D) -> Result<Self, D::Error> { loop {} } }''',
    'fields that are not Sync': '''#[derive(FromRequest)] #[get("/{x}")] pub struct X { x: PNS, g: GNS, #[body] b: BNS, #[query_params] q: QNS }
        pub struct PNS(A); impl std::str::FromStr for PNS { type Err = PE; fn from_str(_: &str) -> Result<Self, PE> { loop {} } }
        pub struct QNS(A); impl<'de> serde::Deserialize<'de> for QNS { fn deserialize<D: serde::Deserializer<'de>>(_: D) -> Result<Self, D::Error> { loop {} } }
        pub struct GNS(A); impl Guard for GNS { type Context = NoContext; type Result = FutNS<Self>;
            fn from_request(_: &Arc<http::Request<()>>, _: &NoContext) -> Self::Result { loop {} } }
        pub struct BNS(A); impl FromBody for BNS { type Context = NoContext; type Result = FutNS<Self>;
            fn from_body(_: &Arc<http::Request<()>>, _: hyper::Body, _: &NoContext) -> Self::Result { loop {} } }
        pub fn f() { fr::<X>(); send::<<X as FromRequest>::Future>(); }''',
}
# what must not compile: a library that accepted these would not be sound to move between threads
REFUSED = {
    'an error source that is not Send': '''pub struct E(*const u8); impl std::fmt::Debug for E { fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result { loop {} } }
        impl std::fmt::Display for E { fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result { loop {} } } impl std::error::Error for E {}
        UNSAFE pub fn f(e: E) -> Error { Error::with_source(StatusCode::NOT_FOUND, e) }''',
    'a guard that is not Send': '''pub struct E(*const u8); UNSAFE impl Guard for E { type Context = NoContext; type Result = Fut<Self>;
        fn from_request(_: &Arc<http::Request<()>>, _: &NoContext) -> Self::Result { loop {} } }
        #[derive(FromRequest)] #[get("/")] pub struct X { a: E, b: E }''',
    'an AsyncService handler that is not Sync': '''pub struct E(*const u8); UNSAFE pub fn f(e: E) {
        let _ = AsyncService::new(move |_: F<N0>, _: Arc<Request<()>>| { let _ = &e; Fut::<Response<Body>>(std::marker::PhantomData) }); }''',
    'a SyncService handler that is not Sync': '''pub struct E(*const u8); UNSAFE pub fn f(e: E) {
        let _ = SyncService::new(move |_: F<N0>, _: Arc<Request<()>>| { let _ = &e; Response::new(Body::empty()) }); }''',
    'a panic handler that is not Sync': '''pub struct E(*const u8); UNSAFE pub fn f(e: E, s: SvcNU) {
        let _ = s.catch_unwind(move |_: Box<dyn Any + Send>| { let _ = &e; Fut::<Response<Body>>(std::marker::PhantomData) }); }''',
}


def threads(r, procs=8):
    build.prepare()
    ds = corpus.fixed()
    ds += corpus.random_decls(60 if r.tier == 'quick' else 400, r.seed)
    head = D.PRELUDE + SEND
    rows = [(k, 'pub mod a%d { use super::*; %s }' % (i, s)) for i, (k, s) in enumerate(sorted(ASSERTS.items()))]
    for d in ds:
        rows.append(('future of ' + ' '.join(d.source().split()),
                     '%s\npub fn a_%s() { fr::<%s>(); send::<<%s as FromRequest>::Future>(); '
                     'send::<<AsyncService<fn(%s, Arc<Request<()>>) -> Fut<Response<Body>>, %s, Fut<Response<Body>>> as Service>::Future>(); }'
                     % (d.source(), d.name, d.conc_ty(), d.conc_ty(), d.conc_ty(), d.conc_ty())
                     if not d.ctx else
                     '%s\npub fn a_%s() { fr::<%s>(); send::<<%s as FromRequest>::Future>(); }'
                     % (d.source(), d.name, d.conc_ty(), d.conc_ty())))
    n = judge(r, rows, procs, head)
    ref = []
    for k, s in sorted(REFUSED.items()):
        ref.append((k, s.replace('UNSAFE', ''), s.replace('UNSAFE', 'unsafe impl Send for E {} unsafe impl Sync for E {}')))
    bad = compiler.compile_each([head + b for _, b, _ in ref], procs)
    good = compiler.compile_each([head + g for _, _, g in ref], procs)
    for (k, b, _), eb, eg in zip(ref, bad, good):
        n += 1
        if eg is not None:
            r.open('%s: the twin that is Send and Sync does not compile: %s' % (k, eg[0]))
        elif eb is None:
            r.violation(k, 'is accepted: %s' % ' '.join(b.split()))
    r.coverage = {'programs': n, 'disagreements_checked': n, 'assertions': sorted(ASSERTS), 'refused': sorted(REFUSED),
                  'exhaustive': False, 'samples': [x[1] for x in rows[:6]] + [x[1] for x in rows[-6:]],
                  'explanation': 'rule: the type checker proves every assertion, for generic parameters universally'}
    r.assumptions = ['auto traits are decided by the compiler; unsafe impls in dependencies are trusted']
    return r.finish(n - len(r.undecided), n)


# ---------------------------------------------------------------- C26

CTX_HEAD = '''#![allow(warnings)]
use hyperdrive::{RequestContext, NoContext};
pub mod m { pub struct X(u8); } pub mod n { pub struct X(u8); } pub struct X(u8); pub struct m_X(u8); pub struct Y<T>(T); pub struct Z;
pub mod u { pub struct NoContext(u8); pub trait AsRef<T> { fn as_ref(&self) {} } }
fn is<T: RequestContext + AsRef<T> + AsRef<NoContext>>() {} fn has<T: AsRef<U>, U: ?Sized>() {}
'''


class CtxCase:
    """a context type: text with NAME; instance; fields: (index or None for the whole value, type) of its AsRef impls;
    unmarked: types it must not convert to"""

    def __init__(self, text, inst, refs, unmarked=()):
        self.text, self.inst, self.refs, self.unmarked = text, inst, refs, unmarked


def contexts():
    c = []

    def add(*a):
        c.append(CtxCase(*a))
    add('pub struct NAME;', 'NAME', [])
    add('pub struct NAME {}', 'NAME', [])
    add('pub struct NAME();', 'NAME', [])
    add('pub struct NAME { a: u8 }', 'NAME', [], ['u8'])
    add('pub struct NAME(u8);', 'NAME', [], ['u8'])
    add('pub struct NAME { #[as_ref] a: u8 }', 'NAME', [(0, 'u8')], ['u16'])
    add('pub struct NAME { a: u16, #[as_ref] b: u8 }', 'NAME', [(1, 'u8')], ['u16'])
    add('pub struct NAME { #[as_ref] b: u8, a: u8 }', 'NAME', [(0, 'u8')], [])
    add('pub struct NAME { a: u8, #[as_ref] b: u8 }', 'NAME', [(1, 'u8')], [])
    add('pub struct NAME { a: u8, #[as_ref] b: u8, c: u8 }', 'NAME', [(1, 'u8')], [])
    add('pub struct NAME { #[as_ref] a: u8, #[as_ref] b: u16, c: u32, #[as_ref] d: X, e: m::X }', 'NAME',
        [(0, 'u8'), (1, 'u16'), (3, 'X')], ['u32', 'm::X'])
    add('pub struct NAME(#[as_ref] u8);', 'NAME', [(0, 'u8')], [])
    add('pub struct NAME(u8, #[as_ref] u8);', 'NAME', [(1, 'u8')], [])
    add('pub struct NAME(u8, u16, #[as_ref] u8, X);', 'NAME', [(2, 'u8')], ['u16', 'X'])
    add('pub struct NAME(#[as_ref] X, Y<u8>, #[as_ref] Y<u16>, #[as_ref] u8);', 'NAME',
        [(0, 'X'), (2, 'Y<u16>'), (3, 'u8')], ['Y<u8>'])
    add('pub struct NAME(#[as_ref] m::X, #[as_ref] n::X, #[as_ref] X, #[as_ref] m_X);', 'NAME',
        [(0, 'm::X'), (1, 'n::X'), (2, 'X'), (3, 'm_X')], [])
    add('pub struct NAME { #[as_ref] a: u8, #[as_ref] b: (u8,), #[as_ref] c: [u8; 1], #[as_ref] d: [u8; 2], '
        '#[as_ref] e: (u8, u16), #[as_ref] f: (u16, u8) }', 'NAME',
        [(0, 'u8'), (1, '(u8,)'), (2, '[u8; 1]'), (3, '[u8; 2]'), (4, '(u8, u16)'), (5, '(u16, u8)')], ['u16'])
    add("pub struct NAME { #[as_ref] a: &'static str, #[as_ref] b: String, #[as_ref] c: Vec<u8>, #[as_ref] d: Box<u8>, "
        "#[as_ref] e: Option<u8>, #[as_ref] f: std::sync::Arc<u8> }", 'NAME',
        [(0, "&'static str"), (1, 'String'), (2, 'Vec<u8>'), (3, 'Box<u8>'), (4, 'Option<u8>'),
         (5, 'std::sync::Arc<u8>')], ['u8'])
    add('pub struct NAME { #[as_ref] a: Box<dyn Fn() + Send>, #[as_ref] b: Box<dyn Fn(u8)>, #[as_ref] c: fn() -> u8, '
        '#[as_ref] d: fn(u8) }', 'NAME',
        [(0, 'Box<dyn Fn() + Send>'), (1, 'Box<dyn Fn(u8)>'), (2, 'fn() -> u8'), (3, 'fn(u8)')], [])
    add('pub struct NAME { #[as_ref] r#type: u8, #[as_ref] r#fn: u16, r#match: u32 }', 'NAME',
        [(0, 'u8'), (1, 'u16')], ['u32'])
    add('pub struct NAME<T> { #[as_ref] a: Vec<T>, b: T, #[as_ref] c: u8 }', 'NAME<u16>',
        [(0, 'Vec<u16>'), (2, 'u8')], ['u16'])
    add('pub struct NAME<T, U>(#[as_ref] Y<T>, U, #[as_ref] (T, U));', 'NAME<u8, u16>',
        [(0, 'Y<u8>'), (2, '(u8, u16)')], ['u8', 'u16', 'Y<u16>'])
    add('pub struct NAME<T: Clone>(T, #[as_ref] u8) where T: std::fmt::Debug;', 'NAME<u16>', [(1, 'u8')], ['u16'])
    add('pub struct NAME<T: ?Sized> { #[as_ref] a: Box<T>, #[as_ref] b: u8 }', 'NAME<str>', [(0, 'Box<str>'), (1, 'u8')],
        [])
    add('pub struct NAME<T = u8>(#[as_ref] Vec<T>);', 'NAME<u16>', [(0, 'Vec<u16>')], [])
    add("pub struct NAME<'a>(#[as_ref] &'a u8, &'a u16, #[as_ref] Y<&'a u32>);", "NAME<'static>",
        [(0, "&'static u8"), (2, "Y<&'static u32>")], ["&'static u16"])
    add("pub struct NAME<'a, T>(#[as_ref] &'a [T], T);", "NAME<'static, u8>", [(0, "&'static [u8]")], ['u8'])
    add('pub enum NAME {}', 'NAME', [])
    add('pub enum NAME { A }', 'NAME', [])
    add('pub enum NAME { A, B(u8), C { x: u16 } }', 'NAME', [], ['u8', 'u16'])
    add('pub enum NAME<T> { A(T), B }', 'NAME<u8>', [], ['u8'])
    add('pub struct NAME { #[as_ref] a: u::NoContext }', 'NAME', [(0, 'u::NoContext')], [])
    add('#[allow(clippy::all)] #[doc = "x"] pub struct NAME { #[allow(unused)] #[as_ref] a: u8, /** doc */ b: u16, '
        '#[cfg(all())] #[as_ref] #[doc(hidden)] c: X }', 'NAME', [(0, 'u8'), (2, 'X')], ['u16'])
    add('#[derive(Clone, Debug)] pub struct NAME { #[as_ref] a: u8 }', 'NAME', [(0, 'u8')], [])
    arr = lambda i: '[u8; %d]' % (i + 10)       # (many fields)
    for n in (9, 12, 17, 33):
        marked = [i for i in range(n) if i % 3 or i == n - 1]
        add('pub struct NAME { %s }' % ', '.join('%sf%d: %s' % ('#[as_ref] ' if i in marked else '', i, arr(i)) for i in range(n)),
            'NAME', [(i, arr(i)) for i in marked], [arr(i) for i in range(n) if i not in marked][:3])
        add('pub struct NAME(%s);' % ', '.join('%s%s' % ('#[as_ref] ' if i in marked else '', arr(i)) for i in range(n)),
            'NAME', [(i, arr(i)) for i in marked], [arr(i) for i in range(n) if i not in marked][:3])
    add('pub(crate) struct NAME(pub(crate) u16, #[as_ref] pub u8);', 'NAME', [(1, 'u8')], ['u16'])
    return c


def ctx_bad():
    """(what, bad, good)"""
    out = []
    der = '#[derive(RequestContext)] '
    for a in ('#[as_ref]', '#[as_ref(x)]', '#[as_ref = "x"]', '#[as_ref()]', '#[as_ref(a b)]', '#[as_ref[1]]', '#[as_ref{x}]'):
        for what, t in (('a struct', '%s pub struct NAME { x: u8 }'), ('a tuple struct', '%s pub struct NAME(u8);'),
                        ('a unit struct', '%s pub struct NAME;'), ('an enum', '%s pub enum NAME { A }'),
                        ('a variant', 'pub enum NAME { %s A }'), ('a later variant', 'pub enum NAME { A, B(u8), %s C { x: u8 } }'),
                        ('a variant with fields', 'pub enum NAME { %s A(u8) }'),
                        ('a variant field', 'pub enum NAME { A { %s x: u8 } }'),
                        ('a tuple variant field', 'pub enum NAME { A, B(u16, %s u8) }'),
                        ('a generic enum field', 'pub enum NAME<T> { A(%s Vec<T>), B }')):
            out.append(('%s on %s' % (a, what), der + t % a, der + t % ''))
        if a != '#[as_ref]':
            for t in ('pub struct NAME { %s x: u8 }', 'pub struct NAME(%s u8);', 'pub struct NAME(u16, %s u8);',
                      'pub struct NAME { y: u16, %s x: u8, z: u32 }', 'pub struct NAME<T>(T, %s u8);'):
                out.append(('malformed attribute ' + a, der + t % a, der + t % '#[as_ref]'))
                out.append(('malformed attribute %s beside a right one' % a, der + t % ('#[as_ref] ' + a),
                            der + t % '#[as_ref]'))
                out.append(('malformed attribute %s before a right one' % a, der + t % (a + ' #[as_ref]'),
                            der + t % '#[as_ref]'))
    for t in ('pub struct NAME { %s x: u8 }', 'pub struct NAME(%s u8);', 'pub struct NAME { y: u16, %s x: u8 }',
              'pub struct NAME(#[as_ref] u16, %s u8, u32);', 'pub struct NAME<T>(%s Vec<T>);'):
        out.append(('#[as_ref] twice', der + t % '#[as_ref] #[as_ref]', der + t % '#[as_ref]'))
        out.append(('#[as_ref] three times', der + t % '#[as_ref] #[as_ref] #[as_ref]', der + t % '#[as_ref]'))
        out.append(('#[as_ref] twice, apart', der + t % '#[as_ref] #[allow(unused)] #[as_ref]', der + t % '#[as_ref]'))
    return [(w, b.replace('NAME', 'B%d' % i), g.replace('NAME', 'G%d' % i)) for i, (w, b, g) in enumerate(out)]


def contexts_check(r, procs=8):
    build.prepare()
    cs = contexts()
    n = decided = 0
    rows = []
    for i, c in enumerate(cs):
        nm = 'K%d' % i
        it, inst = '#[derive(RequestContext)] ' + c.text.replace('NAME', nm), c.inst.replace('NAME', nm)
        rows.append((c.text, '%s pub fn is_%d() { is::<%s>(); %s }' %
                     (it, i, inst, ' '.join('has::<%s, %s>();' % (inst, t) for _, t in c.refs))))
    judge(r, rows, procs, CTX_HEAD)
    n += len(rows)
    decided += len(rows)
    # unmarked fields
    ref, tw = [], []
    for i, c in enumerate(cs):
        for t in c.unmarked:
            nm = 'K%d' % i
            it = CTX_HEAD + '#[derive(RequestContext)] ' + c.text.replace('NAME', nm)
            inst = c.inst.replace('NAME', nm)
            ref.append((c, t, it + ' pub fn f() { has::<%s, %s>(); }' % (inst, t)))
            tw.append(it + ' pub fn f() { has::<%s, %s>(); }' % (inst, inst))
    # one crate for the twins of each, as they are cheap
    bad = compiler.compile_each([x for _, _, x in ref], procs)
    good = compiler.compile_each(tw, procs)
    for (c, t, s), b, g in zip(ref, bad, good):
        n += 1
        if g is not None:
            r.open('%s does not compile: %s' % (c.text, g[0]))
            continue
        decided += 1
        if b is None:
            r.violation('#[derive(RequestContext)] ' + c.text, 'converts to %s, which no marked field has' % t)
    # malformed
    mal = ctx_bad()
    gg = compiler.compile_good([(i, x[2]) for i, x in enumerate(mal)], procs, CTX_HEAD)
    ex, other = compiler.expand([x[1] for x in mal], procs, CTX_HEAD.replace('\n', ' ') + '\n')
    left = [i for i, e in enumerate(ex) if e is None]
    full = dict(zip(left, compiler.compile_each([CTX_HEAD + mal[i][1] for i in left], procs)))
    for i, (w, b, g) in enumerate(mal):
        n += 1
        if gg.get(i) is not None:
            r.open('the well-formed twin of "%s" does not compile: %s: %s' % (w, g, gg[i][0]))
            continue
        decided += 1
        if i in full and full[i] is None:
            r.violation(b, 'compiles, although it is malformed: ' + w)
    # results
    roots = []
    src = CTX_HEAD.replace('use hyperdrive', 'use hyperdrive')
    okd = [i for i in range(len(cs)) if not any(v[0].startswith(cs[i].text) for v in r.violations)]
    for i in okd:
        c, nm = cs[i], 'K%d' % i
        inst = c.inst.replace('NAME', nm)
        src += '#[derive(RequestContext)] ' + c.text.replace('NAME', nm) + '\n'
        lst = [(None, inst)] + c.refs + [('no', 'NoContext')]
        for k, (f, t) in enumerate(lst):
            src += "pub fn root_%d_%d<'q>(x: &'q %s) -> &'q %s { <%s as std::convert::AsRef<%s>>::as_ref(x) }\n" % (
                i, k, inst, t, inst, t)
            roots.append((i, k, f, t))
    if roots:
        with build.scratch() as w:
            p = interp.Program(build.dump(src, w))
    for i, k, f, t in roots:
        n += 1
        what = '#[derive(RequestContext)] %s, AsRef<%s>' % (cs[i].text, t)
        I = lib_.mk(p)
        name = '%d_%d' % (i, k)
        a = lib_.argty(p, name, 0)
        ty = p.types[a]['to']
        T = p.types[ty]
        vs = T.get('variants') or []
        if len(vs) == 1 and T.get('path', '').startswith('w::') and T.get('kind', 'struct') != 'enum' and f is not None:
            x = Adt(ty, 0, [Sym('f%d' % j, (), q['t']) for j, q in enumerate(vs[0]['f'])])
        else:
            x = Sym('x', (), ty)
        box = {}

        def go(I):
            c = Cell(x)
            v = lib_.run(I, name, [Ref(c)])
            if f == 'no':
                return ('ok', True)
            if not isinstance(v, Ref):
                return ('value', repr(v))
            if v.c is not c:
                return ('elsewhere', repr(I.snap(v)))
            if f is None:
                return ('ok', v.p == () or I.snap(v) == ('sym', 'x'), repr(v))
            return ('ok', I.snap(v) == ('sym', 'f%d' % f), repr(v))
        try:
            for q in I.explore(go):
                if q.result[0] == 'unsupported':
                    r.open('%s: %s' % (what, q.result[1]))
                    break
                if q.result[0] == 'panic':
                    r.violation(what, 'panics: %s' % (q.result[1],))
                    break
                v = q.result[1] if isinstance(q.result[1], tuple) else q.result
                if v[0] != 'ok' or not v[1]:
                    r.violation(what, 'returns %s instead of %s' % (
                        v[2] if v[0] == 'ok' else v[1], 'the value itself' if f is None else 'field %d' % f))
                    break
            else:
                decided += 1
        except Unsupported as e:
            r.open('%s: %s' % (what, e))
    r.coverage = {'programs': n, 'disagreements_checked': n, 'conversions_interpreted': len(roots),
                  'malformed': len(mal), 'unmarked': len(ref), 'contexts': len(cs), 'exhaustive': False,
                  'samples': [x[1] for x in rows[::5]] + [x[1] for x in mal[::40]],
                  'explanation': 'rule: AsRef impls exist exactly for the type, NoContext and the marked fields; the '
                                 'interpreted impls return a reference into their argument at that field; malformed '
                                 'attributes are refused while a well-formed twin compiles'}
    r.assumptions = ['context types outside the enumerated ones are not covered']
    return r.finish(decided, n)


# ---------------------------------------------------------------- C29

WELL = r'''
all verbs on one variant|pub enum NAME { #[get("/")] #[head("/")] #[post("/")] #[put("/")] #[delete("/")] #[connect("/")] #[options("/")] #[trace("/")] #[patch("/")] A }
asterisk first|pub enum NAME { #[options("*")] A, #[get("/")] B, #[get("/{x}")] C { x: P<N0> } }
asterisk last|pub enum NAME { #[get("/{x...}")] D { x: P<N0> }, #[options("*")] A }
asterisk last, one variant|pub enum NAME { #[get("/")] #[options("*")] A }
asterisk struct|#[options("*")] #[get("/")] #[get("*")] pub struct NAME;
unit struct|#[get("/")] pub struct NAME;
empty struct|#[get("/")] pub struct NAME {}
empty variant|pub enum NAME { #[get("/")] A {}, #[post("/")] B }
unrouted first|pub enum NAME { Z, #[get("/")] A }
unrouted variants of every kind|pub enum NAME { Z, #[get("/")] A, Y(u8), X(u8, String), W { a: u8, b: Vec<u8> }, V(), U {} }
unrouted generic|pub enum NAME<T> { #[get("/")] A, B(T), C { x: Vec<T> } }
unrouted reference|pub enum NAME { #[get("/")] A, B(&'static str), C { x: &'static [u8] } }
many placeholders|#[get("/{a}/{b}/{c}/{d}/{e}/{f}/{g}/{h}/{i}/{j}/{k}/{l}/{m}/{n}")] pub struct NAME { a: u8, b: u8, c: u8, d: u8, e: u8, f: u8, g: u8, h: u8, i: u8, j: u8, k: u8, l: u8, m: u8, n: String }
many guards|#[get("/")] pub struct NAME { a: G<N0>, b: G<N0>, c: G<N1>, d: GR<N0>, e: G<N2>, f: GR<N1>, g: G<N0>, h: G<N3> }
many variants|pub enum NAME { #[get("/0")] V0, #[get("/1")] V1, #[get("/2")] V2, #[get("/3")] V3, #[get("/4")] V4, #[get("/5")] V5, #[get("/6")] V6, #[get("/7")] V7, #[get("/8")] V8, #[get("/9")] V9, #[get("/10/{x}")] VA { x: u8 }, #[get("/11")] VB, #[get("/12")] VC, #[get("/13")] VD, #[get("/14")] VE, #[get("/15")] VF }
underscore names|#[get("/{_a}/{__}/{b_}")] pub struct NAME { _a: u8, __: u8, b_: u8, _g: G<N0> }
names with digits and capitals|#[get("/{a0}/{B}/{cD9}")] pub struct NAME { a0: u8, B: u8, cD9: u8 }
names used by the generated code|#[get("/{request}/{path}/{index}/{method}")] pub struct NAME { request: u8, path: u8, index: u8, method: u8, #[body] body: B<N0>, context: G<N0>, future: G<N1>, captures: G<N2> }
names used by the generated code, query|#[get("/{regex}/{caps}/{variant}")] pub struct NAME { regex: u8, caps: u8, variant: u8, #[query_params] raw_query: Q<N0>, v: G<N0>, e: G<N1>, x: G<N2> }
raw identifiers|#[get("/")] pub struct NAME { r#type: G<N0>, #[body] r#match: B<N0>, #[query_params] r#fn: Q<N0> }
raw identifiers of variants|pub enum NAME { #[get("/")] r#Type, #[get("/a")] r#match }
fallback first|pub enum NAME { Z { #[forward] f: F<N0> }, #[get("/{x}")] A { x: u8 } }
fallback only|pub enum NAME { Z { #[forward] f: F<N0> } }
fallback struct|pub struct NAME { #[forward] f: F<N0> }
fallback with guards|pub enum NAME { #[get("/")] A, Z { g: G<N0>, #[forward] f: F<N0>, h: G<N1> } }
fallback and asterisk|pub enum NAME { #[options("*")] A, Z { #[forward] f: F<N0> } }
fallback to a derived type|pub enum NAME { #[get("/")] A, Z { #[forward] f: Inner } } }|#[derive(FromRequest)] pub enum Inner { #[get("/inner")] A, #[post("/")] B }
body of a derived context|#[context(Ctx)] #[post("/")] pub struct NAME { #[body] b: BC<N0>, g: GP<N0>, h: G<N0> }
context by path|#[context(self::Ctx)] #[get("/")] pub struct NAME { g: GC<N0> }
context by absolute path|#[context(crate::Ctx)] #[get("/")] pub struct NAME { g: GC<N0> }
context by crate path|#[context(::hyperdrive::NoContext)] #[get("/")] pub struct NAME { g: G<N0> }
context by module path|#[context(crate::sub::Alias)] #[get("/")] pub struct NAME { g: GC<N0> }
context after the route|#[get("/")] #[context(Ctx)] pub struct NAME { g: GC<N0> }
generic context|#[context(GenCtx<u8>)] #[get("/")] pub struct NAME { g: G<N0> } }|#[derive(RequestContext)] pub struct GenCtx<T> { x: T }
context with lifetime|#[context(LtCtx<'static>)] #[get("/")] pub struct NAME { g: G<N0> } }|#[derive(RequestContext)] pub struct LtCtx<'a> { x: &'a u8 }
context of a qualified path|#[context(<U as Tr>::C)] #[get("/")] pub struct NAME { g: GC<N0> } }|pub struct U; pub trait Tr { type C; } impl Tr for U { type C = Ctx; }
generic in every role|#[get("/{a}")] pub struct NAME<A, B, C, D> { a: A, #[query_params] b: B, c: C, #[body] d: D }
generic shared by two roles|pub enum NAME<A> { #[get("/{a}")] X { a: A }, #[get("/")] Y { #[query_params] q: A } }
generic in two variants|pub enum NAME<A> { #[get("/{a}")] X { a: A }, #[get("/x/{b}")] Y { b: A } }
generic guards twice|#[get("/")] pub struct NAME<A> { a: A, b: A, c: A }
generic bodies twice|pub enum NAME<A> { #[put("/")] X { #[body] a: A }, #[post("/")] Y { #[body] a: A, g: G<N0> } }
generic with bounds|#[get("/{a}")] pub struct NAME<A: Clone + std::fmt::Debug> where A: std::hash::Hash { a: A }
generic with default|#[get("/{a}")] pub struct NAME<A = u8> { a: A }
generic wrapped|#[get("/")] pub struct NAME<A: 'static> { g: G<A>, h: GR<A>, #[body] b: B<A>, #[query_params] q: Q<A> }
generic forward|pub enum NAME<A> { #[get("/")] X, Y { #[forward] f: A } }
generic phantom|#[get("/")] pub struct NAME<A: 'static> { g: G<A> }
generic names used by the generated code|#[get("/{a}")] pub struct NAME<T, Self_, Variant_> { a: T, g: Self_, #[body] b: Variant_ }
attributes of other tools|#[allow(clippy::all)] #[rustfmt::skip] #[doc = "x"] #[must_use] pub enum NAME { #[allow(clippy::all)] #[doc(hidden)] #[get("/{x}")] #[rustfmt::skip] A { #[allow(clippy::all)] #[doc = "y"] x: u8, #[rustfmt::skip] g: G<N0> }, #[deprecated] B }
attributes of other derives|#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Default)] #[get("/{x}")] pub struct NAME { x: u8, #[query_params] q: () }
attributes of other derives before the routes|#[derive(serde::Deserialize_)] #[get("/")] pub struct NAME;
cfg attributes|pub enum NAME { #[cfg(all())] #[get("/")] A, #[cfg(any())] #[get("/")] B, #[cfg_attr(all(), get("/c"))] C, #[cfg_attr(any(), get("/c"))] D }
non_exhaustive|#[non_exhaustive] pub enum NAME { #[get("/")] #[non_exhaustive] A { g: G<N0> } }
repr|#[repr(u8)] pub enum NAME { #[get("/")] A = 3, #[post("/")] B = 7 }
attributes with unusual syntax|#[allow(clippy::all, unused)] #[get("/")] #[deprecated(since = "1", note = "n")] pub struct NAME { #[doc(alias = "b")] g: G<N0> }
documentation comments|/** doc */ pub enum NAME { /** doc */ #[get("/{x}")] /** doc */ A { /** doc */ x: u8 } }
private type|#[get("/")] struct NAME { g: G<N0> }
visibilities|#[get("/{a}")] pub(crate) struct NAME { pub a: u8, pub(super) g: G<N0>, pub(in crate) h: G<N0> }
literal characters|pub enum NAME { #[get("/a.b")] A, #[get("/a+b")] B, #[get("/(a)")] C, #[get("/[a]")] D, #[get("/a|b")] E, #[get("/^")] F, #[get("/$")] G, #[get("/\\")] H, #[get("/\"")] I, #[get("/a*")] J, #[get("/a-z")] K, #[get("/~")] L, #[get("/&")] M, #[get("/%20")] O, #[get("/:a")] Q, #[get("/a{b}")] R, #[get("/@")] S, #[get("/a=b;c,d!e'f")] T }
raw strings|pub enum NAME { #[get(r"/a")] A, #[get(r#"/b"#)] B, #[get("\x2fc")] C }
long path|#[get("/a/very/long/path/with/many/segments/and/some/more/of/them/until/it/is/really/quite/long")] pub struct NAME;
slashes|pub enum NAME { #[get("/")] A, #[get("//")] B, #[get("///")] C, #[get("/a/")] D, #[get("/a//b")] E, #[get("/a")] F }
rest beside literals|pub enum NAME { #[get("/a")] A, #[get("/a/{x...}")] B { x: P<N0> }, #[get("/b/{x}")] C { x: P<N0> }, #[get("/b/{x}/{y...}")] D { x: u8, y: P<N0> } }
same pattern with other names|pub enum NAME { #[get("/{a}")] A { a: u8 }, #[put("/{b}")] B { b: P<N0> }, #[head("/{c}")] C { c: P<N1> } }
explicit head|pub enum NAME { #[get("/")] A, #[head("/")] B, #[head("/c")] C, #[get("/c")] D }
head only|#[head("/")] pub struct NAME;
standard types|#[get("/{a}/{b}/{c}/{d}/{e...}")] pub struct NAME { a: bool, b: char, c: std::net::IpAddr, d: i128, e: std::path::PathBuf_, #[query_params] q: std::collections::HashMap<String, String> }
json and form|pub enum NAME { #[post("/")] A { #[body] b: hyperdrive::body::Json<Vec<u8>> }, #[put("/")] B { #[body] b: hyperdrive::body::HtmlForm<Vec<(String, u8)>> } }
const and static next to it|#[get("/{x}")] pub struct NAME { x: u8 } } |pub const X: u8 = 1; pub static Y: u8 = 2;
two derived types in one module|#[get("/")] pub struct NAME; } |#[derive(FromRequest)] #[get("/")] pub struct Other; #[derive(FromRequest)] #[get("/{x}")] pub struct Third { x: u8 }
request context and routes|#[context(Both)] #[get("/")] pub struct NAME { g: GC<N0>, h: GP<N0>, i: G<N0> } }|#[derive(RequestContext)] pub struct Both { #[as_ref] a: Ctx, #[as_ref] b: Part }
forward with a route and a placeholder|#[get("/{x}/{y...}")] pub struct NAME { x: u8, #[forward] f: F<N0>, y: P<N0>, #[query_params] q: Q<N0>, g: G<N0> }
body before placeholders|#[post("/{x}")] pub struct NAME { #[body] b: B<N0>, #[query_params] q: Q<N0>, g: G<N0>, x: u8 }
boxed field types|#[get("/")] pub struct NAME { #[body] b: BoxBody } }|pub struct BoxBody(Box<dyn Fn() + Send>); impl FromBody for BoxBody { type Context = NoContext; type Result = DefaultFuture<Self, BoxedError>; fn from_body(_: &Arc<http::Request<()>>, _: hyper::Body, _: &NoContext) -> Self::Result { loop {} } }
'''


def large():
    """declarations that are large in one respect"""
    seg = lambda n, f: '/'.join(f % k for k in range(n))
    for n in (17, 33, 40, 65, 130):
        yield '%d segments|#[get("/%s")] pub struct NAME;' % (n, seg(n, 's%d'))
    yield '300 characters|#[get("/%s")] pub struct NAME;' % ('x' * 300)
    yield '5000 characters|#[get("/%s/{x}")] pub struct NAME { x: u8 }' % ('y' * 5000)
    yield '40 placeholders|#[get("/%s")] pub struct NAME { %s }' % (seg(40, '{p%d}'), ', '.join('p%d: u8' % k for k in range(40)))
    yield '40 guards|#[get("/")] pub struct NAME { %s }' % ', '.join('g%d: G<N0>' % k for k in range(40))
    yield '30 routes of a variant|pub enum NAME { %s V { x: u8 } }' % ' '.join('#[get("/r%d/{x}")]' % k for k in range(30))
    yield '150 variants|pub enum NAME { %s }' % ', '.join('#[%s("/v%d")] V%d' % (D.VERBS[k % 9], k, k) for k in range(150))
    yield 'a long name|#[get("/{%s}")] pub struct NAME { %s: u8 }' % ('f' * 300, 'f' * 300)


def well_formed():
    out = []
    for l in WELL.strip().splitlines() + list(large()):
        what, _, rest = l.partition('|')
        if 'Deserialize_' in rest:
            rest = rest.replace('#[derive(serde::Deserialize_)] ', '#[derive(Debug, Clone)] ')
        rest = rest.replace('std::path::PathBuf_', 'String')
        text, sep, extra = rest.partition(' }|')
        if not sep:
            text, sep, extra = rest.partition(' } |')
        if not sep:
            extra = ''
        elif text.count('{') > text.count('}'):
            text += ' }'
        i = len(out)
        out.append((what, 'pub mod w%d { use super::*; %s #[derive(FromRequest)] %s }' %
                    (i, extra, text.replace('NAME', 'W%d' % i))))
    return out


def accepts(r, procs=8):
    build.prepare()
    rows = well_formed()
    ds = corpus.fixed() + corpus.random_decls(250 if r.tier == 'quick' else 2500, r.seed)
    for d in ds:
        rows.append(('declaration ' + d.name, d.source() + '\n' + d.root().replace('pub fn', 'pub fn')))
    cs = contexts()
    for i, c in enumerate(cs):
        rows.append(('context ' + c.text, 'pub mod c%d { use super::*; %s #[derive(RequestContext)] %s }' % (
            i, CTX_HEAD.split('\n', 2)[2].replace('pub struct m_X', '#[allow(non_camel_case_types)] pub struct m_X').replace('fn is<T: RequestContext + AsRef<T> + AsRef<NoContext>>() {} '
                                                  'fn has<T: AsRef<U>, U: ?Sized>() {}', ''), c.text.replace('NAME', 'K'))))
    big = {l.partition('|')[0] for l in large()}
    for w, src, e in [(w, src, e) for (w, src), e in zip(
            [x for x in rows if x[0] in big],
            compiler.compile_each([D.PRELUDE + x[1] for x in rows if x[0] in big], procs))]:
        if e is not None:
            r.violation(w + ': ' + ' '.join(src.split())[:1500], 'does not compile: %s' % '; '.join(e[:3]))
            if e == compiler.UNFINISHED:
                r.coverage = {'programs': 1, 'explanation': 'stopped where the compiler does not finish'}
                return r.finish(1, 1)
    n = len([x for x in rows if x[0] in big]) + judge(r, [x for x in rows if x[0] not in big], procs, D.PRELUDE)
    r.coverage = {'programs': n, 'disagreements_checked': n, 'hand_written': len(well_formed()), 'corpus': len(ds),
                  'contexts': len(cs), 'exhaustive': False, 'samples': [x[1] for x in rows[:60:5]],
                  'explanation': 'rule: the derive accepts every well-formed declaration and what it expands to '
                                 'type-checks'}
    r.assumptions = ['declarations outside the corpus are not covered']
    return r.finish(n, n)


# ---------------------------------------------------------------- C40

# beyond those on by default; none of them is about the shape of the user's own types
LINTS = ('nonstandard_style unused rust_2018_idioms rust_2018_compatibility let_underscore unreachable_pub unsafe_code '
         'unused_results unused_lifetimes trivial_casts trivial_numeric_casts unused_import_braces '
         'absolute_paths_not_starting_with_crate non_ascii_idents explicit_outlives_requirements unit_bindings '
         'meta_variable_misuse ambiguous_negative_literals redundant_lifetimes').split()
STRICT = 'unused_qualifications single_use_lifetimes missing_docs'.split()
ODD = r'''
documented items|/** doc */ pub mod m { #![warn(missing_docs, unused_qualifications, single_use_lifetimes)] use super::{G, N0, Q, B}; /** d */ #[derive(hyperdrive::FromRequest)] pub enum R { /** d */ #[get("/{x}")] #[post("/{x}")] A { /** d */ x: u8, /** d */ g: G<N0> }, /** d */ #[put("/")] C { /** d */ #[body] b: B<N0>, /** d */ #[query_params] q: Q<N0> } } }
documented generic items|/** doc */ pub mod m { #![warn(missing_docs, unused_qualifications, single_use_lifetimes)] /** d */ #[derive(hyperdrive::FromRequest)] #[get("/{a}")] pub struct R<A, B, C, D> { /** d */ pub a: A, /** d */ #[query_params] pub b: B, /** d */ pub c: C, /** d */ #[body] pub d: D } }
documented context|/** doc */ pub mod m { #![warn(missing_docs, unused_qualifications, single_use_lifetimes)] /** d */ #[derive(hyperdrive::RequestContext)] pub struct C { /** d */ #[as_ref] pub a: u8, /** d */ #[as_ref] pub b: String, /** d */ pub c: u16 } }
documented tuple context|/** doc */ pub mod m { #![warn(missing_docs, unused_qualifications, single_use_lifetimes)] /** d */ #[derive(hyperdrive::RequestContext)] pub struct C<T>(/** d */ #[as_ref] pub Vec<T>, /** d */ #[as_ref] pub String, /** d */ pub T); }
documented fallback|/** doc */ pub mod m { #![warn(missing_docs, unused_qualifications, single_use_lifetimes)] use super::{F, N0}; /** d */ #[derive(hyperdrive::FromRequest)] pub enum R { /** d */ #[get("/")] A, /** d */ Z { /** d */ #[forward] f: F<N0> } } }
unusual names of types and variants|#[allow(non_camel_case_types)] #[derive(FromRequest)] pub enum odd_type { #[get("/a")] odd_one, #[get("/b/{x}")] odd_two { x: u8 }, odd_three { #[forward] f: F<N0> } }
unusual names of fields|#[allow(non_snake_case)] #[derive(FromRequest)] pub enum R { #[get("/a/{oddOne}")] A { oddOne: u8, oddTwo: G<N0>, oddThree: GR<N0> }, #[post("/{ODD}")] B { ODD: u8, #[body] Body_: B<N0>, #[query_params] qQ: Q<N0> }, C { oddF: G<N0>, #[forward] fF: F<N0> } }
unusual names of structs|#[allow(non_camel_case_types)] #[derive(FromRequest)] #[get("/")] pub struct odd_struct;
unusual names of generics|#[allow(non_camel_case_types)] #[derive(FromRequest)] #[get("/{a}")] pub struct R<a_, b_> { a: a_, g: b_ }
unusual names of context generics|#[allow(nonstandard_style)] #[derive(RequestContext)] pub struct ctx<'A, t_: 'static, const n: usize> { #[as_ref] x: Vec<t_>, y: &'A [u8; n] }
unusual names of lifetimes|#[allow(non_snake_case)] #[derive(RequestContext)] pub struct K<'A>(#[as_ref] u8, &'A u8); #[allow(non_snake_case)] #[derive(FromRequest)] #[context(Ctx)] pub enum R { #[get("/{XY}")] A { XY: u8 } }
unusual names of contexts|#[allow(nonstandard_style)] #[derive(RequestContext)] pub struct odd_ctx { #[as_ref] oddField: u8, #[as_ref] ODD: u16 }
deprecated enum|#[deprecated] #[derive(FromRequest)] pub enum R { #[get("/{x}")] A { x: u8 }, #[post("/")] B { g: G<N0> }, C { #[forward] f: F<N0> } }
deprecated variants|#[derive(FromRequest)] pub enum R { #[deprecated] #[get("/{x}")] A { x: u8 }, #[deprecated] #[post("/")] B { g: G<N0> }, #[deprecated] C { #[forward] f: F<N0> } }
deprecated struct|#[deprecated] #[derive(FromRequest)] #[get("/{x}")] pub struct R { x: u8 }
deprecated context|#[deprecated] #[derive(RequestContext)] pub struct R { #[as_ref] x: u8, y: u16 }
deprecated fields|#[derive(FromRequest)] #[get("/{x}")] pub struct R { #[deprecated] x: u8, #[deprecated] g: G<N0> } #[derive(RequestContext)] pub struct C { #[deprecated] #[as_ref] x: u8 }
infallible placeholder|#[derive(FromRequest)] pub enum R { #[get("/{x}")] A { x: String }, #[get("/a/{x}/{y...}")] B { x: u8, y: String } }
infallible placeholders only|#[derive(FromRequest)] #[get("/{x}/{y}")] pub struct R { x: String, y: String }
infallible placeholders, several methods|#[derive(FromRequest)] pub enum R { #[get("/{x}")] A { x: String }, #[post("/{x}")] B { x: u8 }, #[put("/{x}")] C { x: String, #[body] b: B<N0> } }
custom context|#[derive(FromRequest)] #[context(Ctx)] #[get("/")] pub struct R { g: GC<N0> }
custom context, enum|#[derive(FromRequest)] #[context(Ctx)] pub enum R { #[get("/")] A { g: GC<N0> }, B { #[forward] f: FC<N0> } }
reference context|#[derive(FromRequest)] #[context(LtCtx<'static>)] #[get("/")] pub struct R; #[derive(RequestContext)] pub struct LtCtx<'a> { x: &'a u8 }
one route|#[derive(FromRequest)] #[get("/")] pub struct R;
one route with everything|#[derive(FromRequest)] #[post("/{x}/{y...}")] pub struct R { x: String, y: u8, g: GR<N0>, #[query_params] q: Q<N0>, #[body] b: BR<N0> }
only a fallback|#[derive(FromRequest)] pub struct R { #[forward] f: F<N0> }
must_use types|#[must_use] #[derive(FromRequest)] #[get("/{x}")] pub struct R { x: Must, g: MustG } #[must_use] pub struct Must; impl std::str::FromStr for Must { type Err = Must; fn from_str(_: &str) -> Result<Self, Must> { loop {} } } impl std::fmt::Display for Must { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { loop {} } } impl std::fmt::Debug for Must { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { loop {} } } impl std::error::Error for Must {} #[must_use] pub struct MustG; impl Guard for MustG { type Context = NoContext; type Result = Result<Self, BoxedError>; fn from_request(_: &Arc<http::Request<()>>, _: &NoContext) -> Self::Result { loop {} } }
'''


def _warnings(job):
    """warnings per line of a crate that allows nothing, or None and its errors"""
    src, edition = job
    import json
    with build.scratch() as w:
        f = w + '/c.rs'
        with open(f, 'w') as h:
            h.write(src)
        a = build.rustc_flags(w + '/libc.rmeta')
        a.remove('-Awarnings')
        a[a.index('--edition') + 1] = edition
        try:
            r = build.run(['rustc', '+nightly', f, '--error-format=json'] + a + ['-W' + l for l in LINTS] +
                          ['-Adead_code', '-Aunused_imports'], timeout=150)
        except subprocess.TimeoutExpired:
            return [], ['the compiler does not finish']
    out, err = [], []
    for l in r.stderr.splitlines():
        if not l.startswith('{'):
            continue
        j = json.loads(l)
        if j['level'] == 'error':
            err.append(j['message'])
        elif j['level'] == 'warning' and j.get('spans'):
            s = ([s for s in j['spans'] if s['is_primary']] or j['spans'])[0]
            while s.get('expansion') and not s['file_name'].endswith('c.rs'):
                s = s['expansion']['span']
            out.append((s['line_start'], (j.get('code') or {}).get('code'), j['message']))
    return out, (err or ['status %d' % r.returncode]) if r.returncode else None


def quiet(r, procs=8):
    build.prepare()
    rows = []

    def add(what, text):
        rows.append((what, ' '.join(text.split('\n')).strip()))
    for l in ODD.strip().splitlines():
        what, _, text = l.partition('|')
        add(what, 'pub mod o%d { use super::*; %s }' % (len(rows), text))
    for what, text in well_formed():
        add(what, text.replace('#[derive(FromRequest)]', '#[allow(nonstandard_style, deprecated)] #[derive(FromRequest)]'))
    ds = corpus.fixed() + corpus.random_decls(150 if r.tier == 'quick' else 2000, r.seed)
    for d in ds:
        add('declaration ' + d.name, d.source().replace('#[derive(FromRequest)]',
                                                        '#[allow(nonstandard_style)] #[derive(FromRequest)]'))
    for i, c in enumerate(contexts()):
        add('context ' + c.text, 'pub mod c%d { use super::*; %s #[allow(nonstandard_style)] #[derive(RequestContext)] %s }' % (
            i, CTX_HEAD.split('\n', 2)[2].replace('pub struct m_X', '#[allow(non_camel_case_types)] pub struct m_X').replace('fn is<T: RequestContext + AsRef<T> + AsRef<NoContext>>() {} '
                                                  'fn has<T: AsRef<U>, U: ?Sized>() {}', ''), c.text.replace('NAME', 'K')))
    head = D.PRELUDE.replace('#![allow(dead_code, non_camel_case_types)]', '#![allow()]')
    n0 = head.count('\n')
    # names of types are shared between rows, so the rows stay in one order
    sh = compiler.shard(rows, procs)
    n = decided = 0
    found = set()
    done = []
    for _ in range(9):
        # a shard that does not compile is split, so that one bad declaration does not hide the others
        split = []
        for part, (ws, err) in zip(sh, compiler.pmap(_warnings, [(head + '\n'.join(t for _, t in p), '2018') for p in sh], procs)):
            if err and len(part) > 1 and err != ['the compiler does not finish']:
                split += [part[:len(part) // 2], part[len(part) // 2:]]
            else:
                done.append((part, ws, err))
        sh = split[:16]
        done += [(p, [], ['not analysed alone']) for p in split[16:]]
        if not sh:
            break
    done += [(p, [], ['not analysed alone']) for p in sh]
    for part, ws, err in done:
        n += len(part)
        if err:
            r.open('witnesses do not compile (see C29): ' + '; '.join(err[:2]))
            continue
        decided += len(part)
        for line, code, msg in ws:
            i = line - n0 - 1
            if 0 <= i < len(part) and (part[i][0], code) not in found:
                if code == 'non_snake_case' and msg.startswith('structure field'):
                    continue
                found.add((part[i][0], code))
                r.violation('%s: %s' % (part[i][0], part[i][1][:400]), 'deriving causes a warning (%s): %s' % (code, msg))
    r.coverage = {'programs': n, 'disagreements_checked': n, 'lints': LINTS + STRICT, 'exhaustive': False,
                  'hand_written': len(ODD.strip().splitlines()), 'corpus': len(ds),
                  'samples': [x[1][:300] for x in rows[:30:3]],
                  'explanation': 'rule: the compiler has no warning for programs whose own text deserves none, with its '
                                 'default lints and the listed groups'}
    r.assumptions = ['the lints of the installed compiler; declarations outside the corpus are not covered']
    return r.finish(decided, n)
