"""Route declarations: the model from which witness crates and expected behaviour are both derived."""
import re

VERBS = ['get', 'head', 'post', 'put', 'delete', 'connect', 'options', 'trace', 'patch']

PRELUDE = r'''
#![allow(dead_code, non_camel_case_types)]
use hyperdrive::{FromRequest, Guard, FromBody, RequestContext, BoxedError, NoContext, DefaultFuture};
use hyperdrive::{http, hyper, futures, serde};
use std::sync::Arc;
pub struct N0; pub struct N1; pub struct N2; pub struct N3; pub struct N4; pub struct N5; pub struct N6;
pub struct N7; pub struct N8; pub struct N9;
pub struct Fut<T>(std::marker::PhantomData<fn() -> T>);
impl<T> futures::Future for Fut<T> { type Item = T; type Error = BoxedError;
    fn poll(&mut self) -> futures::Poll<T, BoxedError> { loop {} } }
#[derive(Debug)] pub struct PE;
impl std::fmt::Display for PE { fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result { loop {} } }
impl std::error::Error for PE {}
pub struct P<N>(std::marker::PhantomData<fn() -> N>);
impl<N: 'static> std::str::FromStr for P<N> { type Err = PE; fn from_str(_: &str) -> Result<Self, PE> { loop {} } }
pub struct Q<N>(std::marker::PhantomData<fn() -> N>);
impl<'de, N: 'static> serde::Deserialize<'de> for Q<N> {
    fn deserialize<D: serde::Deserializer<'de>>(_: D) -> Result<Self, D::Error> { loop {} } }
#[derive(RequestContext)]
pub struct Ctx { other: u8, #[as_ref] part: Part }
#[derive(RequestContext)]
pub struct Part { data: u8 }
pub mod sub { pub type Alias = super::Ctx; }
pub mod deep { pub mod er { pub use crate::Ctx as Shadow; pub use super::super::Ctx; pub type Al<T> = (crate::Ctx, T); pub type Gen<T> = <T as crate::Same>::Is; } }
pub trait Same { type Is; } impl<T> Same for T { type Is = T; }
#[derive(RequestContext)] pub struct Shadow { other: u8, #[as_ref] part: Part, #[as_ref] ctx: Ctx }
#[derive(RequestContext)] pub struct Gen { other: u8, #[as_ref] part: Part, #[as_ref] ctx: Ctx }
macro_rules! fetch { ($g:ident, $b:ident, $c:ty, $r:ty) => {
    pub struct $g<N>(std::marker::PhantomData<fn() -> N>);
    impl<N: 'static> Guard for $g<N> { type Context = $c; type Result = $r;
        fn from_request(_: &Arc<http::Request<()>>, _: &$c) -> $r { loop {} } }
    pub struct $b<N>(std::marker::PhantomData<fn() -> N>);
    impl<N: 'static> FromBody for $b<N> { type Context = $c; type Result = $r;
        fn from_body(_: &Arc<http::Request<()>>, _: hyper::Body, _: &$c) -> $r { loop {} } }
} }
fetch!(G, B, NoContext, Fut<Self>);
fetch!(GC, BC, Ctx, Fut<Self>);
fetch!(GP, BP, Part, Fut<Self>);
fetch!(GR, BR, NoContext, Result<Self, BoxedError>);
macro_rules! forward { ($f:ident, $c:ty) => {
    pub struct $f<N>(std::marker::PhantomData<fn() -> N>);
    impl<N: 'static> FromRequest for $f<N> { type Context = $c; type Future = DefaultFuture<Self, BoxedError>;
        fn from_request_and_body(_: &Arc<http::Request<()>>, _: hyper::Body, _: $c) -> Self::Future { loop {} } }
} }
forward!(F, NoContext);
forward!(FC, Ctx);
'''

CONTEXT = {'G': 'no', 'B': 'no', 'GR': 'no', 'BR': 'no', 'F': 'no', 'GC': 'ctx', 'BC': 'ctx', 'FC': 'ctx',
           'GP': 'part', 'BP': 'part'}


def rust_ty(t):
    m = re.match(r'^([A-Z]+)(\d+)$', t)
    return '%s<N%s>' % m.groups() if m else t


def rust_path(t):
    """as the compiler prints it"""
    m = re.match(r'^([A-Z]+)(\d+)$', t)
    return 'w::%s<w::N%s>' % m.groups() if m else t


def family(t):
    return re.match(r'^[A-Z]+', t).group(0)


class Field:
    def __init__(self, name, ty, role):
        self.name, self.ty, self.role = name, ty, role


class Variant:
    def __init__(self, name, routes, fields, braces=False):
        self.name, self.routes, self.fields, self.braces = name, routes, fields, braces


ROLE = {'P': 'path', 'Q': 'query', 'B': 'body', 'F': 'forward', 'G': 'guard'}


class Decl:
    """text form:  one variant per line:  Name: get /path; post /path | x:P0 g:G1 q:Q0"""

    def __init__(self, name, text, struct=False, ctx=None, generics=()):
        self.name = name
        self.struct = struct
        self.ctx = ctx              # None, or the path given in #[context(..)]
        self.generics = generics    # pairs (parameter, concrete type)
        self.variants = []
        for l in text.strip().splitlines():
            l = l.strip()
            if not l:
                continue
            head, _, fl = (l + ' ').partition(' | ')
            vn, _, rt = head.partition(':')
            routes = []
            for r in rt.split(';'):
                if r.strip():
                    me, _, pa = r.strip().partition(' ')
                    routes.append((me, pa))
            fields = []
            conc = dict(generics)
            names = set(p for _, pa in routes for _, p in placeholders(pa))
            for f in fl.replace('{}', '').split():
                fn, ft = f.split(':')
                c = conc.get(ft, ft)
                role = 'path' if fn.replace('r#', '') in names else ROLE[c[0]]
                if not routes and 'F' not in [conc.get(x.split(':')[1], x.split(':')[1])[0] for x in fl.replace('{}', '').split()]:
                    role = 'ignored'
                fields.append(Field(fn, ft, role))
            self.variants.append(Variant(vn.strip(), routes, fields, '{}' in fl))

    def conc(self, ty):
        return dict(self.generics).get(ty, ty)

    # ------------------------------------------------------------ source
    def source(self):
        o = ['#[derive(FromRequest)]']
        if self.ctx:
            o.append('#[context(%s)]' % self.ctx)
        g = '<%s>' % ', '.join(p for p, _ in self.generics) if self.generics else ''

        def routes(v):
            return ' '.join('#[%s("%s")]' % (m, p.replace('\\', '\\\\').replace('"', '\\"')) for m, p in v.routes)

        def fields(v):
            x = []
            for f in v.fields:
                a = {'query': '#[query_params] ', 'body': '#[body] ', 'forward': '#[forward] '}.get(f.role, '')
                x.append('%s%s: %s' % (a, f.name, rust_ty(f.ty)))
            return ', '.join(x)
        if self.struct:
            v = self.variants[0]
            o.append(routes(v))
            o.append('pub struct %s%s { %s }' % (self.name, g, fields(v).replace(', ', ', pub ').replace('#[', '#[')
                                                 if False else fields(v)))
        else:
            o.append('pub enum %s%s {' % (self.name, g))
            for v in self.variants:
                b = ' { %s }' % fields(v) if v.fields or v.braces else ''
                o.append('  %s %s%s,' % (routes(v), v.name, b))
            o.append('}')
        return '\n'.join(o)

    def context_ty(self):
        return 'w::Ctx' if self.ctx else 'hyperdrive::NoContext'

    def conc_ty(self):
        return self.name + ('<%s>' % ', '.join(rust_ty(t) for _, t in self.generics) if self.generics else '')

    def root(self):
        t = self.conc_ty()
        return ('pub fn root_{n}(r: &Arc<http::Request<()>>, b: hyper::Body, c: <{t} as FromRequest>::Context) -> <{t} as FromRequest>::Future '
                '{{ <{t} as FromRequest>::from_request_and_body(r, b, c) }}').format(n=self.name, t=t)

    # ------------------------------------------------------------ meaning
    def groups(self):
        """patterns with the routes declared for each: [(pattern, [(METHOD, variant, segment terms)])]"""
        gs = {}
        order = []
        for v in self.variants:
            for m, p in v.routes:
                k = shape(p)
                if k not in gs:
                    gs[k] = []
                    order.append(k)
                gs[k].append((m.upper(), v, captures(p, v)))
        for k in order:
            ms = [m for m, _, _ in gs[k]]
            if 'GET' in ms and 'HEAD' not in ms:
                g = [x for x in gs[k] if x[0] == 'GET'][0]
                gs[k].append(('HEAD',) + g[1:])
        return [(k, gs[k]) for k in order]

    def fallback(self):
        for v in self.variants:
            if not v.routes and any(f.role == 'forward' for f in v.fields):
                return v
        return None


def segments(p):
    """of a path pattern: ('lit', text), ('seg', name), ('rest', name); None for `*`"""
    if p == '*':
        return None
    out = []
    for s in p.split('/')[1:]:
        if s.startswith('{') and s.endswith('...}'):
            out.append(('rest', s[1:-4]))
        elif s.startswith('{') and s.endswith('}') and len(s) > 1:
            out.append(('seg', s[1:-1]))
        else:
            out.append(('lit', s))
    return out


def placeholders(p):
    return [s for s in (segments(p) or []) if s[0] != 'lit']


def quote(t):
    return ''.join('\\' + c if c in '\\.+*?()|[]{}^$' else c for c in t)


def shape(p):
    """the pattern as a regular expression (what it means, not how it is implemented)"""
    ss = segments(p)
    if ss is None:
        return r'^\*$'
    return '^' + ''.join('/' + (quote(t) if k == 'lit' else '([^/]+)' if k == 'seg' else '(.*)')
                         for k, t in ss) + '$'


def captures(p, v):
    """for each placeholder: (field, provenance of its text)"""
    out = []
    for i, (k, t) in enumerate(segments(p) or []):
        if k != 'lit':
            f = [x for x in v.fields if x.name.replace('r#', '') == t][0]
            out.append((f, ('cap', k, i)))
    return out


def corpus_source(decls):
    return PRELUDE + '\n' + '\n'.join(d.source() + '\n' + d.root() for d in decls)
