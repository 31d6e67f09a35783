"""Transfer functions of the library functions the analysed code calls."""
import rx as R
from values import *  # noqa: F401,F403
from values import UNINIT, UNIT

STOP = object()
MODELS = {}
LIBCRATES = None


def m(*names):
    def d(f):
        for n in names:
            assert n not in MODELS, n
            MODELS[n] = f
        return f
    return d


def last2(p):
    d = 0
    cut = []
    i = 0
    while i < len(p):
        ch = p[i]
        if ch == '<':
            d += 1
        elif ch == '>' and p[i - 1] != '-':
            d -= 1
        elif d == 0 and p.startswith('::', i):
            cut.append(i)
            i += 1
        i += 1
    if len(cut) < 2:
        return p
    return p[cut[-2] + 2:]


def dispatch(I, c):
    local = c.crate in I.own_crates
    key = c.tk or last2(c.np)
    f = MODELS.get(key)
    if f is None and not c.tk and c.crate in ('core', 'alloc', 'std') and \
            key.split('::')[-1] in ('downcast', 'downcast_ref', 'downcast_mut', 'is') and 'dyn' in key:
        f = downcast_any
    if f is None:
        return NotImplemented
    if local and c.inst and c.inst['body'] and not key.startswith(('FnOnce::', 'FnMut::', 'Fn::')):
        # the witness crate's stand-ins for futures of the user are opaque
        # and so are its types' own Deserialize
        if not (c.crate == 'w' and key in ('Future::poll', 'Deserialize::deserialize') and
                isinstance(I.res(I.strip(c.args[0])), Sym)):
            return NotImplemented
    return f(I, c)


# ---------------------------------------------------------------- helpers

def tp(I, t):
    return I.p.tpath(t)


def deep_clone(I, v):
    v = I.res(v)
    if isinstance(v, Ptr):
        if v.k == 'Box':
            return Ptr('Box', Cell(deep_clone(I, v.c.v)), v.ty)
        return v
    if isinstance(v, Adt):
        return Adt(v.ty, v.var, tuple(deep_clone(I, x) for x in v.f))
    if isinstance(v, Tup):
        return Tup(tuple(deep_clone(I, x) for x in v.f))
    if isinstance(v, Arr):
        return Arr(tuple(deep_clone(I, x) for x in v.f))
    if isinstance(v, Clo):
        return Clo(v.ty, tuple(deep_clone(I, x) for x in v.f))
    if isinstance(v, Obj) and v.k in ('Vec', 'String'):
        return Obj(v.k, *[deep_clone(I, x) for x in v.f])
    return v


def seqloc(I, v):
    """the place of the elements behind a reference to a slice, array, Vec, Box<[T]>, Cow..."""
    v = I.res(v)
    if isinstance(v, (Ref, Ptr)) or isinstance(v, Sym):
        c, p = I.deref(v)
    else:
        c, p = Cell(v), ()
    while True:
        x = I.read(c, p)
        if isinstance(x, Obj) and x.k in ('Vec', 'String'):
            p = p + (0,)
        elif isinstance(x, (Ref, Ptr)):
            c, p = I.deref(x)
        elif isinstance(x, Adt) and tp(I, x.ty) == 'alloc::borrow::Cow':
            p = p + (0,)
        else:
            return c, p


def elems(I, v):
    c, p = seqloc(I, v)
    x = I.read(c, p)
    if isinstance(x, Arr):
        return c, p, x.f
    raise Unsupported('elements of %r' % (x,))


def vec(items):
    return Obj('Vec', Arr(tuple(items)))


def string(v):
    return Obj('String', v)


def call(I, f, *args, **kw):
    return I.call_value(f, list(args), kw.get('rt'))


def err_ty(I):
    for s in ('alloc::boxed::Box<dyn core::error::Error + core::marker::Send + core::marker::Sync>',):
        if s in I.p.tbys:
            return I.p.tbys[s]
    return None


# ---------------------------------------------------------------- function traits

@m('FnOnce::call_once', 'FnMut::call_mut', 'Fn::call')
def fn_call(I, c):
    f, a = c.args
    if c.inst and c.inst['kind'] == 'item' and c.crate in I.own_crates and c.inst['body'] \
            and not isinstance(I.res(f), (Clo, FnV, Ref, Ptr)):
        return NotImplemented
    a = I.res(a)
    args = list(a.f) if isinstance(a, Tup) else [a]
    if isinstance(a, Sym):
        T = I.p.ty(a.ty)
        args = [I.proj(a, i) for i in range(len(T['to']))]
    return I.call_value(f, args, c.rt, c.span)


# ---------------------------------------------------------------- panics

@m('panicking::panic', 'panicking::panic_fmt', 'panicking::panic_display', 'panicking::panic_explicit',
   'panicking::begin_panic', 'panicking::assert_failed', 'panicking::panic_str_2015', 'option::unwrap_failed',
   'option::expect_failed', 'result::unwrap_failed', 'panicking::panic_bounds_check',
   'panicking::unreachable_display', 'panicking::panic_const', 'panicking::panic_nounwind',
   'panicking::assert_failed_inner', 'unwrap_failed::unwrap_failed_inner', 'panicking::panic_str',
   'slice::index::slice_index_fail', 'rt::begin_panic', 'rt::panic_fmt', 'rt::panic_display',
   'panicking::panic_any', 'panic::panic_any', 'process::abort', 'process::exit', 'intrinsics::abort')
def panic(I, c):
    msg = ''
    for a in c.args:
        try:
            s = I.strip(a)
            if isinstance(s, Str):
                msg = s.s
            elif isinstance(s, Obj) and s.k == 'Args':
                msg = ''.join(x if isinstance(x, str) else '{}' for x in s.f[0])
        except Unsupported:
            pass
    if 'abort' in c.np or 'exit' in c.np:
        I.event('abort', c.np)
    payload = c.args[0] if c.args and 'panic_any' in c.np or 'begin_panic' in c.np else None
    raise RustPanic('%s: %s at %s' % (c.np.split('::')[-1], msg, c.span), payload)


# ---------------------------------------------------------------- smart pointers

@m('Box::new', 'Arc::new', 'Rc::new', 'Box::pin')
def ptr_new(I, c):
    k = c.np.split('::')[-2]
    return Ptr(k, Cell(c.args[0]), c.at[0] if c.at else None)


@m('Box::new_uninit')
def box_uninit(I, c):
    return Ptr('Box', Cell(UNINIT))


@m('boxed::box_assume_init_into_vec_unsafe', 'slice::box_assume_init_into_vec_unsafe')
def box_vec(I, c):
    v = I.load(c.args[0])
    while isinstance(v, Adt) and v.ty is None:
        v = next((x for x in v.f if x is not UNINIT), None)
    if v is UNINIT or v is None:
        return vec(())
    if isinstance(v, Arr):
        return vec(v.f)
    raise Unsupported('vec! contents %r' % (v,))


@m('<impl [T]>::into_vec')
def into_vec(I, c):
    v = I.strip(c.args[0])
    return Obj('Vec', v)


@m('Arc::ptr_eq', 'Rc::ptr_eq')
def ptr_eq(I, c):
    a, b = I.load(c.args[0]), I.load(c.args[1])
    return int(a == b)


@m('Arc::strong_count', 'Arc::weak_count')
def arc_count(I, c):
    return I.mksym('count', (c.np,), c.rt)


@m('Arc::try_unwrap')
def arc_unwrap(I, c):
    return I.result(ok=I.load(c.args[0]), ty=c.rt)


@m('Arc::get_mut', 'Rc::get_mut')
def arc_get_mut(I, c):
    p = I.load(c.args[0])
    return I.option(Ref(p.c), ty=c.rt)


@m('Arc::make_mut')
def arc_make_mut(I, c):
    p = I.load(c.args[0])
    q = Ptr(p.k, Cell(p.c.v), p.ty)
    r = I.res(c.args[0])
    I.write(r.c, r.p, q)
    return Ref(q.c)


@m('Deref::deref', 'DerefMut::deref_mut', 'AsRef::as_ref', 'AsMut::as_mut', 'Borrow::borrow',
   'BorrowMut::borrow_mut', 'Vec::as_slice', 'Vec::as_mut_slice', 'String::as_str', 'Cow::as_ref',
   '<impl str>::as_bytes', '<impl str>::as_str', 'String::as_bytes', '<impl [T]>::as_slice', 'Box::as_ref',
   'Bytes::as_ref', 'Chunk::as_ref', '<impl [T; N]>::as_slice')
def deref(I, c):
    a = I.res(c.args[0])
    v = I.load(a)
    if c.np.endswith('as_ref') and is_method(I, I.strip(v)):
        return method_as_str(I, c)
    if isinstance(v, Ptr):
        return Ref(v.c)
    if isinstance(v, Ref):
        return v
    if isinstance(v, Obj) and v.k in ('Vec', 'String'):
        cc, p = I.deref(a)
        return Ref(cc, p + (0,))
    if isinstance(v, Adt):
        path = tp(I, v.ty)
        if path == 'alloc::borrow::Cow':
            x = I.read(*deref_loc(I, a, (0,)))
            if isinstance(x, (Ref,)):
                return x
            cc, p = deref_loc(I, a, (0,))
            if isinstance(x, Obj) and x.k in ('Vec', 'String'):
                return Ref(cc, p + (0,))
            return Ref(cc, p)
        if path and path.endswith('AssertUnwindSafe'):
            cc, p = deref_loc(I, a, (0,))
            return Ref(cc, p)
    if isinstance(v, Obj) and v.k == 'Lazy':
        return lazy_force(I, v)
    if isinstance(v, Sym) and v.ty is not None:
        T = I.p.ty(v.ty)
        if T['k'] == 'adt' and T['path'] == 'alloc::borrow::Cow':
            I.expand(v)
            return deref(I, c)
        if T['k'] == 'adt' and T['path'] in ('alloc::boxed::Box', 'alloc::sync::Arc', 'alloc::rcs::arc::Arc'):
            cc, p = I.deref(v)
            return Ref(cc, p)
    cc, p = I.deref(a)
    return Ref(cc, p)


def deref_loc(I, a, steps):
    c, p = I.deref(a)
    return c, p + tuple(steps)


@m('Box::leak', 'Box::into_raw', 'Box::from_raw', 'Arc::as_ptr', 'Box::into_pin')
def same_ptr(I, c):
    v = I.res(c.args[0])
    if c.np.endswith('leak'):
        return Ref(v.c)
    return v


# ---------------------------------------------------------------- clone, eq, default, conversions

@m('Clone::clone', 'ToOwned::to_owned', 'Option::cloned', 'Option::copied', '<impl [T]>::to_vec',
   'Clone::clone_from')
def clone(I, c):
    a = c.args[0]
    if c.np.endswith(('cloned', 'copied')):
        v = I.res(a)
        if isinstance(v, Sym):
            v = I.expand(v)
        if not v.f:
            return I.option(None, ty=c.rt)
        return I.option(clone_value(I, I.load(v.f[0])), ty=c.rt)
    v = I.load(a)
    T = I.p.ty(c.rt)
    if c.tk == 'Clone::clone' and isinstance(v, Ref) and T and T['k'] != 'ref':
        v = I.strip(v)
    if isinstance(v, Arr) and T and T.get('path') == 'alloc::vec::Vec':
        return vec(clone_value(I, x) for x in v.f)
    s = v if isinstance(v, (Str,)) else None
    if T and T.get('path') == 'alloc::string::String':
        x = I.strval(v)
        return string(x if x is not None else v)
    if isinstance(v, Adt) and tp(I, v.ty) == 'alloc::borrow::Cow':
        return v
    return clone_value(I, v)


def clone_value(I, v):
    h = getattr(I, 'on_clone', None)
    if h:
        r = h(I, v)
        if r is not None:
            return r
    return deep_clone(I, v)


@m('PartialEq::eq', 'PartialEq::ne', 'SpecOptionPartialEq::eq', '<impl [T]>::eq_ignore_ascii_case')
def eq(I, c):
    r = I.eq(c.args[0], c.args[1])
    return int((not r) if c.tk == 'PartialEq::ne' else r)


@m('PartialOrd::lt', 'PartialOrd::le', 'PartialOrd::gt', 'PartialOrd::ge')
def ord_(I, c):
    a, b = I.strip(c.args[0]), I.strip(c.args[1])
    op = c.tk.split('::')[1].capitalize()
    while isinstance(a, Adt) and isinstance(b, Adt) and len(a.f) == 1 == len(b.f):
        a, b = I.strip(a.f[0]), I.strip(b.f[0])
    for x, y, flip in ((a, b, 0), (b, a, 1)):
        if isinstance(x, Sym) and isinstance(y, Adt) and len(y.f) == 1 and not isinstance(y.f[0], V):
            x = I.proj(x, 0)
            y = y.f[0]
            a, b = (y, x) if flip else (x, y)
    return int(I.cmp_int(op, a, b))


@m('Ord::cmp', 'PartialOrd::partial_cmp')
def ordcmp(I, c):
    a, b = I.strip(c.args[0]), I.strip(c.args[1])
    t = I.p.pseudo_ty('core::cmp::Ordering')
    if isinstance(a, Str) and isinstance(b, Str):
        a, b = a.s, b.s
    if isinstance(a, V) or isinstance(b, V):
        if isinstance(a, Sym) or isinstance(b, Sym):
            r = 0 if I.cmp_int('Lt', a, b) else 1 if I.cmp_int('Eq', a, b) else 2
        else:
            raise Unsupported('cmp of %r' % (a,))
    else:
        r = 0 if a < b else 1 if a == b else 2
    o = Adt(t, r, ())
    return o if c.tk == 'Ord::cmp' else I.option(o, ty=c.rt)


def default_of(I, t):
    T = I.p.ty(t)
    k = T['k']
    if k in ('int', 'uint', 'bool', 'char'):
        return 0
    if k == 'tuple':
        return Tup(tuple(default_of(I, x) for x in T['to']))
    p = T.get('path')
    if p == 'core::option::Option':
        return I.option(None, ty=t)
    if p == 'alloc::vec::Vec':
        return vec(())
    if p == 'alloc::string::String':
        return string(Str(''))
    if p == 'hyper::body::body::Body':
        return Sym('Body::empty', (), t)
    if p and p.endswith('HeaderMap'):
        return Obj('HeaderMap', ())
    if p == 'http::uri::Uri':
        return Sym('uri_default', (), t)
    if p and (p.startswith('alloc::boxed::Box') or p.endswith('::Arc')):
        return Ptr('Box' if 'Box' in p else 'Arc', Cell(default_of(I, T['args'][0])), T['args'][0])
    if k == 'ref' and I.p.ty(T['to'])['k'] == 'str':
        return Ref(Cell(Str('')))
    if k == 'adt' and not T['enum'] and p.startswith('core::marker::PhantomData'):
        return Adt(t, 0, ())
    return Sym('default', (T['s'],), t)


@m('Default::default')
def default(I, c):
    if c.inst and c.inst['body']:
        p = tp(I, c.rt)
        if not p or not (p.endswith('HeaderMap') or p.startswith(('alloc::', 'hyper::')) or p == 'http::uri::Uri'):
            return NotImplemented
    return default_of(I, c.rt)


@m('HeaderMap::new', 'HeaderMap::with_capacity')
def hm_new(I, c):
    return Obj('HeaderMap', ())


@m('Extensions::new')
def ext_new(I, c):
    return Sym('no_extensions', (), c.rt)


@m('Uri::default')
def uri_def(I, c):
    return Sym('uri_default', (), c.rt)


@m('From::from')
def from_(I, c):
    return convert(I, c.args[0], c.at[0] if c.at else None, c.rt, c)


def convert(I, v, st, t, c=None):
    T = I.p.ty(t)
    if T is None:
        return v
    if st is not None and st == t:
        return v
    p = T.get('path')
    S = I.p.ty(st)
    if p == 'alloc::boxed::Box':
        inner = I.p.ty(T['args'][0])
        if inner['k'] == 'dyn':
            sv = I.strval(v) if S is None or S['k'] == 'ref' or S.get('path') in (
                'alloc::string::String', 'alloc::borrow::Cow') else None
            if sv is not None:
                return Ptr('Box', Cell(Sym('StringError', (sv,), None)))
            if isinstance(v, Ptr) and S is not None and S.get('path') == 'alloc::boxed::Box':
                return v
            return Ptr('Box', Cell(v), st)
        if inner['k'] == 'str':
            return Ptr('Box', Cell(I.strval(v)))
        if inner['k'] == 'slice':
            return Ptr('Box', Cell(Arr(elems(I, v)[2])))
        return Ptr('Box', Cell(v), st)
    if p in ('alloc::sync::Arc', 'alloc::rcs::arc::Arc'):
        return Ptr('Arc', Cell(v), st)
    if p == 'alloc::vec::Vec':
        v2 = I.res(v)
        if isinstance(v2, Obj) and v2.k == 'Vec':
            return v2
        sv = I.strval(v2) if not isinstance(v2, Arr) else None
        if sv is not None:
            return Obj('Vec', sv)
        return vec(elems(I, v2)[2])
    if p == 'alloc::borrow::Cow':
        v2 = I.res(v)
        if isinstance(v2, (Obj,)) and v2.k in ('Vec', 'String'):
            return Adt(t, I.p.variant(t, 'Owned'), (v2,))
        if isinstance(v2, Sym) and S is not None and S['k'] == 'adt':
            return Adt(t, I.p.variant(t, 'Owned'), (v2,))
        x = I.load(v2)
        if isinstance(x, Obj) and x.k in ('Vec', 'String'):
            cc, pp = I.deref(v2)
            return Adt(t, I.p.variant(t, 'Borrowed'), (Ref(cc, pp + (0,)),))
        return Adt(t, I.p.variant(t, 'Borrowed'), (v2,))
    if p == 'alloc::string::String':
        sv = I.strval(v)
        return string(sv if sv is not None else I.strip(v))
    if p == 'core::option::Option':
        return I.option(v, ty=t)
    if p == 'hyper::body::body::Body':
        x = I.strval(v)
        return Sym('Body::from', (x if x is not None else I.strip(v),), t)
    if p and p.startswith('futures::future'):
        return into_future(I, v)
    if T['k'] in ('uint', 'int') and isinstance(v, int):
        return v
    if p == 'http::status::StatusCode' or p == 'http::method::Method':
        x = I.strip(v)
        if isinstance(x, (Adt, Sym)):
            return x
    if c is not None and c.inst and c.inst['body']:
        return NotImplemented
    return Sym('convert', (I.snap(v), T['s']), t)


@m('ToString::to_string', 'SpecToString::spec_to_string')
def to_string(I, c):
    v = I.strip(c.args[0])
    s = I.strval(v)
    if s is not None:
        return string(s)
    if is_method(I, v):
        return string(I.strval(method_as_str(I, c)))
    return string(Sym('display', (I.snap(v),)))


@m('Any::type_id', 'TypeId::of', 'any::type_name')
def type_id(I, c):
    return Sym('typeid', (tuple(I.p.tstr(t) for t in c.targs),), c.rt)


@m('mem::take')
def mem_take(I, c):
    r = I.res(c.args[0])
    v = I.load(r)
    I.write(r.c, r.p, default_of(I, c.rt))
    return v


@m('mem::replace')
def mem_replace(I, c):
    r = I.res(c.args[0])
    v = I.load(r)
    I.write(r.c, r.p, c.args[1])
    return v


@m('mem::swap')
def mem_swap(I, c):
    a, b = I.res(c.args[0]), I.res(c.args[1])
    x, y = I.load(a), I.load(b)
    I.write(a.c, a.p, y)
    I.write(b.c, b.p, x)
    return UNIT


@m('mem::drop', 'mem::forget', 'hint::black_box', 'hint::unreachable_unchecked')
def mem_drop(I, c):
    if c.np.endswith('black_box'):
        return c.args[0]
    return UNIT


@m('Option::take')
def opt_take(I, c):
    r = I.res(c.args[0])
    cc, p = I.deref(r)
    v = I.read(cc, p)
    if isinstance(v, Sym):
        v = I.expand(v)
    I.write(cc, p, I.option(None, ty=c.rt))
    return v


@m('Option::replace', 'Option::insert', 'Option::get_or_insert', 'Option::get_or_insert_with')
def opt_replace(I, c):
    cc, p = I.deref(c.args[0])
    v = I.read(cc, p)
    if isinstance(v, Sym):
        v = I.expand(v)
    n = c.np.split('::')[-1]
    ty = v.ty if isinstance(v, Adt) else None
    if n == 'replace':
        I.write(cc, p, I.option(c.args[1], ty=ty))
        return v
    if n == 'insert' or not v.f:
        x = call(I, c.args[1]) if n.endswith('with') else c.args[1]
        I.write(cc, p, I.option(x, ty=ty))
    return Ref(cc, p + (0,))


# ---------------------------------------------------------------- Option<&T> and friends by reference

@m('Option::as_deref', 'Option::as_deref_mut', 'Option::as_slice')
def opt_as_deref(I, c):
    cc, p = I.deref(c.args[0])
    v = I.expand(I.read(cc, p)) if not isinstance(I.read(cc, p), Adt) else I.read(cc, p)
    if not v.f:
        return I.option(None, ty=c.rt)
    inner = Ref(cc, p + (0,))
    x = I.load(inner)
    if isinstance(x, (Ptr, Ref)):
        a, b = I.deref(x)
        return I.option(Ref(a, b), ty=c.rt)
    if isinstance(x, Obj) and x.k in ('Vec', 'String'):
        return I.option(Ref(cc, p + (0, 0)), ty=c.rt)
    if isinstance(x, Sym):
        a, b = I.deref(x)
        return I.option(Ref(a, b), ty=c.rt)
    return I.option(inner, ty=c.rt)


# ---------------------------------------------------------------- Vec, slices, arrays

@m('Vec::new', 'Vec::with_capacity', 'VecDeque::new')
def vec_new(I, c):
    return vec(())


def vloc(I, a):
    c, p = seqloc(I, a)
    x = I.read(c, p)
    if not isinstance(x, Arr):
        raise Unsupported('Vec contents %r' % (x,))
    return c, p, x.f


@m('Vec::push')
def vec_push(I, c):
    cc, p, f = vloc(I, c.args[0])
    I.write(cc, p, Arr(f + (c.args[1],)))
    return UNIT


@m('Vec::pop')
def vec_pop(I, c):
    cc, p, f = vloc(I, c.args[0])
    if not f:
        return I.option(None, ty=c.rt)
    I.write(cc, p, Arr(f[:-1]))
    return I.option(f[-1], ty=c.rt)


@m('Vec::insert')
def vec_insert(I, c):
    cc, p, f = vloc(I, c.args[0])
    i = I.res(c.args[1])
    I.write(cc, p, Arr(f[:i] + (c.args[2],) + f[i:]))
    return UNIT


@m('Vec::remove', 'Vec::swap_remove')
def vec_remove(I, c):
    cc, p, f = vloc(I, c.args[0])
    i = I.res(c.args[1])
    if i >= len(f):
        raise RustPanic('Vec::remove')
    if c.np.endswith('swap_remove'):
        g = list(f)
        v = g[i]
        g[i] = g[-1]
        g.pop()
        I.write(cc, p, Arr(g))
        return v
    I.write(cc, p, Arr(f[:i] + f[i + 1:]))
    return f[i]


@m('Vec::clear')
def vec_clear(I, c):
    cc, p, f = vloc(I, c.args[0])
    I.write(cc, p, Arr(()))
    return UNIT


@m('Vec::truncate')
def vec_truncate(I, c):
    cc, p, f = vloc(I, c.args[0])
    I.write(cc, p, Arr(f[:I.res(c.args[1])]))
    return UNIT


@m('Vec::append')
def vec_append(I, c):
    cc, p, f = vloc(I, c.args[0])
    c2, p2, g = vloc(I, c.args[1])
    I.write(cc, p, Arr(f + g))
    I.write(c2, p2, Arr(()))
    return UNIT


def is_bytes(I, v):
    """an opaque piece of a body"""
    v = I.strip(v)
    return isinstance(v, Sym) and v.k in ('chunk', 'bytes')


def bytes_of(I, v):
    """contents of a byte string of any kind, pieces of unknown length as one element"""
    v = I.strip(v)
    if isinstance(v, Obj) and v.k == 'Vec':
        v = I.strip(v.f[0])
    if is_bytes(I, v):
        return (Obj('Spread', v),)
    if isinstance(v, Arr):
        return v.f
    raise Unsupported('bytes of %r' % (v,))


@m('Extend::extend', 'Vec::extend_from_slice')
def vec_extend(I, c):
    tgt = I.strip(c.args[0])
    items = drain(I, iter_of(I, c.args[1]))
    T = I.p.ty(I.p.ty(c.at[0])['to']) if c.at else None
    et = I.p.ty(T['args'][0]) if T and T.get('args') else None
    if isinstance(tgt, Obj) and tgt.k == 'Set':
        cc, p = I.deref(c.args[0])
        I.write(cc, p, set_of(I, list(tgt.f[0]) + items))
        return UNIT
    cc, p, f = vloc(I, c.args[0])
    if c.np.endswith('extend_from_slice') or (et is not None and et['k'] != 'ref' and
                                              any(isinstance(x, Ref) for x in items)):
        items = [clone_value(I, I.load(x)) if isinstance(I.res(x), Ref) else x for x in items]
    elif et is not None and et['k'] == 'ref':
        # extending a Vec<&T> by an iterator over &&T copies the inner reference
        to = I.p.ty(et['to'])
        items = [I.load(x) if isinstance(I.res(x), Ref) and isinstance(I.load(x), Ref) and to['k'] != 'ref' else x
                 for x in items]
    I.write(cc, p, Arr(f + tuple(items)))
    return UNIT


def has_text(s):
    """text that can't be empty"""
    if isinstance(s, Str):
        return bool(s.s)
    if not isinstance(s, Sym):
        return False
    if s.k in ('method_str', 'inner_method'):
        return True             # a method has at least one character
    return s.k == 'concat' and any(has_text(x) or isinstance(x, str) and x or isinstance(x, tuple) and x[:1] == ('sym',) and
                                   x[1] == 'method_str' for x in s.a[0])


@m('Vec::len', '<impl [T]>::len', 'String::len', '<impl str>::len', 'Vec::is_empty', '<impl [T]>::is_empty',
   'String::is_empty', '<impl str>::is_empty')
def vlen(I, c):
    empty = c.np.endswith('is_empty')
    s = I.strval(c.args[0])
    if s is None:
        x = I.strip(c.args[0])
        if isinstance(x, Obj) and x.k == 'Vec':
            x = I.strip(x.f[0])
        if isinstance(x, Arr) and not any(isinstance(y, Obj) and y.k == 'Spread' for y in x.f):
            return int(not x.f) if empty else len(x.f)
        s = x
    if isinstance(s, Str):
        return int(not s.s) if empty else len(s.s.encode())
    if empty:
        if has_text(s):
            return 0
        return int(I.eq(s, Str('')) if I.strval(s) is not None else I.truth(Sym('is_empty', (I.snap(s),), c.rt)))
    return Sym('len', (I.snap(s),), c.rt)


@m('<impl [T]>::iter', '<impl [T]>::iter_mut', 'Vec::iter', '<impl [T; N]>::iter', 'IntoIterator::into_iter',
   'Option::iter', 'SetMatches::iter', 'Option::into_iter', 'Vec::into_iter', 'HeaderMap::iter')
def it_iter(I, c):
    return iter_of(I, c.args[0])


@m('Vec::drain')
def vec_drain(I, c):
    cc, p, f = vloc(I, c.args[0])
    r = I.res(c.args[1])
    lo, hi = range_bounds(I, r, len(f))
    I.write(cc, p, Arr(f[:lo] + f[hi:]))
    return It('list', tuple(f[lo:hi]))


def range_bounds(I, r, n):
    p = (tp(I, r.ty) or '').split('::')[-1]
    f = [I.res(x) for x in r.f]
    if p == 'RangeFull':
        return 0, n
    if p == 'RangeFrom':
        return f[0], n
    if p == 'RangeTo':
        return 0, f[0]
    if p == 'RangeToInclusive':
        return 0, f[0] + 1
    if p == 'RangeInclusive':
        return f[0], f[1] + 1
    return f[0], f[1]


@m('Index::index', 'IndexMut::index_mut')
def index(I, c):
    a, i = I.res(c.args[0]), I.res(c.args[1])
    x = I.strip(a)
    if isinstance(x, Obj) and x.k == 'Captures':
        v = captures_get(I, x, i)
        if v is None:
            raise RustPanic('no capture group %r' % (i,))
        return Ref(Cell(v))
    cc, p = seqloc(I, a)
    x = I.read(cc, p)
    if isinstance(x, Str):
        if isinstance(i, Adt):
            lo, hi = range_bounds(I, i, len(x.s))
            return Ref(Cell(Str(x.s[lo:hi])))
    if isinstance(x, Obj) and x.k == 'HeaderMap':
        raise Unsupported('HeaderMap index')
    if isinstance(x, Sym):
        if isinstance(i, Adt) and tp(I, i.ty) == 'core::ops::range::RangeFull':
            return Ref(cc, p)
        if isinstance(i, Adt) and I.is_path(x) and tp(I, i.ty) == 'core::ops::range::Range':
            # the text between the ends of a capture
            lo, hi = I.strip(i.f[0]), I.strip(i.f[1])
            if isinstance(lo, Sym) and isinstance(hi, Sym) and (lo.k, hi.k) == ('match_start', 'match_end') and \
                    lo.a == hi.a:
                return Ref(Cell(lo.a[0]))
        return Ref(Cell(Sym('slice', (I.snap(x), I.snap(i)), x.ty)))
    if not isinstance(x, Arr):
        raise Unsupported('index into %r' % (x,))
    if isinstance(i, Adt):
        lo, hi = range_bounds(I, i, len(x.f))
        if not (0 <= lo <= hi <= len(x.f)):
            raise RustPanic('slice index out of range')
        if (lo, hi) == (0, len(x.f)):
            return Ref(cc, p)
        return Ref(cc, p + (('sub', lo, hi),))
    if isinstance(i, Sym):
        raise Unsupported('symbolic index')
    if not 0 <= i < len(x.f):
        raise RustPanic('index out of bounds: %d of %d' % (i, len(x.f)))
    return Ref(cc, p + (i,))


@m('<impl [T]>::get', '<impl [T]>::get_mut', '<impl [T]>::first', '<impl [T]>::last', 'Vec::first', 'Vec::last')
def slice_get(I, c):
    cc, p, f = elems(I, c.args[0])
    n = c.np.split('::')[-1]
    i = 0 if n == 'first' else len(f) - 1 if n == 'last' else I.res(c.args[1])
    if isinstance(i, Sym):
        raise Unsupported('symbolic index')
    if not isinstance(i, int) or not 0 <= i < len(f):
        if isinstance(i, Adt):
            lo, hi = range_bounds(I, i, len(f))
            if 0 <= lo <= hi <= len(f):
                return I.option(Ref(cc, p + (('sub', lo, hi),)), ty=c.rt)
        return I.option(None, ty=c.rt)
    return I.option(Ref(cc, p + (i,)), ty=c.rt)


@m('<impl [T]>::contains')
def slice_contains(I, c):
    cc, p, f = elems(I, c.args[0])
    return int(any(I.eq(x, c.args[1]) for x in f))


@m('<impl [T]>::reverse')
def slice_reverse(I, c):
    cc, p, f = elems(I, c.args[0])
    I.write(cc, p, Arr(f[::-1]))
    return UNIT


@m('<impl [T]>::swap')
def slice_swap(I, c):
    cc, p, f = elems(I, c.args[0])
    g = list(f)
    i, j = I.res(c.args[1]), I.res(c.args[2])
    g[i], g[j] = g[j], g[i]
    I.write(cc, p, Arr(g))
    return UNIT


def sort_key(I, v):
    s = I.strval(v)
    if isinstance(s, Str):
        return s.s
    n = I.method_name(I.strip(v))
    if n:
        return n
    v = I.strip(v)
    if isinstance(v, int):
        return v
    raise Unsupported('sort key %r' % (v,))


@m('<impl [T]>::sort', '<impl [T]>::sort_unstable', '<impl [T]>::sort_by_key', '<impl [T]>::sort_unstable_by_key',
   '<impl [T]>::sort_by_cached_key', '<impl [T]>::sort_by', '<impl [T]>::sort_unstable_by')
def slice_sort(I, c):
    cc, p, f = elems(I, c.args[0])
    if c.np.endswith('_by'):
        import functools

        def cmp(a, b):
            r = I.expand(call(I, c.args[1], Ref(Cell(a)), Ref(Cell(b))))
            return I.p.types[r.ty]['variants'][r.var]['d']
        g = sorted(f, key=functools.cmp_to_key(cmp))
    elif c.np.endswith('key'):
        g = sorted(f, key=lambda x: sort_key(I, call(I, c.args[1], Ref(Cell(x)))))
    else:
        g = sorted(f, key=lambda x: sort_key(I, x))
    I.write(cc, p, Arr(g))
    return UNIT


@m('Vec::dedup', 'Vec::dedup_by_key')
def vec_dedup(I, c):
    cc, p, f = vloc(I, c.args[0])
    out = []
    key = (lambda x: call(I, c.args[1], Ref(Cell(x)))) if c.np.endswith('key') else (lambda x: x)
    for x in f:
        if not out or not I.eq(key(out[-1]), key(x)):
            out.append(x)
    I.write(cc, p, Arr(out))
    return UNIT


@m('Vec::retain')
def vec_retain(I, c):
    cc, p, f = vloc(I, c.args[0])
    g = [x for x in f if I.truth(call(I, c.args[1], Ref(Cell(x))))]
    I.write(cc, p, Arr(g))
    return UNIT


@m('<impl [T]>::concat', '<impl [T]>::join')
def slice_join(I, c):
    cc, p, f = elems(I, c.args[0])
    sep = I.strval(c.args[1]) if len(c.args) > 1 else Str('')
    parts = [I.strval(x) for x in f]
    T = I.p.ty(c.rt)
    if T and T.get('path') == 'alloc::vec::Vec':
        out = []
        for i, x in enumerate(f):
            if i and len(c.args) > 1:
                out.append(c.args[1])
            out.extend(elems(I, x)[2])
        return vec(out)
    return string(str_concat(I, parts, sep))


def str_concat(I, parts, sep=None):
    out = []
    for i, x in enumerate(parts):
        if i and sep is not None:
            out.append(sep)
        out.append(x)
    flat = []
    for x in out:
        x = I.res(x)
        if isinstance(x, Sym) and x.k == 'concat':
            flat.extend(x.a[0])
        else:
            flat.append(x)
    merged = []
    for x in flat:
        if isinstance(x, Str) and merged and isinstance(merged[-1], Str):
            merged[-1] = Str(merged[-1].s + x.s)
        elif isinstance(x, Str) and not x.s:
            continue
        else:
            merged.append(x)
    if not merged:
        return Str('')
    if len(merged) == 1 and isinstance(merged[0], Str):
        return merged[0]
    return Sym('concat', (tuple(merged),), I.p.tbys.get('str'))


# ---------------------------------------------------------------- sets and maps (small, insertion ordered)

def set_of(I, items):
    out = []
    for x in items:
        if not any(I.eq(x, y) for y in out):
            out.append(x)
    return Obj('Set', tuple(out))


@m('HashSet::new', 'BTreeSet::new', 'HashSet::with_capacity')
def set_new(I, c):
    return Obj('Set', ())


@m('HashSet::insert', 'BTreeSet::insert')
def set_insert(I, c):
    cc, p = I.deref(c.args[0])
    s = I.read(cc, p)
    if any(I.eq(x, c.args[1]) for x in s.f[0]):
        return 0
    I.write(cc, p, Obj('Set', s.f[0] + (c.args[1],)))
    return 1


@m('HashSet::contains', 'BTreeSet::contains')
def set_contains(I, c):
    return int(any(I.eq(x, c.args[1]) for x in I.strip(c.args[0]).f[0]))


# ---------------------------------------------------------------- iterators

def It(kind, *f):
    return Obj('It', kind, *f)


def iter_of(I, v):
    v = I.res(v)
    if is_bytes(I, v):
        return It('list', (Obj('Spread', I.strip(v)),))
    if isinstance(v, Sym):
        T = I.p.ty(v.ty)
        if T and T['k'] == 'adt' and T['path'] in ('core::option::Option', 'core::ops::range::Range'):
            v = I.expand(v)
    if isinstance(v, Obj):
        if v.k == 'It':
            return v
        if v.k == 'Vec':
            return It('list', v.f[0].f)
        if v.k == 'Set':
            return It('list', v.f[0])
        if v.k == 'SetMatches':
            return It('list', tuple(i for i, b in enumerate(v.f[0]) if b))
        if v.k == 'HeaderMap':
            return It('list', tuple(Tup((a, b)) for a, b in v.f[0]))
    if isinstance(v, Arr):
        return It('list', v.f)
    if isinstance(v, Adt):
        p = tp(I, v.ty)
        if p == 'core::option::Option':
            return It('list', v.f)
        if p == 'core::result::Result':
            return It('list', v.f if I.vname(v) == 'Ok' else ())
        if p == 'core::ops::range::Range':
            return It('range', I.res(v.f[0]), I.res(v.f[1]))
        if p == 'core::ops::range::RangeFrom':
            return It('range', I.res(v.f[0]), None)
        if p == 'core::ops::range::RangeInclusive':
            return It('range', I.res(v.f[0]), I.res(v.f[1]) + 1)
        if p == 'alloc::borrow::Cow':
            x = I.res(v.f[0])
            return iter_of(I, x)
    if isinstance(v, (Ref, Ptr)):
        x = I.load(v)
        if isinstance(x, Obj) and x.k == 'It':
            return It('byref', v)
        if isinstance(x, Adt) and tp(I, x.ty) == 'core::ops::range::Range':
            return It('byref', v)
        if isinstance(x, Sym):
            T = I.p.ty(x.ty)
            if T and T['k'] == 'adt' and T['path'] in ('core::option::Option', 'alloc::borrow::Cow'):
                x = I.expand(x)
        if isinstance(x, Adt) and tp(I, x.ty) == 'core::option::Option':
            c, p = I.deref(v)
            return It('list', tuple(Ref(c, p + (i,)) for i in range(len(x.f))))
        if isinstance(x, Obj) and x.k in ('SetMatches', 'HeaderMap'):
            return iter_of(I, x)
        if isinstance(x, Obj) and x.k == 'Set':
            return It('list', tuple(Ref(Cell(y)) for y in x.f[0]))
        c, p = seqloc(I, v)
        x = I.read(c, p)
        if isinstance(x, Arr):
            return It('list', tuple(Ref(c, p + (i,)) for i in range(len(x.f))))
    raise Unsupported('iteration over %r' % (v,))


def it_next(I, it):
    """-> (item or STOP, iterator afterwards)"""
    it = I.res(it)
    if isinstance(it, (Adt, Arr)) or (isinstance(it, Obj) and it.k != 'It'):
        it = iter_of(I, it)
    if not (isinstance(it, Obj) and it.k == 'It'):
        if isinstance(it, (Ref, Ptr)):
            it = iter_of(I, it)
        else:
            raise Unsupported('next of %r' % (it,))
    k = it.f[0]
    if k == 'list':
        if not it.f[1]:
            return STOP, it
        return it.f[1][0], It('list', it.f[1][1:])
    if k == 'range':
        a, b = it.f[1], it.f[2]
        if isinstance(a, Sym) or isinstance(b, Sym):
            raise Unsupported('symbolic range')
        if b is not None and a >= b:
            return STOP, it
        return a, It('range', a + 1, b)
    if k == 'byref':
        c, p = I.deref(it.f[1])
        x, n = it_next(I, I.read(c, p))
        I.write(c, p, n)
        return x, it
    if k == 'map':
        x, n = it_next(I, it.f[1])
        if x is not STOP:
            x = call(I, it.f[2], x)
        return x, It('map', n, it.f[2])
    if k == 'inspect':
        x, n = it_next(I, it.f[1])
        if x is not STOP:
            call(I, it.f[2], Ref(Cell(x)))
        return x, It('inspect', n, it.f[2])
    if k == 'filter':
        n = it.f[1]
        while True:
            x, n = it_next(I, n)
            if x is STOP or I.truth(call(I, it.f[2], Ref(Cell(x)))):
                return x, It('filter', n, it.f[2])
    if k == 'filter_map':
        n = it.f[1]
        while True:
            x, n = it_next(I, n)
            if x is STOP:
                return x, It('filter_map', n, it.f[2])
            r = I.expand(call(I, it.f[2], x))
            if r.f:
                return r.f[0], It('filter_map', n, it.f[2])
    if k == 'map_while':
        x, n = it_next(I, it.f[1])
        if x is STOP:
            return STOP, It('list', ())
        r = I.expand(call(I, it.f[2], x))
        if r.f:
            return r.f[0], It('map_while', n, it.f[2])
        return STOP, It('list', ())
    if k == 'enumerate':
        x, n = it_next(I, it.f[1])
        if x is not STOP:
            x = Tup((it.f[2], x))
        return x, It('enumerate', n, it.f[2] + 1)
    if k == 'zip':
        x, n = it_next(I, it.f[1])
        if x is STOP:
            return STOP, It('list', ())
        y, o = it_next(I, it.f[2])
        if y is STOP:
            return STOP, It('list', ())
        return Tup((x, y)), It('zip', n, o)
    if k == 'chain':
        x, n = it_next(I, it.f[1])
        if x is not STOP:
            return x, It('chain', n, it.f[2])
        return it_next(I, it.f[2])
    if k == 'take':
        if it.f[2] <= 0:
            return STOP, it
        x, n = it_next(I, it.f[1])
        return x, It('take', n, it.f[2] - 1)
    if k == 'skip':
        n = it.f[1]
        for _ in range(it.f[2]):
            x, n = it_next(I, n)
            if x is STOP:
                return STOP, n
        return it_next(I, n)
    if k == 'step_by':
        x, n = it_next(I, it.f[1])
        return x, It('skip_step', n, it.f[2])
    if k == 'skip_step':
        n = it.f[1]
        for _ in range(it.f[2] - 1):
            x, n = it_next(I, n)
        x, n = it_next(I, n)
        return x, It('skip_step', n, it.f[2])
    if k == 'take_while':
        x, n = it_next(I, it.f[1])
        if x is STOP or not I.truth(call(I, it.f[2], Ref(Cell(x)))):
            return STOP, It('list', ())
        return x, It('take_while', n, it.f[2])
    if k == 'skip_while':
        n = it.f[1]
        while True:
            x, n = it_next(I, n)
            if x is STOP:
                return STOP, n
            if not I.truth(call(I, it.f[2], Ref(Cell(x)))):
                return x, n
    if k == 'cloned':
        x, n = it_next(I, it.f[1])
        if x is not STOP:
            x = clone_value(I, I.load(x))
        return x, It('cloned', n)
    if k == 'fuse' or k == 'peek':
        x, n = it_next(I, it.f[1])
        return x, It(k, n)
    if k == 'flatten':
        outer, inner = it.f[1], it.f[2]
        while True:
            if inner is not None:
                x, inner = it_next(I, inner)
                if x is not STOP:
                    return x, It('flatten', outer, inner)
            x, outer = it_next(I, outer)
            if x is STOP:
                return STOP, It('list', ())
            inner = iter_of(I, x)
    if k == 'repeat':
        return it.f[1], it
    if k == 'repeat_with' or k == 'from_fn':
        x = call(I, it.f[1])
        if k == 'from_fn':
            r = I.expand(x)
            return (r.f[0] if r.f else STOP), it
        return x, it
    if k == 'rev':
        items = drain(I, it.f[1])
        return it_next(I, It('list', tuple(reversed(items))))
    if k == 'sym':
        raise Unsupported('iterator %r' % (it,))
    raise Unsupported('iterator kind %s' % k)


def drain(I, it, limit=2000):
    out = []
    while True:
        x, it = it_next(I, it)
        if x is STOP:
            return out
        out.append(x)
        if len(out) > limit:
            raise Unsupported('long iteration')


@m('Iterator::next', 'DoubleEndedIterator::next_back', 'IteratorExt::next')
def it_next_m(I, c):
    cc, p = I.deref(c.args[0])
    it = I.read(cc, p)
    if isinstance(it, (Ref, Ptr)):
        cc, p = I.deref(it)
        it = I.read(cc, p)
    if c.tk.endswith('next_back'):
        items = drain(I, it)
        if not items:
            return I.option(None, ty=c.rt)
        I.write(cc, p, It('list', tuple(items[:-1])))
        return I.option(items[-1], ty=c.rt)
    if isinstance(I.res(it), Sym) and I.res(it).k in ('call', 'after_next'):
        # an iterator of another crate
        it = I.res(it)
        I.write(cc, p, Sym('after_next', (I.snap(it),), it.ty))
        return I.mksym('next', (I.snap(it),), c.rt)
    x, n = it_next(I, it)
    I.write(cc, p, n)
    return I.option(None if x is STOP else x, ty=c.rt)


def lazy_adapter(name, kind=None, cell=True):
    def f(I, c):
        return It(kind or name, iter_of(I, c.args[0]), Cell(c.args[1]))
    MODELS['Iterator::' + name] = f


for _n in ('map', 'filter', 'filter_map', 'inspect', 'take_while', 'skip_while', 'map_while'):
    lazy_adapter(_n)


@m('Iterator::enumerate')
def it_enum(I, c):
    return It('enumerate', iter_of(I, c.args[0]), 0)


@m('Iterator::zip', 'zip::zip')
def it_zip(I, c):
    return It('zip', iter_of(I, c.args[0]), iter_of(I, c.args[1]))


@m('Iterator::chain', 'chain::chain')
def it_chain(I, c):
    return It('chain', iter_of(I, c.args[0]), iter_of(I, c.args[1]))


@m('Iterator::take', 'Iterator::skip', 'Iterator::step_by')
def it_take(I, c):
    return It(c.tk.split('::')[1], iter_of(I, c.args[0]), I.res(c.args[1]))


@m('Iterator::rev')
def it_rev(I, c):
    return It('rev', iter_of(I, c.args[0]))


@m('Iterator::cloned', 'Iterator::copied')
def it_cloned(I, c):
    return It('cloned', iter_of(I, c.args[0]))


@m('Iterator::fuse', 'Iterator::peekable')
def it_fuse(I, c):
    return It('peek', iter_of(I, c.args[0]))


@m('Iterator::by_ref')
def it_byref(I, c):
    return c.args[0]


@m('Iterator::flatten')
def it_flatten(I, c):
    return It('flatten', iter_of(I, c.args[0]), None)


@m('Iterator::flat_map')
def it_flat_map(I, c):
    return It('flatten', It('map', iter_of(I, c.args[0]), Cell(c.args[1])), None)


@m('Peekable::peek')
def it_peek(I, c):
    cc, p = I.deref(c.args[0])
    x, n = it_next(I, I.read(cc, p))
    if x is STOP:
        return I.option(None, ty=c.rt)
    I.write(cc, p, It('chain', It('list', (x,)), n))
    return I.option(Ref(Cell(x)), ty=c.rt)


@m('once::once')
def it_once(I, c):
    return It('list', (c.args[0],))


@m('empty::empty')
def it_empty(I, c):
    return It('list', ())


@m('repeat::repeat')
def it_repeat(I, c):
    return It('repeat', c.args[0])


@m('from_fn::from_fn')
def it_from_fn(I, c):
    return It('from_fn', Cell(c.args[0]))


@m('Iterator::count')
def it_count(I, c):
    return len(drain(I, iter_of(I, c.args[0])))


@m('Iterator::last')
def it_last(I, c):
    x = drain(I, iter_of(I, c.args[0]))
    return I.option(x[-1] if x else None, ty=c.rt)


@m('Iterator::nth')
def it_nth(I, c):
    cc, p = I.deref(c.args[0])
    it = I.read(cc, p)
    x = STOP
    for _ in range(I.res(c.args[1]) + 1):
        x, it = it_next(I, it)
        if x is STOP:
            break
    I.write(cc, p, it)
    return I.option(None if x is STOP else x, ty=c.rt)


def it_short(I, c, stop):
    """runs the iterator of the first argument (by value or &mut) until stop(x) is not None"""
    a = I.res(c.args[0])
    it = iter_of(I, a)
    while True:
        x, it = it_next(I, it)
        if x is STOP:
            return None
        r = stop(x)
        if r is not None:
            return r


@m('Iterator::any')
def it_any(I, c):
    return 1 if it_short(I, c, lambda x: True if I.truth(call(I, c.args[1], x)) else None) else 0


@m('Iterator::all')
def it_all(I, c):
    return 0 if it_short(I, c, lambda x: None if I.truth(call(I, c.args[1], x)) else True) else 1


@m('Iterator::find')
def it_find(I, c):
    r = it_short(I, c, lambda x: (x,) if I.truth(call(I, c.args[1], Ref(Cell(x)))) else None)
    return I.option(r[0] if r else None, ty=c.rt)


@m('Iterator::find_map')
def it_find_map(I, c):
    def st(x):
        r = I.expand(call(I, c.args[1], x))
        return (r.f[0],) if r.f else None
    r = it_short(I, c, st)
    return I.option(r[0] if r else None, ty=c.rt)


@m('Iterator::position')
def it_position(I, c):
    n = [-1]

    def st(x):
        n[0] += 1
        return n[0] if I.truth(call(I, c.args[1], x)) else None
    r = it_short(I, c, st)
    return I.option(r, ty=c.rt)


@m('Iterator::fold')
def it_fold(I, c):
    acc = c.args[1]
    f = Cell(c.args[2])
    for x in drain(I, iter_of(I, c.args[0])):
        acc = call(I, f, acc, x)
    return acc


@m('Iterator::try_fold')
def it_try_fold(I, c):
    acc = c.args[1]
    it = iter_of(I, c.args[0])
    f = Cell(c.args[2])
    last = None
    while True:
        x, it = it_next(I, it)
        if x is STOP:
            break
        last = I.expand(call(I, f, acc, x, rt=c.rt))
        if I.vname(last) in ('None', 'Err', 'Break'):
            return last
        acc = last.f[0]
    n = {'core::option::Option': 'Some', 'core::result::Result': 'Ok'}.get(tp(I, c.rt))
    if n is None:
        raise Unsupported('try_fold')
    return Adt(c.rt, I.p.variant(c.rt, n), (acc,))


@m('Iterator::for_each')
def it_for_each(I, c):
    f = Cell(c.args[1])
    for x in drain(I, iter_of(I, c.args[0])):
        call(I, f, x)
    return UNIT


@m('Iterator::sum')
def it_sum(I, c):
    return sum(I.strip(x) for x in drain(I, iter_of(I, c.args[0])))


@m('Iterator::max', 'Iterator::min')
def it_max(I, c):
    xs = drain(I, iter_of(I, c.args[0]))
    if not xs:
        return I.option(None, ty=c.rt)
    f = max if c.tk.endswith('max') else min
    return I.option(f(xs, key=lambda x: sort_key(I, x)), ty=c.rt)


@m('Iterator::unzip', 'Iterator::partition')
def it_unzip(I, c):
    xs = drain(I, iter_of(I, c.args[0]))
    if c.tk.endswith('unzip'):
        return Tup((vec(x.f[0] for x in xs), vec(x.f[1] for x in xs)))
    f = Cell(c.args[1])
    a, b = [], []
    for x in xs:
        (a if I.truth(call(I, f, Ref(Cell(x)))) else b).append(x)
    return Tup((vec(a), vec(b)))


@m('ExactSizeIterator::len', 'Iterator::size_hint')
def it_len(I, c):
    it = I.strip(c.args[0])
    n = len(drain(I, it))
    if c.tk.endswith('len'):
        return n
    return Tup((n, I.option(n)))


@m('Iterator::collect', 'FromIterator::from_iter')
def it_collect(I, c):
    T = I.p.ty(c.rt)
    return collect(I, iter_of(I, c.args[0]), c.rt)


def collect(I, it, t):
    T = I.p.ty(t)
    p = T.get('path')
    if p == 'alloc::vec::Vec':
        return vec(drain(I, it))
    if p in ('std::collections::hash::set::HashSet', 'alloc::collections::btree::set::BTreeSet'):
        return set_of(I, drain(I, it))
    if p == 'alloc::boxed::Box':
        return Ptr('Box', Cell(Arr(tuple(drain(I, it)))), T['args'][0])
    if p == 'alloc::borrow::Cow':
        return Adt(t, I.p.variant(t, 'Owned'), (vec(drain(I, it)),))
    if p == 'alloc::string::String':
        parts = []
        for x in drain(I, it):
            x = I.strip(x)
            parts.append(Str(chr(x)) if isinstance(x, int) else I.strval(x))
        return string(str_concat(I, parts))
    if p in ('core::result::Result', 'core::option::Option'):
        out = []
        while True:
            x, it = it_next(I, it)
            if x is STOP:
                break
            x = I.expand(x)
            if I.vname(x) in ('Err', 'None'):
                return Adt(t, x.var, x.f)
            out.append(x.f[0])
        inner = collect(I, It('list', tuple(out)), T['args'][0])
        return Adt(t, I.p.variant(t, 'Ok' if p.endswith('Result') else 'Some'), (inner,))
    if T['k'] == 'tuple' and not T['to']:
        drain(I, it)
        return UNIT
    raise Unsupported('collect into %s' % T['s'])


# ---------------------------------------------------------------- strings

@m('String::new', 'String::with_capacity')
def string_new(I, c):
    return string(Str(''))


@m('String::push_str', 'String::push', 'AddAssign::add_assign', 'Write::write_str', 'Write::write_char')
def push_str(I, c):
    v = I.load(c.args[0])
    if c.tk == 'AddAssign::add_assign' and not (isinstance(v, Obj) and v.k == 'String'):
        if isinstance(v, int) and isinstance(I.res(c.args[1]), int):
            cc, p = I.deref(c.args[0])
            I.write(cc, p, v + I.res(c.args[1]))
            return UNIT
        raise Unsupported('add_assign')
    x = I.res(c.args[1])
    x = Str(chr(x)) if isinstance(x, int) else I.strval(x)
    cc, p = seqloc(I, c.args[0])
    old = I.read(cc, p)
    I.write(cc, p, str_concat(I, [old, x]))
    if c.tk and c.tk.startswith('Write::'):
        return I.result(ok=UNIT, ty=c.rt)
    return UNIT


@m('Add::add')
def add(I, c):
    a, b = I.strval(c.args[0]), I.strval(c.args[1])
    if a is not None and b is not None:
        return string(str_concat(I, [a, b]))
    a, b = I.res(c.args[0]), I.res(c.args[1])
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    raise Unsupported('Add::add')


def pattern_re(I, pat):
    """a string pattern (char, &str) as text"""
    pat = I.strip(pat)
    if isinstance(pat, int):
        return chr(pat)
    s = I.strval(pat)
    if isinstance(s, Str):
        return s.s
    raise Unsupported('string pattern %r' % (pat,))


def quote(s):
    return ''.join('\\x{%x}' % ord(ch) for ch in s)


@m('<impl str>::starts_with', '<impl str>::ends_with', '<impl str>::contains')
def str_has(I, c):
    s = I.strval(c.args[0])
    t = pattern_re(I, c.args[1])
    n = c.np.split('::')[-1]
    if isinstance(s, Str):
        return int({'starts_with': s.s.startswith(t), 'ends_with': s.s.endswith(t), 'contains': t in s.s}[n])
    if I.is_path(s):
        I.alpha_for(t)
        r = {'starts_with': '^%s.*$', 'ends_with': '^.*%s$', 'contains': '^.*%s.*$'}[n] % quote(t)
        return int(I.split_lang(R.dfa_of(R.rx(r), I.alpha), (n, t)))
    if isinstance(s, Sym) and s.k == 'cap':
        I.alpha_for(t)
        r = {'starts_with': '^%s.*$', 'ends_with': '^.*%s$', 'contains': '^.*%s.*$'}[n] % quote(t)
        v = I.split_cap(s, R.dfa_of(R.rx(r), I.alpha), (n, s.a, t))
        if v is not None:
            return int(v)
    return int(bool(I.assume((n, I.snap(s), t), 2)))


def pieces(I, s, sep, limit=None, back=False):
    """the parts of a string between separators (at most `limit`), from the front or the back"""
    st = I.p.tbys.get('str')
    if isinstance(s, Str):
        if limit is None:
            out = s.s.split(sep)
        else:
            out = s.s.rsplit(sep, limit - 1) if back else s.s.split(sep, limit - 1)
        out = [Str(x) for x in out]
    elif I.is_path(s) and len(sep) == 1:
        I.alpha_for(sep)
        q = quote(sep)
        n = 1
        while True:
            full = limit is not None and n == limit
            one = '([^%s]*)' % q
            if full:
                r = '^(.*)%s$' % ((q + one) * (n - 1)) if back else '^%s(.*)$' % ((one + q) * (n - 1))
            else:
                r = '^%s$' % (one + (q + one) * (n - 1))
            if I.split_lang(R.dfa_of(R.rx(r), I.alpha), ('pieces', sep, n)):
                break
            n += 1
            if n > 6:
                raise Unsupported('a path of many pieces')
        out = [s] if n == 1 else [Sym('cap', (r, False, i + 1), st) for i in range(n)]
    else:
        n = I.assume(('pieces', I.snap(s), sep), 4) + 1
        if n > 3:
            raise Unsupported('a text of many pieces')
        n = min(n, limit or n)
        out = [s] if n == 1 else [Sym('piece', (I.snap(s), sep, limit, back, i, n), st) for i in range(n)]
    return out


@m('<impl str>::split', '<impl str>::rsplit', '<impl str>::splitn', '<impl str>::rsplitn', '<impl str>::split_once',
   '<impl str>::rsplit_once', '<impl str>::split_terminator')
def str_split(I, c):
    s = I.strval(c.args[0])
    n = c.np.split('::')[-1]
    if s is None or not isinstance(s, Str) and not (I.is_path(s) or s.k in ('cap', 'query', 'piece')):
        return NotImplemented
    limit = None
    if n in ('splitn', 'rsplitn'):
        limit = I.res(c.args[1])
        if not isinstance(limit, int):
            return NotImplemented
        if limit == 0:
            return It('list', ())
    try:
        sep = pattern_re(I, c.args[-1])
    except Unsupported:
        return NotImplemented
    if not sep:
        return NotImplemented
    back = n.startswith('r')
    if n.endswith('once'):
        out = pieces(I, s, sep, 2, back)
        if len(out) < 2:
            return I.option(None, ty=c.rt)
        return I.option(Tup(tuple(Ref(Cell(x)) for x in out)), ty=c.rt)
    out = pieces(I, s, sep, limit, back)
    if n == 'split_terminator' and I.eq(out[-1], Str('')):
        out = out[:-1]
    if back:
        out = out[::-1]
    return It('list', tuple(Ref(Cell(x)) for x in out))


@m('<impl str>::to_string', '<impl str>::to_lowercase', '<impl str>::to_uppercase', '<impl str>::to_ascii_lowercase',
   '<impl str>::to_ascii_uppercase', '<impl str>::trim', '<impl str>::trim_end', '<impl str>::trim_start',
   '<impl str>::trim_matches', '<impl str>::trim_end_matches', '<impl str>::trim_start_matches',
   '<impl str>::trim_left_matches', '<impl str>::trim_right_matches', '<impl str>::replace',
   '<impl str>::trim_left', '<impl str>::trim_right')
def str_fun(I, c):
    s = I.strval(c.args[0])
    n = c.np.split('::')[-1]
    rest = tuple(I.snap(a) for a in c.args[1:])
    if isinstance(s, Str):
        t = [pattern_re(I, a) for a in c.args[1:]]
        f = {'to_string': lambda x: x, 'to_lowercase': str.lower, 'to_uppercase': str.upper,
             'to_ascii_lowercase': str.lower, 'to_ascii_uppercase': str.upper, 'trim': str.strip,
             'trim_end': str.rstrip, 'trim_start': str.lstrip, 'trim_left': str.lstrip, 'trim_right': str.rstrip,
             'replace': lambda x: x.replace(*t)}
        if n in f:
            r = Str(f[n](s.s))
        else:
            raise Unsupported(n)
    else:
        r = Sym('str::' + n, (I.snap(s),) + rest, I.p.tbys.get('str'))
    T = I.p.ty(c.rt)
    return string(r) if T and T.get('path') == 'alloc::string::String' else Ref(Cell(r))


@m('Chunk::into_bytes', 'Bytes::to_vec', 'BytesMut::freeze', 'Chunk::to_vec')
def bytes_same(I, c):
    v = I.strip(c.args[0])
    if is_bytes(I, v) or isinstance(v, (Obj, Arr)):
        return v
    return I.mksym(c.np, (I.snap(v),), c.rt)


@m('String::into_boxed_str', 'String::into_bytes', 'Cow::into_owned', 'Cow::to_mut', 'Vec::into_boxed_slice')
def into_owned(I, c):
    v = I.res(c.args[0])
    if c.np.endswith('to_mut'):
        cc, p = I.deref(v)
        x = I.expand(I.read(cc, p)) if isinstance(I.read(cc, p), Sym) else I.read(cc, p)
        if I.vname(x) == 'Borrowed':
            y = I.load(x.f[0])
            y = vec(y.f) if isinstance(y, Arr) else string(y)
            I.write(cc, p, Adt(x.ty, I.p.variant(x.ty, 'Owned'), (y,)))
        return Ref(cc, p + (0,))
    if c.np.endswith('into_owned'):
        if isinstance(v, Sym):
            v = I.expand(v)
        x = v.f[0]
        if I.vname(v) == 'Borrowed':
            y = I.load(x)
            if isinstance(y, Arr):
                return vec(y.f)
            s = I.strval(y)
            return string(s) if s is not None else y
        return x
    if c.np.endswith('into_bytes'):
        return Obj('Vec', v.f[0]) if isinstance(v, Obj) else v
    return Ptr('Box', Cell(v.f[0]))


# ---------------------------------------------------------------- formatting

@m('Argument::new_display', 'Argument::new_debug', 'Argument::new_lower_hex', 'Argument::from_usize',
   'Argument::new_upper_hex')
def fmt_arg(I, c):
    k = c.np.split('::')[-1].replace('new_', '')
    return Obj('FmtArg', k, c.args[0], c.at[0] if c.at else None)


@m('Arguments::new')
def fmt_args(I, c):
    t = I.load(c.args[0])
    if isinstance(t, Arr):
        b = [I.res(x) for x in t.f]
    else:
        raise Unsupported('format template %r' % (t,))
    args = I.load(c.args[1])
    args = args.f if isinstance(args, Arr) else ()
    parts = []
    i = 0
    n = 0
    while i < len(b):
        x = b[i]
        i += 1
        if x == 0:
            break
        if x < 0x80:
            parts.append(bytes(b[i:i + x]).decode())
            i += x
        elif x == 0x80:
            ln = b[i] | b[i + 1] << 8
            parts.append(bytes(b[i + 2:i + 2 + ln]).decode())
            i += 2 + ln
        else:
            opts = ''
            if x != 0xC0:
                opts = 'opts'
                if x & 1:
                    i += 4
                if x & 2:
                    i += 2
                if x & 4:
                    i += 2
                if x & 8:
                    n = b[i] | b[i + 1] << 8
                    i += 2
                    opts = '' if (x & 0x37) == 0 else 'opts'
            parts.append((opts, args[n]))
            n += 1
    return Obj('Args', tuple(parts))


@m('Arguments::from_str', 'Arguments::new_const', 'Arguments::from_str_nonconst')
def fmt_const(I, c):
    x = I.load(c.args[0])
    if isinstance(x, Arr):
        return Obj('Args', tuple(I.strval(y).s for y in x.f))
    return Obj('Args', (x.s,))


def render(I, a):
    """parts of a formatted message: strings and ('display', term)"""
    a = I.strip(a)
    if not (isinstance(a, Obj) and a.k == 'Args'):
        return (('args', I.snap(a)),)
    out = []
    for p in a.f[0]:
        if isinstance(p, str):
            out.append(p)
            continue
        opts, arg = p
        kind, ref = arg.f[0], arg.f[1]
        v = I.strip(ref)
        if isinstance(v, Obj) and v.k == 'Args' and kind == 'display':
            out.extend(render(I, v))
            continue
        s = I.strval(v)
        if isinstance(s, Str) and kind == 'display' and not opts:
            out.append(s.s)
        else:
            out.append((opts + kind, I.snap(v)))
    merged = []
    for x in out:
        if isinstance(x, str) and merged and isinstance(merged[-1], str):
            merged[-1] += x
        else:
            merged.append(x)
    return tuple(merged)


@m('Formatter::write_fmt', 'Formatter::write_str', 'Formatter::pad', 'Display::fmt', 'Write::write_fmt',
   'Formatter::write_char')
def fmt_write(I, c):
    if c.tk == 'Display::fmt':
        tgt = c.args[1]
        parts = (('display', I.snap(c.args[0])),)
        s = I.strval(c.args[0])
        if isinstance(s, Str):
            parts = (s.s,)
    else:
        tgt = c.args[0]
        if c.np.endswith(('write_str', 'pad')):
            s = I.strval(c.args[1])
            parts = (s.s,) if isinstance(s, Str) else (('display', I.snap(c.args[1])),)
        elif c.np.endswith('write_char'):
            parts = (chr(c.args[1]),)
        else:
            parts = render(I, c.args[1])
    t = I.strip(tgt)
    if isinstance(t, Obj) and t.k == 'String':
        cc, p = seqloc(I, tgt)
        add = [Str(x) if isinstance(x, str) else Sym('display', x, I.p.tbys.get('str')) for x in parts]
        I.write(cc, p, str_concat(I, [I.read(cc, p)] + add))
        return I.result(ok=UNIT, ty=c.rt)
    I.event('write', parts)
    if I.choose(2, 'fmt error') == 0:
        return I.result(ok=UNIT, ty=c.rt)
    I.event('write-failed')
    return I.result(err=Sym('fmt::Error', (), None), ty=c.rt)


@m('fmt::format')
def fmt_format(I, c):
    parts = render(I, c.args[0])
    return string(str_concat(I, [Str(x) if isinstance(x, str) else Sym('display', x, I.p.tbys.get('str'))
                                 for x in parts]))


# ---------------------------------------------------------------- lazy statics

def lazy_once(I, key, init):
    if key not in I.lazies:
        I.lazies[key] = Cell(init())
    return I.lazies[key]


@m('Lazy::get')
def lazy_get(I, c):
    r = I.res(c.args[0])
    key = ('lazy', r.c.tag or id(r.c), r.p) if isinstance(r, Ref) else ('lazy', repr(r))
    return Ref(lazy_once(I, key, lambda: call(I, c.args[1])))


@m('OnceLock::new', 'OnceCell::new')
def once_new(I, c):
    return Obj('Once')


@m('OnceLock::get_or_init', 'OnceCell::get_or_init')
def once_get(I, c):
    r = I.res(c.args[0])
    key = ('once', r.c.tag or id(r.c), r.p)
    return Ref(lazy_once(I, key, lambda: call(I, c.args[1])))


@m('LazyLock::new')
def lazylock_new(I, c):
    return Obj('Lazy', c.args[0])


def lazy_force(I, v):
    return Ref(lazy_once(I, ('lazylock', v), lambda: call(I, v.f[0])))


@m('LazyLock::force')
def lazylock_force(I, c):
    return lazy_force(I, I.load(c.args[0]))


# ---------------------------------------------------------------- regexes

def try_rx(text, icase=False):
    try:
        return R.rx(text, icase)
    except R.RxError:
        return None


def rx_dfa(I, text, icase=False):
    return R.dfa_of(R.rx(text, icase), I.alpha)


def matches(I, text, icase, s, label=None):
    s = I.strval(s)
    if isinstance(s, Str):
        I.alpha_for(s.s)
        if any(ch not in I.alpha.of for ch in s.s):
            raise Unsupported('character outside of the path alphabet')
        return rx_dfa(I, text, icase).accepts(s.s)
    if I.is_path(s):
        return I.split_lang(rx_dfa(I, text, icase), ('match', text))
    if isinstance(s, Sym) and s.k == 'cap':
        v = I.split_cap(s, rx_dfa(I, text, icase), ('match', s.a, text))
        if v is not None:
            return v
    return bool(I.assume(('rx', text, I.snap(s)), 2))


@m('RegexSet::new', 'RegexSetBuilder::build')
def regexset_new(I, c):
    if c.np.endswith('build'):
        b = I.strip(c.args[0])
        texts, ic = list(b.f[0]), b.f[1]
    else:
        texts = []
        for x in drain(I, iter_of(I, c.args[0])):
            s = I.strval(x)
            if not isinstance(s, Str):
                raise Unsupported('pattern %r' % (x,))
            texts.append(s.s)
        ic = False
    for t in texts:
        if try_rx(t, ic) is None:
            I.event('bad-regex', t)
            return I.result(err=Sym('regex::Error', (t,)), ty=c.rt)
    return I.result(ok=Obj('RegexSet', tuple(texts), ic), ty=c.rt)


@m('RegexSetBuilder::new', 'RegexBuilder::new')
def regexset_builder(I, c):
    if 'Set' in c.np:
        return Obj('RxB', tuple(I.strval(x).s for x in drain(I, iter_of(I, c.args[0]))), False)
    return Obj('RxB', I.strval(c.args[0]).s, False)


@m('RegexSetBuilder::case_insensitive', 'RegexBuilder::case_insensitive')
def rx_icase(I, c):
    cc, p = I.deref(c.args[0])
    v = I.read(cc, p)
    I.write(cc, p, Obj('RxB', v.f[0], bool(c.args[1])))
    return c.args[0]


@m('RegexSetBuilder::size_limit', 'RegexBuilder::size_limit', 'RegexSetBuilder::dfa_size_limit',
   'RegexBuilder::dfa_size_limit', 'RegexSetBuilder::unicode', 'RegexBuilder::unicode')
def rx_limit(I, c):
    return c.args[0]


@m('Regex::new', 'RegexBuilder::build')
def regex_new(I, c):
    if c.np.endswith('build'):
        b = I.strip(c.args[0])
        t, ic = b.f
    else:
        s = I.strval(c.args[0])
        if not isinstance(s, Str):
            raise Unsupported('pattern %r' % (s,))
        t, ic = s.s, False
    if try_rx(t, ic) is None:
        I.event('bad-regex', t)
        return I.result(err=Sym('regex::Error', (t,)), ty=c.rt)
    return I.result(ok=Obj('Regex', t, ic), ty=c.rt)


@m('RegexSet::matches')
def regexset_matches(I, c):
    rs = I.strip(c.args[0])
    return Obj('SetMatches', tuple(matches(I, t, rs.f[1], c.args[1]) for t in rs.f[0]))


@m('RegexSet::is_match')
def regexset_is_match(I, c):
    rs = I.strip(c.args[0])
    return int(any(matches(I, t, rs.f[1], c.args[1]) for t in rs.f[0]))


@m('RegexSet::len', 'SetMatches::len')
def regexset_len(I, c):
    return len(I.strip(c.args[0]).f[0])


@m('SetMatches::matched_any')
def sm_any(I, c):
    return int(any(I.strip(c.args[0]).f[0]))


@m('SetMatches::matched')
def sm_matched(I, c):
    f = I.strip(c.args[0]).f[0]
    i = I.res(c.args[1])
    if i >= len(f):
        raise RustPanic('SetMatches::matched out of range')
    return int(f[i])


@m('Regex::is_match')
def regex_is_match(I, c):
    r = I.strip(c.args[0])
    return int(matches(I, r.f[0], r.f[1], c.args[1]))


@m('Regex::captures')
def regex_captures(I, c):
    r = I.strip(c.args[0])
    if matches(I, r.f[0], r.f[1], c.args[1]):
        return I.option(Obj('Captures', r.f[0], r.f[1], I.strval(c.args[1])), ty=c.rt)
    return I.option(None, ty=c.rt)


@m('Regex::captures_len')
def regex_captures_len(I, c):
    r = I.strip(c.args[0])
    return R.rx(r.f[0], r.f[1]).ngroups + 1


@m('Regex::as_str')
def regex_as_str(I, c):
    return Ref(Cell(Str(I.strip(c.args[0]).f[0])))


def captures_get(I, x, i):
    """the captured text of a group, or None if it took no part"""
    text, ic, s = x.f
    r = R.rx(text, ic)
    i = I.strip(i) if isinstance(i, V) else i
    if isinstance(i, Str):
        i = i.s
    if isinstance(i, str):
        if i not in r.names:
            return None
        i = r.names[i] if isinstance(r.names, dict) else r.names.index(i)
    if isinstance(i, Sym):
        raise Unsupported('symbolic group')
    if i > r.ngroups:
        return None
    if not r.group_always(i):
        if not I.assume(('group', text, i, I.snap(s)), 2):
            return None
    if I.is_path(s):
        if i == 0:
            return s
        return Sym('cap', (text, ic, i), I.p.tbys.get('str'))
    return Sym('cap-of', (text, i, I.snap(s)), I.p.tbys.get('str'))


@m('Captures::get', 'Captures::name')
def cap_get(I, c):
    x = I.strip(c.args[0])
    v = captures_get(I, x, I.res(c.args[1]))
    if v is None:
        return I.option(None, ty=c.rt)
    return I.option(Obj('Match', v), ty=c.rt)


@m('Captures::len')
def cap_len(I, c):
    x = I.strip(c.args[0])
    return R.rx(x.f[0], x.f[1]).ngroups + 1


@m('Captures::iter')
def cap_iter(I, c):
    x = I.strip(c.args[0])
    out = []
    for i in range(R.rx(x.f[0], x.f[1]).ngroups + 1):
        v = captures_get(I, x, i)
        out.append(I.option(None if v is None else Obj('Match', v)))
    return It('list', tuple(out))


@m('Match::as_str')
def match_as_str(I, c):
    return Ref(Cell(I.strip(c.args[0]).f[0]))


def match_pos(I, c, k):
    v = I.strip(c.args[0]).f[0]
    if isinstance(v, Sym) and v.k == 'cap':
        return Sym(k, (v,), c.rt)
    raise Unsupported('position of a match')


@m('Match::start')
def match_start(I, c):
    return match_pos(I, c, 'match_start')


@m('Match::end')
def match_end(I, c):
    return match_pos(I, c, 'match_end')


@m('Match::range')
def match_range(I, c):
    v = I.strip(c.args[0]).f[0]
    if isinstance(v, Sym) and v.k == 'cap':
        u = I.p.tbys.get('usize')
        return Adt(c.rt, 0, [Sym('match_start', (v,), u), Sym('match_end', (v,), u)])
    raise Unsupported('position of a match')


# ---------------------------------------------------------------- http, hyper

@m('Uri::path')
def uri_path(I, c):
    u = I.strip(c.args[0])
    if isinstance(u, Sym) and u.k == 'uri':
        return Ref(Cell(Sym('path', (), I.p.tbys.get('str'))))
    if isinstance(u, Sym) and u.k == 'uri_default':
        return Ref(Cell(Str('/')))
    return Ref(Cell(Sym('path_of', (I.snap(u),), I.p.tbys.get('str'))))


def query(I, c):
    if I.assume(('has-query',), 2, ('has-query',)) == 0:
        return I.option(Ref(Cell(Sym('query', (), I.p.tbys.get('str')))), ty=c.rt)
    return I.option(None, ty=c.rt)


@m('Uri::query')
def uri_query(I, c):
    u = I.strip(c.args[0])
    if isinstance(u, Sym) and u.k == 'uri_default':
        return I.option(None, ty=c.rt)
    if isinstance(u, Sym) and u.k == 'uri':
        return query(I, c)
    return I.mksym('query_of', (I.snap(u),), c.rt)


@m('PathAndQuery::path')
def paq_path(I, c):
    q = I.strip(c.args[0])
    if isinstance(q, Obj) and q.k == 'PathAndQuery':
        return Ref(Cell(Sym('path', (), I.p.tbys.get('str'))))
    return Ref(Cell(Sym('path_of', (I.snap(q),), I.p.tbys.get('str'))))


@m('PathAndQuery::query')
def paq_query(I, c):
    q = I.strip(c.args[0])
    if isinstance(q, Obj) and q.k == 'PathAndQuery':
        return query(I, c)
    return I.mksym('query_of', (I.snap(q),), c.rt)


@m('Uri::path_and_query', 'Uri::path_and_query_part')
def uri_paq(I, c):
    u = I.strip(c.args[0])
    if isinstance(u, Sym) and u.k == 'uri':
        # a URI of an authority alone has neither, and its path is empty
        if I.str_eq(Sym('path', (), I.p.tbys.get('str')), Str('')):
            return I.option(None, ty=c.rt)
        return I.option(Ref(Cell(Obj('PathAndQuery', (u,)))), ty=c.rt)
    return I.mksym('path_and_query', (I.snap(c.args[0]),), c.rt)


@m('Uri::host', 'Uri::authority', 'Uri::scheme_str', 'Uri::scheme', 'Uri::authority_part', 'Uri::scheme_part',
   'Uri::port', 'Uri::port_u16')
def uri_part(I, c):
    return I.mksym(c.np.split('::')[-1], (I.snap(c.args[0]),), c.rt)


def is_method(I, v):
    return isinstance(v, (Adt, Sym)) and (I.p.tpath(v.ty) == 'http::method::Method' or
                                          isinstance(v, Sym) and v.k == 'inner_method')


@m('Method::as_str')
def method_as_str(I, c):
    v = I.strip(c.args[0])
    if isinstance(v, Sym) and v.k != 'inner_method':
        v = I.expand(v)
    n = I.method_name(v)
    if n and not n.startswith('EXTENSION'):
        return Ref(Cell(Str(n)))
    return Ref(Cell(Sym('method_str', (I.snap(v),), I.p.tbys.get('str'))))


@m('StatusCode::as_u16')
def status_u16(I, c):
    v = I.strip(c.args[0])
    return I.proj(v, 0)


@m('StatusCode::as_str', 'StatusCode::canonical_reason')
def status_str(I, c):
    return I.mksym(c.np.split('::')[-1], (I.snap(c.args[0]),), c.rt)


@m('StatusCode::from_u16')
def status_from(I, c):
    v = I.res(c.args[0])
    T = I.p.ty(c.rt)
    if isinstance(v, int):
        if 100 <= v < 600:
            return I.result(ok=Adt(T['args'][0], 0, (v,)), ty=c.rt)
        return I.result(err=Sym('InvalidStatusCode'), ty=c.rt)
    return I.mksym('status', (I.snap(v),), c.rt)


@m('Body::empty')
def body_empty(I, c):
    return Sym('Body::empty', (), c.rt)


@m('HttpTryFrom::try_from')
def http_try_from(I, c):
    T = I.p.ty(c.rt)
    t = T['args'][0]
    p = tp(I, t) or ''
    v = I.res(c.args[0])
    name = p.split('::')[-1]
    x = I.strip(v)
    if name in ('StatusCode', 'Method', 'HeaderName', 'HeaderValue', 'Uri', 'HeaderMap') and \
            isinstance(x, (Adt, Sym, Obj)) and I.strval(x) is None and not isinstance(x, int):
        xt = x.ty if isinstance(x, (Adt, Sym)) else None
        if xt is None or tp(I, xt) == p:
            return I.result(ok=x, ty=c.rt)
    if name == 'HeaderValue':
        s = I.strval(v)
        if s is not None:
            bad = isinstance(s, Str) and any(ord(ch) < 32 and ch != '\t' or ord(ch) == 127 for ch in s.s)
            if bad:
                return I.result(err=Sym('InvalidHeaderValue'), ty=c.rt)
            ok = isinstance(s, Str) or tok_safe(s)
            if not ok and I.assume(('header-ok', I.snap(s)), 2):
                return I.result(err=Sym('InvalidHeaderValue'), ty=c.rt)
            return I.result(ok=Obj('HeaderValue', s), ty=c.rt)
    if name == 'HeaderName':
        s = I.strval(v)
        if isinstance(s, Str):
            return I.result(ok=Obj('HeaderName', s.s.lower()), ty=c.rt)
    if name == 'StatusCode' and isinstance(x, int):
        if 100 <= x < 600:
            return I.result(ok=Adt(t, 0, (x,)), ty=c.rt)
        return I.result(err=Sym('InvalidStatusCode'), ty=c.rt)
    if c.inst and c.inst['body']:
        return NotImplemented
    return I.mksym('try_from', (I.snap(v), T['s']), c.rt)


def tok_safe(s):
    """texts that can be part of a header value: known text and names of methods"""
    if isinstance(s, Str):
        return True
    if isinstance(s, Sym):
        if s.k == 'method_str':
            return True
        if s.k == 'concat':
            return all(tok_safe(x) for x in s.a[0])
        if s.k == 'as_str':
            return True
    return False


@m('HeaderValue::from_static', 'HeaderValue::from_str', 'HeaderValue::from_shared', 'HeaderValue::from_bytes')
def hv_from(I, c):
    s = I.strval(c.args[0])
    if s is None:
        s = I.strip(c.args[0])
    if c.np.endswith('static'):
        return Obj('HeaderValue', s)
    if not (isinstance(s, Str) or tok_safe(s)) and I.assume(('header-ok', I.snap(s)), 2):
        return I.result(err=Sym('InvalidHeaderValue'), ty=c.rt)
    return I.result(ok=Obj('HeaderValue', s), ty=c.rt)


def hname(I, v):
    v = I.strip(v)
    if isinstance(v, Obj) and v.k == 'HeaderName':
        return v.f[0]
    s = I.strval(v)
    if isinstance(s, Str):
        return s.s.lower()
    sn = repr(I.snap(v))
    import re
    mm = re.findall(r"'StandardHeader', '(\w+)'|StandardHeader#?\w*'?, '(\w+)'", sn)
    if isinstance(v, Adt):
        x = v
        while isinstance(x, Adt) and x.f:
            x = I.res(x.f[0])
        if isinstance(x, Adt):
            n = I.vname(x)
            return re.sub(r'(?<=[a-z])(?=[A-Z])', '-', n).lower()
    return sn


@m('HeaderMap::append', 'HeaderMap::insert')
def hm_append(I, c):
    cc, p = I.deref(c.args[0])
    h = I.read(cc, p)
    if isinstance(h, Sym):
        h = Obj('HeaderMap', (('*', h),))
    n = hname(I, c.args[1])
    items = h.f[0]
    had = any(a == n for a, _ in items)
    if c.np.endswith('insert'):
        items = tuple(x for x in items if x[0] != n)
    I.write(cc, p, Obj('HeaderMap', items + ((n, c.args[2]),)))
    T = I.p.ty(c.rt)
    if T and T['k'] == 'bool':
        return int(had) if had or not any(a == '*' for a, _ in items) else I.mksym('header_contains_key', (I.snap(h), n), c.rt)
    return I.option(None, ty=c.rt) if not had and not any(a == '*' for a, _ in items) else I.mksym('old_header', (I.snap(h), n), c.rt)


@m('HeaderMap::get', 'HeaderMap::contains_key', 'HeaderMap::remove')
def hm_get(I, c):
    h = I.strip(c.args[0])
    n = hname(I, c.args[1])
    if isinstance(h, Obj):
        for a, b in h.f[0]:
            if a == n:
                if c.np.endswith('contains_key'):
                    return 1
                if c.np.endswith('remove'):
                    cc, p = I.deref(c.args[0])
                    I.write(cc, p, Obj('HeaderMap', tuple(x for x in h.f[0] if x[0] != n)))
                    return I.option(b, ty=c.rt)
                return I.option(Ref(Cell(b)), ty=c.rt)
        if not any(a == '*' for a, _ in h.f[0]):
            return 0 if c.np.endswith('contains_key') else I.option(None, ty=c.rt)
    k = c.np.split('::')[-1]
    v = I.mksym('header_' + k, (I.snap(h), n), c.rt)
    if k == 'remove':
        cc, p = I.deref(c.args[0])
        I.write(cc, p, Obj('HeaderMap', (('*', Sym('headers_without', (I.snap(h), n))),)))
    return v


# ---------------------------------------------------------------- deserialisation

@m('de::from_str', 'de::from_bytes', 'de::from_slice', 'de::from_reader', 'serde_urlencoded::from_str',
   'serde_urlencoded::from_bytes', 'serde_json::from_slice', 'serde_json::from_str')
def deser(I, c):
    v = I.strip(c.args[0])
    s = I.strval(v)
    kind = c.crate
    if kind not in ('serde_urlencoded', 'serde_json'):
        return NotImplemented
    T = I.p.ty(c.rt)
    return I.mksym('deser', (kind, I.p.tstr(T['args'][0]), I.snap(s if s is not None else v)), c.rt)


@m('Deserialize::deserialize')
def deserialize(I, c):
    """one value read from a deserializer over known input; whether more input follows is up to end()"""
    d = I.res(I.strip(c.args[0]))
    if not (isinstance(d, Sym) and d.k == 'call' and str(d.a[0]).endswith('Deserializer::from_slice') and
            'serde_json' in str(d.a[0])):
        return NotImplemented
    t = I.p.tstr(I.p.ty(c.rt)['args'][0])
    I.event('deserialize', I.snap(d))
    return I.mksym('deser_prefix', ('serde_json', t, I.snap(d)), c.rt)


@m('Deserializer::end')
def deserializer_end(I, c):
    d = I.res(I.strip(c.args[0]))
    if not (isinstance(d, Sym) and d.k == 'call'):
        return NotImplemented
    I.event('deserializer-end', I.snap(d))
    t = I.p.ty(c.rt)
    return Sym('deser_end', (I.snap(d),), c.rt) if t else NotImplemented


# ---------------------------------------------------------------- errors and Any

def is_type(I, v, t):
    """whether the value behind a trait object is of type t (splits the state)"""
    want = I.p.tstr(t)
    v = I.res(v)
    if isinstance(v, Adt):
        return I.p.tstr(v.ty) == want
    if isinstance(v, Sym) and v.ty is not None and I.p.ty(v.ty)['k'] != 'dyn':
        return I.p.tstr(v.ty) == want
    if isinstance(v, Sym) and v.k == 'StringError':
        return False
    if isinstance(v, (Str, Obj, int, Clo, Tup)):
        return isinstance(v, Str) and want == '&str' or isinstance(v, Obj) and v.k == 'String' and \
            want == 'alloc::string::String'
    key = ('is', I.snap(v), want)
    return bool(I.assume(key, 2, key))


def downcast_loc(I, c):
    """place of the trait object the downcast method is called on, and the type asked for"""
    t = [a for a in c.targs]
    if c.inst and c.inst['args']:
        t = c.inst['args']
    t = t[-1]
    a = I.res(c.args[0])
    cc, p = I.deref(a)
    v = I.read(cc, p)
    while isinstance(v, Ptr) or (isinstance(v, Sym) and v.ty is not None and
                                 tp(I, v.ty) == 'alloc::boxed::Box'):
        cc, p = I.deref(v)
        v = I.read(cc, p)
    return cc, p, v, t


def as_type(I, cc, p, v, t):
    """gives an opaque trait object the type it turned out to have"""
    v = I.read(cc, p)
    if isinstance(v, Sym) and (v.ty is None or I.p.ty(v.ty)['k'] == 'dyn'):
        h = getattr(I, 'materialize', None)
        w = h(I, v, t) if h else None
        if w is None:
            w = Sym('as', (v, I.p.tstr(t)), t)
        I.subst[v] = w
        I.write(cc, p, w)


DC = ['<impl (dyn core::error::Error + core::marker::Send + core::marker::Sync + \'static)>',
      '<impl (dyn core::error::Error + core::marker::Send + core::marker::Sync)>']


def downcast_any(I, c):
    n = c.np.split('::')[-1]
    if n == 'downcast':
        a = I.res(c.args[0])
        cc, p = I.deref(a)
        v = I.read(cc, p)
        t = (c.inst['args'] if c.inst and c.inst['args'] else c.targs)[-1]
        if isinstance(a, Sym):
            a = Ptr('Box', cc)
        if is_type(I, v, t):
            as_type(I, cc, p, v, t)
            return I.result(ok=Ptr('Box', cc, t), ty=c.rt)
        return I.result(err=a, ty=c.rt)
    cc, p, v, t = downcast_loc(I, c)
    r = is_type(I, v, t)
    if n == 'is':
        return int(r)
    if not r:
        return I.option(None, ty=c.rt)
    as_type(I, cc, p, v, t)
    return I.option(Ref(cc, p), ty=c.rt)


@m('catch_unwind::catch_unwind', 'panic::catch_unwind', 'panicking::catch_unwind')
def std_catch_unwind(I, c):
    try:
        v = call(I, c.args[0])
    except RustPanic as e:
        I.depth = 0
        p = e.payload if e.payload is not None else Sym('payload', (e.msg,))
        I.event('caught', I.snap(p))
        return I.result(err=Ptr('Box', Cell(p)), ty=c.rt)
    return I.result(ok=v, ty=c.rt)


@m('panic::resume_unwind')
def resume_unwind(I, c):
    v = I.strip(c.args[0])
    raise RustPanic('resumed', v)


# ---------------------------------------------------------------- tokio

@m('blocking::blocking', 'tokio_threadpool::blocking', 'blocking::blocking_impl', 'global::blocking')
def tokio_blocking(I, c):
    if c.crate != 'tokio_threadpool':
        return NotImplemented
    n = I.memo.setdefault('blocking-count', 0)
    I.memo['blocking-count'] = n + 1
    opts = ['ready', 'err'] + (['notready'] if n < 2 else [])
    k = opts[I.choose(len(opts), 'blocking')]
    I.event('blocking', k)
    if k == 'notready':
        waiting(I)
        return I.result(ok=I.async_(None), ty=c.rt)
    if k == 'err':
        return I.result(err=Sym('BlockingError'), ty=c.rt)
    try:
        v = call(I, c.args[0])
    finally:
        I.event('blocking-end')
    return I.result(ok=I.async_(v), ty=c.rt)


@m('Runtime::new')
def rt_new(I, c):
    I.event('runtime')
    if I.choose(2, 'runtime') == 1:
        I.event('runtime-failed')
        return I.result(err=Sym('io::Error'), ty=c.rt)
    T = I.p.ty(c.rt)
    return I.result(ok=Sym('runtime', (), T['args'][0]), ty=c.rt)


@m('Runtime::block_on', 'current_thread::block_on_all', 'Future::wait')
def rt_block_on(I, c):
    f = c.args[-1]
    I.event('block_on')
    return retype(I, drive(I, f), c.rt)


def retype(I, r, t):
    r = I.expand(r)
    if t is not None and tp(I, t) == 'core::result::Result':
        return Adt(t, I.p.variant(t, I.vname(r)), r.f)
    return r


# ---------------------------------------------------------------- futures 0.1

def Fut(kind, *f):
    return Obj('Fut', kind, *f)


def into_future(I, v):
    v = I.res(v)
    if isinstance(v, Sym):
        T = I.p.ty(v.ty)
        if T and T.get('path') == 'core::result::Result':
            return Fut('ready', v)
    if isinstance(v, Adt) and tp(I, v.ty) == 'core::result::Result':
        return Fut('ready', v)
    if isinstance(v, Adt) and tp(I, v.ty) == 'core::option::Option':
        return Fut('option', v)
    return v


@m('IntoFuture::into_future', 'result_::result', 'futures::future::result')
def into_future_m(I, c):
    return into_future(I, c.args[0])


@m('result_::ok')
def fut_ok(I, c):
    return Fut('ready', I.result(ok=c.args[0]))


@m('result_::err')
def fut_err(I, c):
    return Fut('ready', I.result(err=c.args[0]))


@m('lazy::lazy', 'poll_fn::poll_fn')
def fut_lazy(I, c):
    return Fut(c.np.split('::')[-1], Cell(c.args[0]))


@m('empty::empty_future')
def fut_empty(I, c):
    return Fut('empty')


for _n in ('map', 'map_err', 'and_then', 'or_else', 'then', 'inspect'):
    def _mk(n):
        def f(I, c):
            return Fut(n, c.args[0], Cell(c.args[1]))
        MODELS['Future::' + n] = f
    _mk(_n)


@m('Future::from_err')
def fut_from_err(I, c):
    # the conversion is given by the type parameter
    t = c.targs[-1] if c.targs else None
    return Fut('from_err', c.args[0], t)


@m('Future::catch_unwind')
def fut_catch_unwind(I, c):
    return Fut('catch_unwind', c.args[0])


@m('Future::shared')
def fut_same(I, c):
    return c.args[0]


@m('Future::fuse')
def fut_fuse(I, c):
    return Fut('fuse', c.args[0])


@m('Future::flatten')
def fut_flatten(I, c):
    return Fut('flatten', c.args[0])


@m('Future::join')
def fut_join(I, c):
    return Fut('join', c.args[0], into_future(I, c.args[1]))


# ---------------------------------------------------------------- streams (futures 0.1)

CHUNKS = 3      # pieces an opaque body is cut into at most, where the code looks at the pieces


@m('Stream::concat2', 'Stream::concat')
def stream_concat2(I, c):
    return Fut('concat2', c.args[0])


@m('Stream::map', 'Stream::map_err', 'Stream::and_then', 'Stream::filter', 'Stream::inspect', 'Stream::then',
   'Stream::or_else', 'Stream::filter_map', 'Stream::take_while', 'Stream::skip_while')
def stream_adapter(I, c):
    return Obj('Stream', c.np.split('::')[-1], c.args[0], c.args[1])


@m('Stream::from_err')
def stream_from_err(I, c):
    T = I.p.ty(c.rt)
    return Obj('Stream', 'from_err', c.args[0], T['args'][-1] if T and T.get('args') else None)


@m('Stream::fuse', 'Stream::by_ref')
def stream_same(I, c):
    return c.args[0]


@m('Stream::take', 'Stream::skip')
def stream_take(I, c):
    return Obj('Stream', c.np.split('::')[-1], c.args[0], c.args[1])


@m('Stream::fold')
def stream_fold(I, c):
    return Fut('fold', c.args[0], c.args[1], c.args[2])


@m('Stream::for_each')
def stream_for_each(I, c):
    return Fut('for_each', c.args[0], c.args[1])


@m('Stream::collect')
def stream_collect(I, c):
    return Fut('collect', c.args[0])


@m('Stream::into_future')
def stream_into_future(I, c):
    return Fut('stream_future', c.args[0])


@m('Stream::poll', 'Body::poll_data', 'Payload::poll_data')
def stream_poll(I, c):
    k, v = stream_next(I, c.args[0], True)
    if k == 'pending':
        waiting(I)
        return I.result(ok=Adt(ok_ty(I, c.rt), I.p.variant(ok_ty(I, c.rt), 'NotReady'), ()), ty=c.rt)
    if k == 'err':
        return I.result(err=v, ty=c.rt)
    return I.result(ok=I.async_(I.option(v if k == 'item' else None)), ty=c.rt)


def waiting(I):
    """something has promised to wake the task"""
    I.memo['waiting'] = I.memo.get('waiting', 0) + 1


@m('Task::notify')
def task_notify(I, c):
    waiting(I)
    return UNIT


def poll_loop(I, poll):
    """polls a future of the analysed code until it is done"""
    for _ in range(6):
        n = I.memo.get('waiting', 0)
        r = I.expand(poll())
        if I.vname(r) == 'Err':
            return I.result(err=r.f[0])
        a = I.expand(r.f[0])
        if I.vname(a) == 'Ready':
            return I.result(ok=a.f[0])
        if I.memo.get('waiting', 0) == n:
            I.event('stall')
            raise RustPanic('not ready, although nothing it waits for is pending')
        I.event('pending')
    raise Infeasible()


def ok_ty(I, t):
    return I.p.ty(t)['args'][0]


def stream_next(I, s, poll=False):
    """('item', v), ('end', None), ('err', e) or ('pending', None)"""
    s = I.res(s)
    if isinstance(s, (Ref, Ptr)):
        return stream_next(I, I.load(s), poll)
    if isinstance(s, Obj) and s.k == 'Stream':
        k, inner = s.f[0], s.f[1]
        ck = ('stream-state', id(s))
        if k in ('take', 'skip'):
            n = I.res(s.f[2])
            if not isinstance(n, int):
                raise Unsupported('stream %s' % k)
            done = I.memo.get(ck, 0)
            if k == 'take':
                I.event('truncated', n)
                if done >= n:
                    return 'end', None
            while True:
                r, v = stream_next(I, inner, poll)
                if r != 'item':
                    return r, v
                done += 1
                I.memo[ck] = done
                if k == 'take' or done > n:
                    return r, v
        if I.memo.get(ck) == 'ended':
            return 'end', None
        while True:
            if I.memo.get(('stopped', id(s))):
                return 'end', None
            r, v = stream_next(I, inner, poll)
            if r == 'pending':
                return r, v
            if k == 'map_err' and r == 'err':
                return r, call(I, s.f[2], v)
            if k == 'from_err' and r == 'err':
                return r, v if isinstance(I.res(v), Ptr) else convert(
                    I, v, v.ty if isinstance(v, (Adt, Sym)) else None, s.f[2])
            if k == 'map' and r == 'item':
                return r, call(I, s.f[2], v)
            if k == 'inspect' and r == 'item':
                call(I, s.f[2], Ref(Cell(v)))
                return r, v
            if k in ('and_then', 'or_else', 'then'):
                if r == 'end' or (k == 'and_then') != (r == 'item') and k != 'then':
                    return r, v
                a = v if k != 'then' else I.result(ok=v) if r == 'item' else I.result(err=v)
                o = I.expand(drive(I, into_future(I, call(I, s.f[2], a))))
                return ('item' if I.vname(o) == 'Ok' else 'err'), o.f[0]
            if k in ('filter', 'take_while', 'skip_while', 'filter_map') and r == 'item':
                if k in ('take_while', 'skip_while'):
                    if I.memo.get(ck) == 'skipped':
                        return r, v
                    o = I.expand(drive(I, into_future(I, call(I, s.f[2], Ref(Cell(v))))))
                    if I.vname(o) != 'Ok':
                        return 'err', o.f[0]
                    if I.truth(o.f[0]):
                        if k == 'take_while':
                            return r, v
                        continue
                    I.memo[ck] = 'ended' if k == 'take_while' else 'skipped'
                    if k == 'take_while':
                        return 'end', None
                    return r, v
                if k == 'filter':
                    if I.truth(call(I, s.f[2], Ref(Cell(v)))):
                        return r, v
                    continue
                o = I.expand(call(I, s.f[2], v))
                if o.f:
                    return r, o.f[0]
                continue
            return r, v
    if isinstance(s, Sym):
        key = ('stream', I.snap(s))
        i, p = I.memo.get(key, (0, 0))
        if i is None:
            raise Unsupported('a stream polled after its end')
        opts = ['end', 'err']
        if i < CHUNKS:
            opts.append('item')
        if poll and p < 1:
            opts.append('pending')
        ck = ('chunk', I.snap(s), i, p)
        r = opts[I.assume(ck, len(opts), ck)]
        I.event('chunk', I.snap(s), i, r)
        I.memo[key] = (i + 1, 0) if r == 'item' else (i, p + 1) if r == 'pending' else (None, 0)
        if r == 'item':
            return r, Sym('chunk', (s, i))
        if r == 'err':
            return r, Sym('body_error', (s,))
        return r, None
    raise Unsupported('stream %r' % (s,))


def stream_drain(I, s):
    """the items up to the end, or the error"""
    out = []
    while True:
        r, v = stream_next(I, s)
        if r == 'item':
            out.append(v)
        else:
            return out, (v if r == 'err' else None), r == 'err'


@m('Future::poll')
def fut_poll(I, c):
    v = I.strip(c.args[0])
    if isinstance(v, Adt) and (I.p.ty(v.ty) or {}).get('poll') is not None and c.inst and c.inst['body']:
        return NotImplemented       # implemented by the analysed code
    done = I.memo.setdefault('polled', {})
    k = I.snap(v) if isinstance(v, Sym) else id(v)
    if k in done:
        if isinstance(v, Obj) and v.k == 'Fut' and v.f[0] == 'fuse':
            return I.result(ok=I.async_(None), ty=c.rt)
        I.event('repoll', I.snap(v))
    n = I.memo.get('polls-pending', 0)
    if n < 2 and I.choose(2, ('pending', n)):
        I.memo['polls-pending'] = n + 1
        waiting(I)
        I.event('pending')
        return I.result(ok=I.async_(None), ty=c.rt)
    done[k] = v         # answers or panics now
    r = I.expand(drive(I, v))
    if I.vname(r) == 'Ok':
        return I.result(ok=I.async_(r.f[0]), ty=c.rt)
    return Adt(c.rt, I.p.variant(c.rt, 'Err'), r.f)


def drive(I, f):
    f = I.res(f)
    if isinstance(f, (Ptr, Ref)):
        return drive(I, I.load(f))
    if isinstance(f, Adt):
        p = tp(I, f.ty) or ''
        if p == 'core::result::Result':
            return f
        if p.endswith('Either'):
            return drive(I, f.f[0])
        if p.endswith('AssertUnwindSafe'):
            return drive(I, f.f[0])
        T = I.p.ty(f.ty)
        if T.get('poll') is not None:
            # a future implemented by the analysed code
            cell = Cell(f)
            return poll_loop(I, lambda: I.run_body(T['poll'], [Ref(cell)]))
        raise Unsupported('future %s' % p)
    if isinstance(f, Sym):
        return drive_opaque(I, f)
    if not (isinstance(f, Obj) and f.k == 'Fut'):
        raise Unsupported('future %r' % (f,))
    k = f.f[0]
    if k == 'ready':
        v = f.f[1]
        return drive_opaque(I, v) if isinstance(I.res(v), Sym) else v
    if k == 'option':
        o = I.expand(f.f[1])
        if not o.f:
            return I.result(ok=I.option(None))
        r = I.expand(drive(I, into_future(I, o.f[0])))
        return I.result(ok=I.option(r.f[0])) if I.vname(r) == 'Ok' else r
    if k == 'lazy':
        return drive(I, into_future(I, call(I, f.f[1])))
    if k == 'fuse':
        return drive(I, f.f[1])
    if k == 'poll_fn':
        return poll_loop(I, lambda: call(I, f.f[1]))
    if k == 'catch_unwind':
        try:
            r = drive(I, f.f[1])
        except RustPanic as e:
            p = e.payload if e.payload is not None else Sym('payload', (e.msg,))
            I.event('caught', I.snap(p))
            return I.result(err=Ptr('Box', Cell(p)))
        return I.result(ok=r)
    if k == 'concat2' and isinstance(I.res(f.f[1]), Obj):
        s = I.res(f.f[1])
        if s.k == 'Stream' and s.f[0] in ('map_err', 'from_err'):       # the same pieces
            r = I.expand(drive(I, Fut('concat2', s.f[1])))
            if I.vname(r) == 'Ok':
                return r
            return drive(I, Fut(s.f[0], Fut('ready', r), s.f[2]))
        items, e, failed = stream_drain(I, s)
        if failed:
            return I.result(err=e)
        return I.result(ok=Obj('Vec', Arr(sum((bytes_of(I, x) for x in items), ()))))
    if k == 'fold':
        acc = f.f[2]
        while True:
            r, v = stream_next(I, f.f[1])
            if r == 'end':
                return I.result(ok=acc)
            if r == 'err':
                return I.result(err=v)
            o = I.expand(drive(I, into_future(I, call(I, f.f[3], acc, v))))
            if I.vname(o) == 'Err':
                return o
            acc = o.f[0]
    if k == 'for_each':
        while True:
            r, v = stream_next(I, f.f[1])
            if r == 'end':
                return I.result(ok=UNIT)
            if r == 'err':
                return I.result(err=v)
            o = I.expand(drive(I, into_future(I, call(I, f.f[2], v))))
            if I.vname(o) == 'Err':
                return o
    if k == 'collect':
        items, e, failed = stream_drain(I, f.f[1])
        return I.result(err=e) if failed else I.result(ok=Obj('Vec', Arr(items)))
    if k == 'stream_future':
        r, v = stream_next(I, f.f[1])
        if r == 'err':
            return I.result(err=Tup((v, f.f[1])))
        return I.result(ok=Tup((I.option(v if r == 'item' else None), f.f[1])))
    if k == 'concat2':
        s = I.snap(f.f[1])
        I.event('concat2', s)
        key = ('concat2', s)
        if I.assume(key, 2, key) == 0:
            return I.result(ok=Sym('bytes', (s,)))
        return I.result(err=Sym('body_error', (s,)))
    if k == 'flatten':
        r = I.expand(drive(I, f.f[1]))
        if I.vname(r) == 'Err':
            return r
        return drive(I, into_future(I, r.f[0]))
    if k == 'join':
        a = I.expand(drive(I, f.f[1]))
        if I.vname(a) == 'Err':
            return a
        b = I.expand(drive(I, f.f[2]))
        if I.vname(b) == 'Err':
            return b
        return I.result(ok=Tup((a.f[0], b.f[0])))
    if k == 'empty':
        raise Infeasible()
    r = I.expand(drive(I, f.f[1]))
    ok = I.vname(r) == 'Ok'
    if k == 'map':
        return I.result(ok=call(I, f.f[2], r.f[0])) if ok else r
    if k == 'inspect':
        if ok:
            call(I, f.f[2], Ref(Cell(r.f[0])))
        return r
    if k == 'map_err':
        return r if ok else I.result(err=call(I, f.f[2], r.f[0]))
    if k == 'from_err':
        if ok:
            return r
        x = r.f[0]
        if isinstance(I.res(x), Ptr):
            return r
        return I.result(err=convert(I, x, x.ty if isinstance(x, (Adt, Sym)) else None, f.f[2]))
    if k == 'and_then':
        return drive(I, into_future(I, call(I, f.f[2], r.f[0]))) if ok else r
    if k == 'or_else':
        return r if ok else drive(I, into_future(I, call(I, f.f[2], r.f[0])))
    if k == 'then':
        return drive(I, into_future(I, call(I, f.f[2], r)))
    raise Unsupported('future kind %s' % k)


def drive_opaque(I, f):
    h = getattr(I, 'drive_hook', None)
    if h:
        r = h(I, f)
        if r is not None:
            return r
    T = I.p.ty(f.ty)
    item = None
    if T is not None and T['k'] == 'adt' and T['args']:
        item = T['args'][0]
    elif T is not None and T['k'] == 'ref':
        return drive(I, I.load(f))
    if T is not None and T.get('path') == 'alloc::boxed::Box':
        item = None
    if T is not None and T.get('path') == 'core::result::Result':
        sf = I.snap_sym(f)
        r = I.expand(f)
        I.event('await', sf, 'ok' if I.vname(r) == 'Ok' else 'err')
        return r
    sf = I.snap(f)
    n = 2 + (1 if I.panics_possible(f) else 0)
    key = ('await', sf)
    o = I.assume(key, n, key)
    I.event('await', sf, ('ok', 'err', 'panic')[o])
    if o == 2:
        raise RustPanic('user', Sym('payload', (sf,)))
    if o == 0:
        return I.result(ok=I.mksym('Ok', (f,), item))
    return I.result(err=Sym('Err', (f,), err_ty(I)))
