"""Trace-partitioning abstract interpreter over monomorphic MIR.

Nothing of the analysed program is executed: bodies come from the compiler's intermediate
representation (see driver/), values are provenance terms (what a value was derived from) or known
constants, the request path is a regular language, and library functions are given by transfer
functions (models.py).  Where a branch depends on something unknown the abstract state is split,
and every partition is analysed.
"""
import re as _re
import time

import rx as R
from values import *  # noqa: F401,F403
from values import UNINIT, UNIT


STOP = object()


def norm_path(p):
    """a definition path without generic arguments"""
    out = []
    depth = 0
    i = 0
    while i < len(p):
        if p.startswith('::<', i) and not p.startswith('::<impl', i) and depth == 0:
            d = 0
            j = i + 2
            while j < len(p):
                if p[j] == '<':
                    d += 1
                elif p[j] == '>' and p[j - 1] != '-':
                    d -= 1
                    if d == 0:
                        break
                j += 1
            i = j + 1
            continue
        out.append(p[i])
        i += 1
    return ''.join(out)


class Program:
    def __init__(self, j):
        self.roots = dict((a, b) for a, b in j['roots'])
        self.insts = j['insts']
        self.types = j['types']
        self.statics = j['statics']
        for x in self.insts:
            x['np'] = norm_path(x['path'])
            t = x.get('trait')
            x['tk'] = '::'.join(t.split('::')[-2:]) if t else None
        self.tbys = {t['s']: i for i, t in enumerate(self.types)}
        self.pseudo = {}
        self.dumped = len(self.types)

    def ty(self, t):
        return self.types[t] if t is not None and t >= 0 else None

    def tpath(self, t):
        T = self.ty(t)
        return T.get('path') if T else None

    def tstr(self, t):
        T = self.ty(t)
        return T['s'] if T else None

    def pseudo_ty(self, name):
        """a type made up by a model, when no type of the program is at hand"""
        if name in self.pseudo:
            return self.pseudo[name]
        vs = {'core::option::Option': [('None', 0), ('Some', 1)],
              'core::result::Result': [('Ok', 1), ('Err', 1)],
              'futures::poll::Async': [('Ready', 1), ('NotReady', 0)],
              'core::cmp::Ordering': [('Less', 0), ('Equal', 0), ('Greater', 0)]}[name]
        disc = [-1, 0, 1] if name.endswith('Ordering') else list(range(9))
        T = {'k': 'adt', 's': name, 'path': name, 'args': [], 'enum': True, 'box': False,
             'variants': [{'n': n, 'd': disc[i], 'f': [{'n': '0', 't': None}] * k}
                          for i, (n, k) in enumerate(vs)]}
        self.types.append(T)
        self.pseudo[name] = len(self.types) - 1
        return self.pseudo[name]

    def variant(self, ty, name):
        for i, v in enumerate(self.types[ty]['variants']):
            if v['n'] == name:
                return i
        raise Unsupported('no variant %s of %s' % (name, self.tstr(ty)))


class CallCtx:
    __slots__ = ('inst', 'decl', 'np', 'tk', 'self', 'args', 'at', 'rt', 'targs', 'span', 'crate')


class Partition(object):
    """The outcome of analysing one partition."""

    def __init__(self, result, run):
        self.result = result
        self.log = run.log
        self.lang = run.lang
        self.memo = run.memo
        self.subst = run.subst
        self.intdom = run.intdom
        self.unknown = run.unknown
        self.decisions = list(run.decisions[:run.pos])
        self.labels = list(run.labels)


STANDARD_METHODS = {'GET', 'HEAD', 'POST', 'PUT', 'DELETE', 'CONNECT', 'OPTIONS', 'TRACE', 'PATCH'}
TOKEN = _re.compile(r"[!#$%&'*+.^_`|~0-9A-Za-z-]+\Z")
MAX_STEPS = 400000
MAX_PARTITIONS = 20000


class Interp:
    def __init__(self, prog, alpha=None, opaque=None):
        import models
        self.p = prog
        self.opaque = opaque or (lambda I, c: False)
        self.models = models
        self.extra_sets = []
        self.covered = set()          # instances whose body was analysed
        self.steps_total = 0
        self.partitions = 0
        self.method_domain = None
        self.debug = False
        self.deadline = None
        self.mk_alpha()

    def mk_alpha(self):
        self.alpha = R.Alphabet(R.BASE_SETS + self.extra_sets)

    # ---------------------------------------------------------------- exploration
    def explore(self, fn):
        """fn(self) -> result, analysed for every partition"""
        while True:
            try:
                return self._explore(fn)
            except R.Refine as e:
                self.extra_sets.append(e.cs)
                self.mk_alpha()

    def _explore(self, fn):
        todo = [[]]
        out = []
        while todo:
            pre = todo.pop()
            self.decisions = list(pre)
            self.reset()
            try:
                try:
                    res = ('ok', fn(self))
                except RustPanic as e:
                    res = ('panic', e.msg)
                feasible = True
            except Infeasible:
                feasible = False
            except R.Refine:
                raise
            except Unsupported as e:
                res, feasible = ('unsupported', str(e)), True
            except RecursionError:
                res, feasible = ('unsupported', 'recursion'), True
            except (KeyError, IndexError, TypeError, AttributeError, ValueError) as e:
                # (a value of a shape that no transfer function expects)
                res, feasible = ('unsupported', '%s: %s' % (type(e).__name__, e)), True
                if self.debug:
                    raise
            for i in range(len(pre), self.pos):
                d, n = self.decisions[i], self.widths[i]
                for alt in range(d + 1, n):
                    todo.append(self.decisions[:i] + [alt])
            if feasible:
                part = Partition(res, self)
                part.finish = None
                out.append(part)
                self.partitions += 1
            if len(out) > MAX_PARTITIONS or (self.deadline and time.time() > self.deadline):
                if todo:
                    self.reset()
                    self.decisions = []
                    out.append(Partition(('unsupported', 'too many partitions (%d left)' % len(todo)), self))
                break
        return out

    def reset(self):
        self.pos = 0
        self.widths = []
        self.labels = []
        self.memo = {}
        self.subst = {}
        self.intdom = {}
        self.log = []
        self.unknown = []
        self.lang = R.everything(self.alpha)
        self.static_cells = {}
        self.lazies = {}
        self.symcells = {}
        self.depth = 0
        self.steps = 0
        self.seq = 0

    def choose(self, n, label=None):
        if n <= 0:
            raise Infeasible()
        if n == 1:
            return 0
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]
        else:
            d = 0
            self.decisions.append(0)
        self.pos += 1
        self.widths.append(n)
        self.labels.append((label, d))
        return d

    def assume(self, key, n, label=None):
        if key not in self.memo:
            self.memo[key] = self.choose(n, label or key)
        return self.memo[key]

    def event(self, *a):
        self.log.append(a)

    # ---------------------------------------------------------------- values
    def res(self, v):
        while isinstance(v, Sym) and v in self.subst:
            v = self.subst[v]
        return v

    def fresh(self, k='tmp', ty=None):
        self.seq += 1
        return Sym(k, (self.seq,), ty)

    def option(self, v=None, ty=None):
        if ty is None or self.p.tpath(ty) != 'core::option::Option':
            ty = self.p.pseudo_ty('core::option::Option')
        if v is None:
            return Adt(ty, self.p.variant(ty, 'None'), ())
        return Adt(ty, self.p.variant(ty, 'Some'), (v,))

    def result(self, ok=None, err=None, ty=None):
        if ty is None or self.p.tpath(ty) != 'core::result::Result':
            ty = self.p.pseudo_ty('core::result::Result')
        if err is None:
            return Adt(ty, self.p.variant(ty, 'Ok'), (ok,))
        return Adt(ty, self.p.variant(ty, 'Err'), (err,))

    def async_(self, ready=None, ty=None):
        if ty is None or self.p.tpath(ty) != 'futures::poll::Async':
            ty = self.p.pseudo_ty('futures::poll::Async')
        if ready is None:
            return Adt(ty, self.p.variant(ty, 'NotReady'), ())
        return Adt(ty, self.p.variant(ty, 'Ready'), (ready,))

    def vname(self, v):
        """variant name of an Adt"""
        return self.p.types[v.ty]['variants'][v.var]['n']

    def expand(self, v):
        """the value with its variant (if it is an enum) decided"""
        v = self.res(v)
        if isinstance(v, Adt):
            return v
        if isinstance(v, Sym):
            T = self.p.ty(v.ty)
            if T is None or T['k'] != 'adt' or not T.get('variants'):
                raise Unsupported('expanding %r of type %s' % (v, T and T['s']))
            if T['path'] == 'http::method::Method' and self.method_domain:
                ms = self.method_domain
                i = self.choose(len(ms), ('method', v))
                self.subst[v] = ms[i]
                return ms[i]
            if T['enum']:
                n = len(T['variants'])
                var = self.choose(n, ('variant', v))
            else:
                var = 0
            V_ = T['variants'][var]
            a = Adt(v.ty, var, tuple(self.symfield(v, T, V_, i) for i in range(len(V_['f']))))
            self.subst[v] = a
            return a
        raise Unsupported('expanding %r' % (v,))

    def symfield(self, v, T, V_, i):
        ft = V_['f'][i]['t']
        if T['enum'] and len(V_['f']) == 1:
            return self.mksym(V_['n'], (v,), ft)
        if T['enum']:
            return self.mksym(V_['n'] + '.' + V_['f'][i]['n'], (v,), ft)
        return self.mksym('.' + V_['f'][i]['n'], (v,), ft)

    def mksym(self, k, a, ty):
        T = self.p.ty(ty)
        if T is not None and T['k'] == 'tuple' and not T['to']:
            return UNIT
        return Sym(k, a, ty)

    def method_name(self, v):
        """name of a known http::Method value"""
        v = self.res(v)
        if isinstance(v, Adt):
            if self.p.tpath(v.ty) == 'http::method::Method':
                inner = self.res(v.f[0])
                if isinstance(inner, Adt):
                    return self.vname(inner).upper()
        return None

    # ---------------------------------------------------------------- memory
    def proj(self, v, s):
        v = self.res(v)
        if isinstance(s, tuple):
            if s[0] == 'sub' and isinstance(v, Arr):
                return Arr(v.f[s[1]:s[2]])
            raise Unsupported('projection %r of %r' % (s, v))
        if isinstance(v, (Adt, Tup, Arr, Clo, Obj)):
            if s >= len(v.f):
                raise Unsupported('field %d of %r' % (s, v))
            return v.f[s]
        if v is UNINIT:
            return UNINIT
        if isinstance(v, Sym):
            T = self.p.ty(v.ty)
            if T is not None and T['k'] == 'tuple':
                return self.mksym('.%d' % s, (v,), T['to'][s])
            if T is not None and T['k'] == 'adt':
                if T['enum'] or (T['path'] == 'http::method::Method' and self.method_domain):
                    return self.proj(self.expand(v), s)
                V_ = T['variants'][0]
                return self.symfield(v, T, V_, s)
            return Sym('.%s' % s, (v,), None)
        raise Unsupported('field %r of %r' % (s, v))

    def read(self, c, p=()):
        v = c.v
        for s in p:
            v = self.proj(v, s)
        return self.res(v)

    def upd(self, v, p, i, val):
        if i == len(p):
            return val
        s = p[i]
        v = self.res(v)
        if v is UNINIT:
            v = Adt(None, 0, (UNINIT,) * (s + 1))
        if isinstance(v, Sym):
            v = self.expand(v)
        if isinstance(s, tuple):
            if s[0] == 'sub' and isinstance(v, Arr):
                n = self.upd(Arr(v.f[s[1]:s[2]]), p, i + 1, val)
                return Arr(v.f[:s[1]] + n.f + v.f[s[2]:])
            raise Unsupported('write to projection %r' % (s,))
        f = list(v.f)
        while s >= len(f) and isinstance(v, Adt) and v.ty is None:
            f.append(UNINIT)
        f[s] = self.upd(f[s], p, i + 1, val)
        if isinstance(v, Adt):
            return Adt(v.ty, v.var, f)
        if isinstance(v, Tup):
            return Tup(f)
        if isinstance(v, Arr):
            return Arr(f)
        if isinstance(v, Clo):
            return Clo(v.ty, f)
        if isinstance(v, Obj):
            return Obj(v.k, *f)
        raise Unsupported('write into %r' % (v,))

    def write(self, c, p, val):
        c.v = self.upd(c.v, p, 0, val) if p else val

    def deref(self, v, ty=None):
        """the place a pointer-like value points to"""
        v = self.res(v)
        if isinstance(v, Ref):
            return v.c, v.p
        if isinstance(v, Ptr):
            return v.c, ()
        if isinstance(v, Sym):
            if v not in self.symcells:
                T = self.p.ty(v.ty)
                to = None
                if T is not None:
                    to = T.get('to') if T['k'] in ('ref', 'ptr') else None
                    if T['k'] == 'adt' and T.get('args'):
                        to = T['args'][0]
                self.symcells[v] = Cell(Sym('*', (v,), to))
            return self.symcells[v], ()
        raise Unsupported('dereference of %r' % (v,))

    def load(self, v):
        """the value behind a pointer (through any number of pointers: see strip)"""
        c, p = self.deref(v)
        return self.read(c, p)

    def strip(self, v):
        v = self.res(v)
        while isinstance(v, (Ref, Ptr)):
            v = self.load(v)
        return v

    def ref(self, v):
        return Ref(Cell(v))

    # ---------------------------------------------------------------- canonical terms
    def snap(self, v):
        v = self.res(v)
        if isinstance(v, (Ref, Ptr)):
            w = self.load(v)
            if isinstance(v, Ptr) and v.k == 'Box' and isinstance(w, Ptr) and w.k == 'Box':
                s = self.snap(w)        # (a box in a box is another `dyn Any`)
                return ('boxed', s) if isinstance(s, tuple) and (s[0] == 'boxed' or s[:2] == ('sym', 'payload')) else s
            return self.snap(w)
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int):
            return v
        if isinstance(v, Str):
            return ('str', v.s)
        if v is UNINIT:
            return ('uninit',)
        if isinstance(v, Sym):
            if v in self.symcells and self.p.tpath(v.ty) == 'alloc::boxed::Box':
                # what an opaque box owns, if it was changed since
                w = self.symcells[v].v
                was = self.res(Sym('*', (v,), w.ty if isinstance(w, Sym) else self.p.ty(v.ty)['args'][0]))
                if isinstance(w, Adt) and isinstance(was, Adt):
                    a = self.snap(w)
                    if a != self.snap(was):
                        return a
            return self.snap_sym(v)
        if isinstance(v, Adt):
            if v.ty is None:
                return ('raw',) + tuple(self.snap(x) for x in v.f)
            m = self.method_name(v)
            if m:
                return ('method', m)
            T = self.p.types[v.ty]
            n = T['variants'][v.var]['n'] if T['enum'] else ''
            return ('adt', T['path'], n) + tuple(self.snap(x) for x in v.f)
        if isinstance(v, Tup):
            return ('tup',) + tuple(self.snap(x) for x in v.f)
        if isinstance(v, Arr):
            return ('arr',) + tuple(self.snap(x) for x in v.f)
        if isinstance(v, Clo):
            return ('closure', self.p.types[v.ty].get('path')) + tuple(self.snap(x) for x in v.f)
        if isinstance(v, FnV):
            return ('fn', self.p.insts[v.inst]['np'] if v.inst is not None else str(v.ctor))
        if isinstance(v, Obj):
            if v.k in ('Vec', 'String') and len(v.f) == 1:
                return self.snap(v.f[0])
            return ('obj', v.k) + tuple(self.snap(x) if not isinstance(x, (str, tuple, frozenset, type(None), Cell))
                                        else (self.snap(x.v) if isinstance(x, Cell) else
                                              self.snap_tuple(x) if isinstance(x, tuple) else x)
                                        for x in v.f)
        if isinstance(v, tuple):
            return self.snap_tuple(v)
        return ('py', repr(v))

    def snap_tuple(self, t):
        return tuple(self.snap(x) if isinstance(x, (V, Cell)) and not isinstance(x, Cell)
                     else (self.snap_tuple(x) if isinstance(x, tuple) else x) for x in t)

    def snap_sym(self, v):
        if v.k == 'cap':
            return self.cap_term(v)
        if v.k == '*' and len(v.a) == 1 and isinstance(v.a[0], Sym):
            return self.snap_sym(v.a[0])        # (pointers are not part of terms)
        if not v.a:
            return ('sym', v.k)
        # (what a term derives from is named as it came about, not by what has been found out about it)
        return ('sym', v.k) + tuple(self.snap_sym(x) if isinstance(x, Sym) else
                                    self.snap(x) if isinstance(x, V) else
                                    self.snap_tuple(x) if isinstance(x, tuple) and any(
                                        isinstance(y, V) for y in x) else x for x in v.a)

    def cap_term(self, v):
        """provenance of a captured part of the path, normalised"""
        text, icase, k = v.a
        r = R.rx(text, icase)
        key = ('capis', text, icase, k, id(self.lang))
        c = self.alpha.__dict__.setdefault('capcache', {})
        if key not in c:
            c[key] = (R.capture_is(r, k, self.lang, self.alpha), self.lang)
        d = c[key][0]
        return ('cap',) + (d if d is not None else ('raw', text, k))

    # ---------------------------------------------------------------- equality, integers
    def eq(self, a, b):
        """abstract equality of two values (splits the state when it is unknown)"""
        a, b = self.strip(a), self.strip(b)
        if a is b:
            return True
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        # strings
        sa, sb = self.strval(a), self.strval(b)
        if sa is not None and sb is not None:
            return self.str_eq(sa, sb)
        if isinstance(a, Obj) and a.k in ('Vec',) and isinstance(b, (Arr, Obj)):
            a = self.strip(a.f[0])
        if isinstance(b, Obj) and b.k in ('Vec',) and isinstance(a, (Arr, Obj)):
            b = self.strip(b.f[0])
        if isinstance(a, Obj) and isinstance(b, Obj):
            if a.k != b.k or len(a.f) != len(b.f):
                return False
            return all(self.eq(x, y) if isinstance(x, V) else x == y for x, y in zip(a.f, b.f))
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Sym) and isinstance(y, int):
                return self.cmp_int('Eq', x, y)
        if isinstance(a, Sym) and isinstance(b, Sym):
            if a == b:
                return True
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Sym) and isinstance(y, Adt):
                T = self.p.ty(x.ty)
                if T is not None and T['k'] == 'adt' and T.get('variants') is not None:
                    return self.eq(self.expand(x), y)
        if isinstance(a, Adt) and isinstance(b, Adt):
            if a.var != b.var and self.p.tpath(a.ty) == self.p.tpath(b.ty):
                return False
            if len(a.f) != len(b.f):
                return False
            return all(self.eq(x, y) for x, y in zip(a.f, b.f))
        if isinstance(a, (Tup, Arr)) and type(a) is type(b):
            return len(a.f) == len(b.f) and all(self.eq(x, y) for x, y in zip(a.f, b.f))
        if isinstance(a, FnV) and isinstance(b, FnV):
            return a == b
        ka, kb = self.snap(a), self.snap(b)
        if ka == kb:
            return True
        k = ('eq',) + tuple(sorted((ka, kb), key=repr))
        return bool(self.assume(k, 2, k))

    def strval(self, v):
        """a string value (Str or Sym of string kind) or None"""
        v = self.strip(v)
        if isinstance(v, Obj) and v.k == 'String':
            return self.strval(v.f[0])
        if isinstance(v, Str):
            return v
        if isinstance(v, Adt) and self.p.tpath(v.ty) == 'alloc::borrow::Cow':
            x = self.strip(v.f[0]) if v.f else None
            if isinstance(x, (Str,)) or (isinstance(x, Obj) and x.k == 'String'):
                return self.strval(x)
            return None
        if isinstance(v, Sym):
            if v.k in ('path', 'cap', 'query'):
                return v
            T = self.p.ty(v.ty)
            if T is not None and (T['k'] == 'str' or T.get('path') == 'alloc::string::String'):
                return v
        return None

    def is_path(self, v):
        return isinstance(v, Sym) and v.k == 'path'

    def split_lang(self, d, label):
        """whether the request path is in the language d; splits if both are possible"""
        i = self.lang & d
        if i.empty():
            return False
        o = self.lang - d
        if o.empty():
            return True
        if self.choose(2, label) == 0:
            self.lang = i
            return True
        self.lang = o
        return False

    def split_cap(self, v, d, label):
        """whether a captured part of the path is in the language d (None: not determined by the path)"""
        text, icase, k = v.a
        yes = R.capture_in(R.rx(text, icase), k, d, self.lang, self.alpha)
        return None if yes is None else self.split_lang(yes, label)

    def str_eq(self, a, b):
        a, b = self.res(a), self.res(b)
        if isinstance(a, Str) and isinstance(b, Str):
            return a.s == b.s
        if a == b:
            return True
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Sym) and x.k == 'method_str' and isinstance(y, Str) and x.a[0][0] == 'method' and \
                    (y.s in STANDARD_METHODS or not TOKEN.match(y.s)):
                return False        # an extension method, never named like a standard one
            if self.is_path(x) and isinstance(y, Str):
                return self.split_lang(R.literal(self.alpha_for(y.s), y.s), ('path==', y.s))
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Sym) and x.k == 'cap' and isinstance(y, Str):
                v = self.split_cap(x, R.literal(self.alpha_for(y.s), y.s), ('cap==', x.a, y.s))
                if v is not None:
                    return v
        ka, kb = self.snap(a), self.snap(b)
        if ka == kb:
            return True
        k = ('streq',) + tuple(sorted((ka, kb), key=repr))
        return bool(self.assume(k, 2, k))

    def alpha_for(self, s):
        for c in set(s):
            if c in self.alpha.of and len(self.alpha.blocks[self.alpha.of[c]]) > 1:
                raise R.Refine(frozenset(c))
        return self.alpha

    def set_domain(self, sym, dom):
        self.intdom[sym] = frozenset(dom)

    def cmp_int(self, op, a, b):
        a, b = self.res(a), self.res(b)
        f = {'Eq': lambda x, y: x == y, 'Ne': lambda x, y: x != y, 'Lt': lambda x, y: x < y,
             'Le': lambda x, y: x <= y, 'Gt': lambda x, y: x > y, 'Ge': lambda x, y: x >= y}[op]
        if isinstance(a, int) and isinstance(b, int):
            return f(a, b)
        if isinstance(a, Sym) and isinstance(b, int) or isinstance(b, Sym) and isinstance(a, int):
            s, pred = (a, lambda x: f(x, b)) if isinstance(a, Sym) else (b, lambda x: f(a, x))
            root, g = self.arith(s)
            if root is not s:
                pred = lambda x, p=pred, g=g: p(g(x))
                if isinstance(root, int):
                    return pred(root)
                s = root
            if s not in self.intdom:
                T = self.p.ty(s.ty)
                if T is not None and T['k'] == 'bool':
                    self.intdom[s] = frozenset((0, 1))
                elif s.k == '.0' and isinstance(s.a[0], Sym) and \
                        self.p.tpath(s.a[0].ty) == 'http::status::StatusCode':
                    self.intdom[s] = frozenset(range(100, 600))
                elif T is not None and T['k'] == 'uint' and T.get('bits') == 8:
                    self.intdom[s] = frozenset(range(256))
            if s in self.intdom:
                d = self.intdom[s]
                yes = frozenset(x for x in d if pred(x))
                no = d - yes
                if not no:
                    return True
                if not yes:
                    return False
                r = self.choose(2, (op, s)) == 0
                self.intdom[s] = yes if r else no
                if len(self.intdom[s]) == 1:
                    self.subst[s] = next(iter(self.intdom[s]))
                return r
            if root is s and g is not None:
                k = ('cmp', op, self.snap(a), self.snap(b))
                return bool(self.assume(k, 2))
            # unbounded: remember facts as an interval plus exclusions
            lo, hi, ex = self.memo.get(('rng', s), (self.int_lo(s), None, frozenset()))
            c = b if isinstance(a, Sym) else a
            o = op if isinstance(a, Sym) else {'Lt': 'Gt', 'Le': 'Ge', 'Gt': 'Lt', 'Ge': 'Le'}.get(op, op)
            opts = []
            for val in (True, False):
                l2, h2, e2 = lo, hi, ex
                oo = o if val else {'Eq': 'Ne', 'Ne': 'Eq', 'Lt': 'Ge', 'Ge': 'Lt', 'Le': 'Gt', 'Gt': 'Le'}[o]
                if oo == 'Eq':
                    l2 = c if l2 is None or c > l2 else l2
                    h2 = c if h2 is None or c < h2 else h2
                    if c in e2:
                        continue
                elif oo == 'Ne':
                    e2 = e2 | {c}
                elif oo in ('Lt', 'Le'):
                    m = c - 1 if oo == 'Lt' else c
                    h2 = m if h2 is None or m < h2 else h2
                else:
                    m = c + 1 if oo == 'Gt' else c
                    l2 = m if l2 is None or m > l2 else l2
                while l2 is not None and l2 in e2:
                    l2 += 1
                if l2 is not None and h2 is not None and l2 > h2:
                    continue
                opts.append((val, (l2, h2, e2)))
            if not opts:
                raise Infeasible()
            val, st = opts[self.choose(len(opts), (op, s, c))]
            self.memo[('rng', s)] = st
            if st[0] is not None and st[0] == st[1]:
                self.subst[s] = st[0]
            return val
        if a == b:
            return op in ('Eq', 'Le', 'Ge')
        ka, kb = self.snap(a), self.snap(b)
        return bool(self.assume(('cmp', op, ka, kb), 2))

    ARITH = {'Add': lambda x, y: x + y, 'Sub': lambda x, y: x - y, 'Mul': lambda x, y: x * y,
             'Div': lambda x, y: x // y, 'Rem': lambda x, y: x % y, 'Shr': lambda x, y: x >> y,
             'Shl': lambda x, y: x << y, 'Mask': lambda x, y: x & y}

    def arith(self, s):
        """(the quantity s is computed from, how) if s is arithmetic on one quantity and constants, else (s, None)"""
        fs = []
        x = s
        while isinstance(x, Sym) and x not in self.subst and x.k in self.ARITH and len(x.a) == 2:
            a, b = self.res(x.a[0]), self.res(x.a[1])
            op = self.ARITH[x.k]
            if isinstance(b, int) and isinstance(a, (Sym, int)) and not (b == 0 and x.k in ('Div', 'Rem')):
                fs.append(lambda v, op=op, b=b: op(v, b))
                x = a
            elif isinstance(a, int) and isinstance(b, Sym) and x.k in ('Add', 'Sub', 'Mul'):
                fs.append(lambda v, op=op, a=a: op(a, v))
                x = b
            else:
                return s, None

        def g(v):
            for h in reversed(fs):
                v = h(v)
            return v
        if x is s:
            return s, None
        if isinstance(x, Sym) and not self.bounded(x):
            return s, g
        return x, g

    def bounded(self, s):
        T = self.p.ty(s.ty)
        return s in self.intdom or T is not None and (
            T['k'] == 'bool' or T['k'] == 'uint' and T.get('bits') == 8) or \
            s.k == '.0' and isinstance(s.a[0], Sym) and self.p.tpath(s.a[0].ty) == 'http::status::StatusCode'

    def int_lo(self, s):
        T = self.p.ty(s.ty)
        if T is not None and T['k'] in ('uint',):
            return 0
        return None

    def truth(self, v):
        v = self.res(v)
        if isinstance(v, int):
            return bool(v)
        if isinstance(v, Sym):
            return self.cmp_int('Ne', v, 0) if v in self.intdom or self.p.ty(v.ty) and \
                self.p.ty(v.ty)['k'] == 'bool' else bool(self.assume(('bool', v), 2))
        raise Unsupported('truth of %r' % (v,))

    # ---------------------------------------------------------------- constants
    def const(self, c):
        T = self.p.ty(c['t'])
        v = c['v']
        return self.cval(v, c['t'], c.get('name'))

    def cval(self, v, ty, name=None):
        if 'int' in v:
            return v['int']
        if 'str' in v:
            return Str(v['str'])
        if 'bytes' in v:
            return Arr(v['bytes'])
        T = self.p.ty(ty)
        if 'ref' in v:
            to = T.get('to') if T and T['k'] in ('ref', 'ptr') else None
            return Ref(Cell(self.cval(v['ref'], to)))
        if 'arr' in v:
            et = T.get('to') if T and T['k'] in ('array', 'slice') else None
            return Arr(tuple(self.cval(x, et) for x in v['arr']))
        if 'adt' in v:
            if T is None or T['k'] == 'tuple':
                ts = T['to'] if T else [None] * len(v['f'])
                return Tup(tuple(self.cval(x, t) for x, t in zip(v['f'], ts)))
            V_ = T['variants'][v['adt']]
            if T.get('path') == 'alloc::vec::Vec':
                return Obj('Vec', Arr(()))
            if T.get('path') == 'alloc::string::String':
                return Obj('String', Str(''))
            return Adt(ty, v['adt'], tuple(self.cval(x, f['t']) for x, f in zip(v['f'], V_['f'])))
        if 'static' in v:
            return Ref(self.static(v['static']))
        if 'fn' in v:
            return FnV(v['fn'])
        if 'zst' in v:
            Z = self.p.ty(v['zst'])
            if Z['k'] == 'closure':
                return Clo(v['zst'], ())
            if Z['k'] == 'fndef':
                return FnV(Z['inst'], Z['decl'], None if Z['inst'] is not None else Z['decl'])
            return Sym('zst', (Z['s'],), v['zst'])
        if T is not None and T.get('path') == 'alloc::vec::Vec':
            return Obj('Vec', Arr(()))
        if T is not None and T.get('path') == 'alloc::string::String':
            return Obj('String', Str(''))
        return Sym('const', (name or v.get('opaque') or v.get('bad'),), ty)

    def static(self, i):
        if i not in self.static_cells:
            s = self.p.statics[i]
            v = self.cval(s['v'], s['t']) if s['v'] else Sym('static', (s['path'],), s['t'])
            self.static_cells[i] = Cell(v, ('static', i))
        return self.static_cells[i]

    # ---------------------------------------------------------------- execution
    def loc(self, fr, place):
        c, p = fr[place[0]], ()
        for e in place[1]:
            if e == '*':
                c, p = self.deref(self.read(c, p))
                continue
            k = e[0]
            if k == 'f':
                v = self.read(c, p)
                if isinstance(v, (Ptr, Ref)) or self.is_box(v):
                    continue        # (the pointer inside of a Box)
                p += (e[1],)
            elif k == 'v':
                v = self.read(c, p)
                if isinstance(v, Sym):
                    self.expand(v)
            elif k == 'i':
                i = self.read(fr[e[1]])
                if not isinstance(i, int):
                    raise Unsupported('symbolic index')
                p += (i,)
            elif k == 'c':
                i = e[1]
                if e[2]:
                    v = self.read(c, p)
                    i = len(self.seq_of(v)) - i
                p += (i,)
            elif k == 'sub':
                a, b = e[1], e[2]
                if e[3]:
                    b = len(self.seq_of(self.read(c, p))) - b
                p += (('sub', a, b),)
            elif k == 'cast':
                pass
            else:
                raise Unsupported('projection %r' % (e,))
        return c, p

    def is_box(self, v):
        if not isinstance(v, Sym):
            return False
        T = self.p.ty(v.ty)
        return T is not None and bool(T.get('box'))

    def seq_of(self, v):
        v = self.res(v)
        if isinstance(v, Arr):
            return v.f
        raise Unsupported('sequence %r' % (v,))

    def operand(self, fr, o):
        if o[0] in ('copy', 'move'):
            c, p = self.loc(fr, o[1])
            v = self.read(c, p)
            return v
        if o[0] == 'const':
            return self.const(o[1])
        if o[0] == 'check':
            return 1 if o[1] else 0
        raise Unsupported('operand %r' % (o,))

    def rvalue(self, fr, r):
        k = r[0]
        if k == 'use':
            return self.operand(fr, r[1])
        if k == 'ref':
            c, p = self.loc(fr, r[1])
            return Ref(c, p)
        if k == 'agg':
            f = tuple(self.operand(fr, x) for x in r[2])
            a = r[1]
            if a[0] == 'arr':
                return Arr(f)
            if a[0] == 'tuple':
                return Tup(f)
            if a[0] == 'adt':
                T = self.p.types[a[1]]
                if T['path'] in ('core::ptr::unique::Unique', 'core::ptr::non_null::NonNull',
                                 'core::mem::manually_drop::ManuallyDrop') and f:
                    return f[0]
                return Adt(a[1], a[2], f)
            if a[0] == 'closure':
                return Clo(a[1], f)
            if a[0] == 'rawptr':
                return f[0]
            raise Unsupported('aggregate %r' % (a,))
        if k == 'discr':
            c, p = self.loc(fr, r[1])
            v = self.read(c, p)
            if isinstance(v, Sym):
                T = self.p.ty(v.ty)
                if T is not None and T['k'] in ('int', 'uint', 'bool'):
                    return v
                v = self.expand(v)
            if isinstance(v, Adt):
                if v.ty is None:
                    return v.var
                return self.p.types[v.ty]['variants'][v.var]['d']
            raise Unsupported('discriminant of %r' % (v,))
        if k == 'cast':
            v = self.operand(fr, r[2])
            kind = r[1]
            if kind.startswith('IntToInt'):
                T = self.p.types[r[4]]
                if isinstance(v, Adt):
                    v = self.p.types[v.ty]['variants'][v.var]['d']
                if isinstance(v, int) and T['k'] in ('uint', 'int'):
                    b = T.get('bits', 64)
                    v &= (1 << b) - 1
                    if T['k'] == 'int' and v >> (b - 1):
                        v -= 1 << b
                if isinstance(v, Sym) and T['k'] == 'uint':
                    S = self.p.ty(v.ty)
                    if S is not None and S['k'] == 'uint' and S.get('bits', 64) > T.get('bits', 64):
                        return Sym('Mask', (v, (1 << T.get('bits', 64)) - 1), r[4])
                return v
            if isinstance(v, (Ptr, Ref)) and self.p.types[r[4]]['k'] == 'uint':
                return Sym('addr', (), r[4])
            if 'Unsize' in kind and isinstance(v, Ptr) and v.ty is None:
                F = self.p.types[r[3]]
                if F['k'] == 'adt' and F.get('args'):
                    return Ptr(v.k, v.c, F['args'][0])
            return v
        if k == 'bin':
            return self.binop(r[1], self.operand(fr, r[2]), self.operand(fr, r[3]))
        if k == 'un':
            v = self.operand(fr, r[2])
            if r[1] == 'Not':
                v = self.res(v)
                if isinstance(v, Sym):
                    return 0 if self.truth(v) else 1
                return 1 - v if v in (0, 1) else ~v
            if r[1] == 'Neg':
                return -v
            if r[1] == 'PtrMetadata':
                x = self.load(v)
                if isinstance(x, Arr):
                    return len(x.f)
                if isinstance(x, Str):
                    return len(x.s)
                return Sym('len', (x,), None)
            raise Unsupported('unary %s' % r[1])
        if k == 'repeat':
            return Arr((self.operand(fr, r[1]),) * r[2])
        if k == 'tls':
            return Ref(self.static(r[1]))
        raise Unsupported('rvalue %r' % (k,))

    def binop(self, op, a, b):
        a, b = self.res(a), self.res(b)
        if isinstance(a, Sym) and a.k == 'addr':
            # the compiler's checks of alignment and null: addresses of valid places pass them
            if op == 'BitAnd':
                return 0
            if op in ('Eq', 'Ne') and b == 0:
                return int(op == 'Ne')
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            if isinstance(a, int) and isinstance(b, int):
                return int(self.cmp_int(op, a, b))
            if isinstance(a, (Ref, Ptr)) or isinstance(b, (Ref, Ptr)):
                same = a == b
                return int(same if op == 'Eq' else not same)
            return int(self.cmp_int(op, a, b))
        if isinstance(a, int) and isinstance(b, int):
            base = op.replace('WithOverflow', '').replace('Unchecked', '')
            if base in ('Div', 'Rem') and b == 0:
                raise RustPanic('division by zero')
            f = {'Add': a + b, 'Sub': a - b, 'Mul': a * b, 'BitAnd': a & b, 'BitOr': a | b, 'BitXor': a ^ b}
            if base in f:
                v = f[base]
            elif base == 'Div':
                v = a // b
            elif base == 'Rem':
                v = a % b
            elif base == 'Shl':
                v = a << b
            elif base == 'Shr':
                v = a >> b
            elif base == 'Cmp':
                t = self.p.pseudo_ty('core::cmp::Ordering')
                return Adt(t, 0 if a < b else 1 if a == b else 2, ())
            else:
                raise Unsupported('binary %s' % op)
            if op.endswith('WithOverflow'):
                return Tup((v, 1 if v < 0 or v >= 1 << 64 else 0))
            return v
        if op.endswith('WithOverflow'):
            return Tup((Sym(op[:-12], (a, b), None), 0))
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            x, y = self.truth(a), self.truth(b)
            return int({'BitAnd': x and y, 'BitOr': x or y, 'BitXor': x != y}[op])
        return Sym(op, (a, b), a.ty if isinstance(a, Sym) else None)

    def run_body(self, ii, args):
        inst = self.p.insts[ii]
        body = inst['body']
        self.covered.add(ii)
        self.depth += 1
        if self.depth > 150:
            raise Unsupported('call depth')
        fr = [Cell(UNINIT) for _ in body['locals']]
        n = body['args']
        sp = body['spread']
        if sp is not None and len(args) != n:
            args = list(args[:sp - 1]) + [Tup(tuple(args[sp - 1:]))]
        if len(args) != n:
            raise Unsupported('arity of %s' % inst['np'])
        for i, a in enumerate(args):
            fr[i + 1].v = a
        blocks = body['blocks']
        bb = 0
        while True:
            b = blocks[bb]
            for st in b['s']:
                self.steps += 1
                if st[0] == '=':
                    v = self.rvalue(fr, st[2])
                    c, p = self.loc(fr, st[1])
                    self.write(c, p, v)
                elif st[0] == 'disc':
                    c, p = self.loc(fr, st[1])
                    v = self.read(c, p)
                    if isinstance(v, Adt):
                        self.write(c, p, Adt(v.ty, st[2], v.f))
                    else:
                        raise Unsupported('set discriminant')
                else:
                    raise Unsupported('statement %s' % st[0])
            self.steps += 1
            self.steps_total += 1
            if self.steps > MAX_STEPS:
                raise Unsupported('too many steps')
            t = b['t']
            if isinstance(t, dict):
                if t['to'] is None:
                    self.call_term(fr, t, inst)
                    raise Unsupported('call of diverging function returned: %s' % (t['decl'],))
                v = self.call_term(fr, t, inst)
                c, p = self.loc(fr, t['dest'])
                self.write(c, p, v)
                bb = t['to']
                continue
            k = t[0]
            if k == 'goto':
                bb = t[1]
            elif k == 'switch':
                bb = self.switch(self.operand(fr, t[1]), t[2], t[3], blocks)
            elif k == 'return':
                self.depth -= 1
                return self.read(fr[0])
            elif k == 'drop':
                bb = t[2]
            elif k == 'assert':
                v = self.truth(self.operand(fr, t[1]))
                if v != t[2]:
                    raise RustPanic('assertion: %s at %s' % (t[4][:80], t[5]))
                bb = t[3]
            elif k == 'unreachable':
                raise Infeasible()
            elif k == 'resume':
                raise Unsupported('resume')
            else:
                raise Unsupported('terminator %r' % (t[:2],))

    def switch(self, v, targets, other, blocks):
        v = self.res(v)
        if isinstance(v, int):
            for x, b in targets:
                if x == v:
                    return b
            return other
        if isinstance(v, Sym):
            for x, b in targets:
                if self.cmp_int('Eq', v, x):
                    return b
            return other
        raise Unsupported('switch on %r' % (v,))

    def call_term(self, fr, t, inst):
        args = [self.operand(fr, a) for a in t['args']]
        if t['inst'] is None and t['decl'] is None:
            f = self.operand(fr, t['fp'])
            return self.call_value(f, args, t['rt'], t['span'])
        return self.call(t['inst'], t['decl'], args, t['at'], t['rt'], t['span'])

    def call(self, ii, decl, args, at, rt, span=None):
        inst = self.p.insts[ii] if ii is not None else None
        c = CallCtx()
        c.inst = inst
        c.decl = decl
        c.args = args
        c.at = at
        c.rt = rt
        c.span = span
        c.crate = inst['crate'] if inst else None
        d_tr = decl.get('trait') if decl else None
        c.tk = inst['tk'] if inst and inst['tk'] else ('::'.join(d_tr.split('::')[-2:]) if d_tr else None)
        c.np = inst['np'] if inst else norm_path(decl['path'])
        c.self = inst['self'] if inst else None
        c.targs = decl['args'] if decl else (inst['args'] if inst else [])
        v = self.opaque(self, c)
        if v is not False:
            return v
        v = self.models.dispatch(self, c)
        if v is not NotImplemented:
            return v
        if inst and inst['body']:
            return self.run_body(ii, args)
        return self.call_unknown(c)

    def call_unknown(self, c):
        key = c.np
        self.unknown.append((key, c.span))
        self.event('unknown', key)
        a = tuple(self.snap(x) for x in c.args)
        # whatever a mutable reference led to is no longer known
        for x, t in zip(c.args, c.at or ()):
            T = self.p.ty(t)
            if T is not None and T['k'] == 'ref' and T.get('mut') and isinstance(x, Ref):
                self.write(x.c, x.p, self.fresh('havoc', T['to']))
        self.seq += 1
        return self.mksym('call', (key, a, self.seq), c.rt)

    # ---------------------------------------------------------------- function values
    def call_value(self, f, args, rt=None, span=None):
        f = self.res(f)
        if isinstance(f, Clo):
            return self.call_closure(f, None, args)
        if isinstance(f, FnV):
            if f.inst is not None:
                return self.call(f.inst, f.decl, args, None, rt, span)
            # constructor
            return self.construct(f.ctor, args, rt)
        if isinstance(f, Ref):
            v = self.read(f.c, f.p)
            if isinstance(v, Clo):
                return self.call_closure(v, f, args)
            return self.call_value(v, args, rt, span)
        if isinstance(f, Ptr):
            v = self.read(f.c)
            if isinstance(v, Clo):
                return self.call_closure(v, Ref(f.c), args)
            return self.call_value(v, args, rt, span)
        if isinstance(f, Cell):
            return self.call_value(Ref(f), args, rt, span)
        if isinstance(f, Adt) and self.p.tpath(f.ty) and self.p.tpath(f.ty).endswith('AssertUnwindSafe'):
            return self.call_value(f.f[0], args, rt, span)
        if isinstance(f, Obj) and f.k == 'pyfn':
            return f.f[0](*args)
        if isinstance(f, Sym):
            self.seq += 1
            self.event('call', self.snap(f), tuple(self.snap(a) for a in args),
                       ('sym', 'ret', self.snap(f), self.seq))
            if rt is None:
                rt = self.fn_ret(f)
            if self.panics_possible(f):
                if self.choose(2, ('panics', f)) == 1:
                    raise RustPanic('user', Sym('payload', (self.snap(f), self.seq)))
            return self.mksym('ret', (self.snap(f), self.seq), rt)
        raise Unsupported('call of %r' % (f,))

    def fn_ret(self, f):
        return getattr(self, 'ret_types', {}).get(f.k)

    def panics_possible(self, f):
        return getattr(self, 'may_panic', lambda f: False)(f)

    def construct(self, decl, args, rt):
        T = self.p.ty(rt)
        name = decl['path'].split('::')[-1] if decl else None
        if T is not None and T['k'] == 'adt':
            for i, v in enumerate(T['variants']):
                if v['n'] == name or not T['enum']:
                    return Adt(rt, i, tuple(args))
        # type not known: find it among the program's types
        par = norm_path(decl['path']).rsplit('::', 1)[0]
        for ti, T in enumerate(self.p.types):
            if T and T['k'] == 'adt' and T.get('path') in (par, norm_path(decl['path'])):
                want = [self.p.tstr(a) for a in decl['args']]
                have = [self.p.tstr(a) for a in T['args']]
                if want == have or par.startswith('core::'):
                    for i, v in enumerate(T['variants']):
                        if v['n'] == name:
                            return Adt(ti, i, tuple(args))
        raise Unsupported('constructor %s' % decl['path'])

    def call_closure(self, clo, where, args):
        T = self.p.types[clo.ty]
        ii = T['inst']
        body = self.p.insts[ii]['body']
        if body is None:
            raise Unsupported('closure without body')
        first = self.p.types[body['locals'][1]]
        if first['k'] == 'ref':
            a0 = where if isinstance(where, Ref) else Ref(Cell(clo))
        else:
            a0 = clo
        return self.run_body(ii, [a0] + list(args))

    # ---------------------------------------------------------------- futures 0.1
    def drive(self, f):
        """What a future resolves to: a Result value.  (Panics propagate.)"""
        return self.models.drive(self, f)
