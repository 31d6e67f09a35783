"""Decides C01-C10 and C13: every declaration of a corpus is expanded by the real derive and compiled to
MIR; the abstract interpreter partitions all requests; each partition is compared with what the
declaration means (decl.py)."""
import multiprocessing
import os
import subprocess
import time
import traceback

import build
import compiler
import decl as D
import interp
import rx as R
from values import *  # noqa: F401,F403
from values import UNIT

ERR = 'hyperdrive::error::Error'
OPAQUE = {'hyperdrive::Guard::from_request': 'guard', 'hyperdrive::FromBody::from_body': 'body',
          'hyperdrive::FromRequest::from_request_and_body': 'forward', 'core::str::traits::FromStr::from_str': 'from_str'}
INNER = (0, 1, 2, 3, 10)       # lengths of the method list of an inner 405
LIMIT = 40         # seconds for one declaration


def is_decl_type(I, t):
    """types whose behaviour is left open: everything the witness prelude defines"""
    T = I.p.ty(t)
    return T is not None and T.get('path', '').startswith('w::') and \
        T['path'].split('::')[-1] in ('G', 'GC', 'GP', 'GR', 'B', 'BC', 'BP', 'BR', 'F', 'FC', 'P', 'Q')


def opaque(I, c):
    tr = (c.inst and c.inst['trait']) or (c.decl and c.decl.get('trait'))
    k = OPAQUE.get(tr)
    if not k or not is_decl_type(I, c.self):
        return False
    t = I.p.tstr(c.self)
    a = tuple(I.snap(x) for x in c.args)
    if k == 'from_str':
        I.event(k, t, a)
        return I.mksym(k, (t,) + a, c.rt)
    n = I.memo.get(('count', k), 0)
    I.memo[('count', k)] = n + 1
    I.event(k, t, n, a)
    return I.mksym(k, (t, n), c.rt)


def materialize(I, v, t):
    """an opaque error that turned out to be hyperdrive's"""
    T = I.p.ty(t)
    if T.get('path') != ERR:
        return None
    sizes = getattr(I, 'inner_sizes', INNER)
    n = I.choose(len(sizes) + 1, ('inner', v))
    n = sizes[n] if n < len(sizes) else None
    ms = Arr(tuple(Ref(Cell(Sym('inner_method', (i,), method_ty(I.p)))) for i in range(n or 0)))

    def methods(t):
        """whether a value of the type holds the list of methods"""
        X = I.p.ty(t)
        if not X or X['k'] != 'adt':
            return False
        if X['path'] in ('alloc::borrow::Cow', 'alloc::vec::Vec'):
            return True
        if X['path'] == 'core::option::Option':
            return methods(X['args'][0])
        return X['path'].startswith('hyperdrive::') and any(methods(f['t']) for v in X['variants'] for f in v['f'])

    def has_status(v):
        return any(I.p.tpath(f['t']) == 'http::status::StatusCode' for f in v['f'])

    def build(t, name):
        F = I.p.ty(t)
        p = F.get('path')
        if p == 'http::status::StatusCode':
            if n is not None:
                return Adt(t, 0, (405,))
            s = Sym('inner_status', (), F['variants'][0]['f'][0]['t'])
            I.set_domain(s, [x for x in range(400, 600) if x != 405])
            return Adt(t, 0, (s,))
        if p == 'alloc::borrow::Cow':
            return Adt(t, I.p.variant(t, 'Owned'), (Obj('Vec', ms),))
        if p == 'alloc::vec::Vec':
            return Obj('Vec', ms)
        if p == 'core::option::Option':
            if not methods(t):
                return Sym('inner_source', (), t)
            if n is None:
                return Adt(t, I.p.variant(t, 'None'), ())
            return Adt(t, I.p.variant(t, 'Some'), (build(F['args'][0], name),))
        if p and p.startswith('hyperdrive::'):
            vs = list(enumerate(F['variants']))
            if F['enum'] and methods(t):
                # a variant for 405, and others
                mine = [x for x in vs if any(methods(f['t']) for f in x[1]['f']) == (n is not None)]
                vs = [x for x in mine if has_status(x[1])] or mine or vs
            return Adt(t, vs[0][0], [build(f['t'], f['n']) for f in vs[0][1]['f']])
        return Sym('inner_field', (name,), t)

    a = build(t, '')
    I.event('inner', I.snap_sym(v), n, I.snap(a))
    return a


def method_ty(p):
    return next((i for i, t in enumerate(p.types) if t.get('path') == 'http::method::Method'), None)


def method_domain(p):
    M = [i for i, t in enumerate(p.types) if t.get('path') == 'http::method::Method']
    if not M:
        return None
    M = M[0]
    inner = p.types[M]['variants'][0]['f'][0]['t']
    vs = p.types[inner]['variants']
    out = []
    for i, v in enumerate(vs):
        if v['n'] == 'ExtensionAllocated':
            continue        # behaves as ExtensionInline
        out.append(Adt(M, 0, (Adt(inner, i, tuple(Sym('ext') for _ in v['f'])),)))
    return out


def mkreq(p):
    reqt = [i for i, t in enumerate(p.types) if t['s'] == 'http::request::Request<()>'][0]
    T = p.types[reqt]
    fs = []
    for f in T['variants'][0]['f']:
        F = p.types[f['t']]
        if F.get('path') == 'http::request::Parts':
            fs.append(Adt(f['t'], 0, [Sym(x['n'], (), x['t']) for x in F['variants'][0]['f']]))
        else:
            fs.append(UNIT)
    return Adt(reqt, 0, fs)


class Fork(Exception):
    def __init__(self, key):
        self.key = key


class Facts:
    """What a partition knows; unknown facts are forked by the oracle"""

    def __init__(self, I, part, forced):
        self.part, self.forced = part, forced
        self.subst = {I.snap_sym(k): v for k, v in part.subst.items()}
        self.I = I

    def conv(self, ty, term):
        """whether a conversion succeeds; None: not known here"""
        k = ('sym', 'from_str', ty, term)
        v = self.subst.get(k)
        if isinstance(v, Adt):
            return self.I.vname(v) == 'Ok'
        return self.forced.get(k)

    def deser(self, k):
        v = self.subst.get(k)
        if isinstance(v, Adt):
            return self.I.vname(v) == 'Ok'
        return self.forced.get(k)

    def need(self, key):
        raise Fork(key)


class Mismatch(Exception):
    def __init__(self, props, text):
        Exception.__init__(self, text)
        self.props, self.text = props, text


def simp(t):
    """a term in short form for messages"""
    if isinstance(t, tuple):
        if t[:2] == ('adt', ERR):
            return 'Error{%s}' % ', '.join(simp(x) for x in t[3:])
        if t and t[0] == 'adt':
            n = t[1].split('::')[-1] + ('::' + t[2] if t[2] else '')
            return n + ('(%s)' % ', '.join(simp(x) for x in t[3:]) if len(t) > 3 else '')
        if t and t[0] == 'sym':
            return t[1] + ('(%s)' % ', '.join(simp(x) for x in t[2:]) if len(t) > 2 else '')
        if t and t[0] == 'arr':
            return '[%s]' % ', '.join(simp(x) for x in t[1:])
        if t and t[0] in ('method', 'str'):
            return repr(t[1])
        return '(%s)' % ', '.join(simp(x) for x in t)
    return str(t)


def err_parts(t):
    """(status, methods, source) of a hyperdrive Error term"""
    st, ms, src = None, None, None
    for f in t[3:]:
        if not isinstance(f, tuple):
            continue
        if f[:2] == ('adt', 'http::status::StatusCode'):
            st = f[3]
        elif f[:2] == ('adt', 'alloc::borrow::Cow'):
            ms = f[3][1:] if isinstance(f[3], tuple) and f[3][0] == 'arr' else None
        elif f[:1] == ('arr',):
            ms = f[1:]
        elif f[:2] == ('adt', 'core::option::Option'):
            x = f[3] if len(f) > 3 else None
            if isinstance(x, tuple) and (x[:2] == ('adt', 'alloc::borrow::Cow') or x[:1] == ('arr',)):
                ms = err_parts((0, 0, 0, x))[1]
            elif x is not None:
                src = x
        elif f[:1] == ('adt',) and str(f[1]).startswith('hyperdrive::'):
            # a part of its own, for instance an enum with a case for 405
            a, b, c = err_parts(f)
            st = a if a is not None else 405 if b is not None and st is None else st
            ms = b if b is not None else ms
            src = c if c is not None else src
    return st, ms, src


class Oracle:
    def __init__(self, I, d):
        self.I, self.d = I, d
        self.groups = [(R.dfa_of(R.rx(k), I.alpha), k, rs) for k, rs in d.groups()]
        self.fb = d.fallback()
        self.tynames = {}

    def rt(self, ty):
        """type as the compiler prints it"""
        ty = self.d.conc(ty)
        return D.rust_path(ty)

    def check(self, part):
        """list of (props, text) for one partition"""
        out = []
        stack = [{}]
        atoms = []
        rest = part.lang
        for dfa, k, rs in self.groups:
            x = rest & dfa
            if not x.empty():
                atoms.append((x, k, rs))
                rest = rest - dfa
        if not rest.empty():
            atoms.append((rest, None, None))
        known = None
        for k, v in part.subst.items():
            if k.k == 'method' and not k.a:
                known = self.I.method_name(v)
        names = [known] if known else [self.I.method_name(m) for m in self.I.method_domain]
        n = 0
        for lang, k, rs in atoms:
            for me in names:
                stack = [{}]
                while stack:
                    f = stack.pop()
                    try:
                        n += 1
                        self.one(part, lang, k, rs, me, Facts(self.I, part, f))
                    except Fork as e:
                        for b in (True, False):
                            g = dict(f)
                            g[e.key] = b
                            stack.append(g)
                    except Mismatch as e:
                        out.append((e.props, '%s %s: %s' % (me, lang.example(), e.text)))
        return n, out

    # ------------------------------------------------------------
    def one(self, part, lang, k, rs, me, facts):
        res, val = part.result
        head = ['C06'] if me == 'HEAD' else []
        if res == 'panic':
            raise Mismatch(['C13'], 'panics: %s' % (val,))
        log = part.log
        eff = [e for e in log if e[0] in ('guard', 'body', 'forward', 'await')]
        if val[:2] != ('adt', 'core::result::Result'):
            raise Mismatch(['C01', 'C13'], 'does not yield a result but %s' % simp(val))
        ok, v = val[2] == 'Ok', val[3]
        iserr = not ok and isinstance(v, tuple) and v[:2] == ('adt', ERR)
        if rs is None:
            # no declared pattern
            if self.fb:
                return self.construct(part, self.fb, None, ok, v, eff, facts, ['C03'], me)
            if not (iserr and err_parts(v)[0] == 404):
                raise Mismatch(['C03', 'C01'], 'expected 404, got %s' % simp(val))
            st, ms, src = err_parts(v)
            if src is not None:
                raise Mismatch(['C03'], 'expected a plain 404, got %s' % simp(v))
            if eff:
                raise Mismatch(['C03'], 'runs %s although nothing matches' % (eff[0][:3],))
            return
        route = [r for r in rs if r[0] == me]
        if route:
            m, var, caps = route[0]
            return self.construct(part, var, caps, ok, v, eff, facts, ['C01'] + head, me)
        # wrong method
        if self.fb:
            return self.construct(part, self.fb, None, ok, v, eff, facts, ['C05'] + head, me, wrong=rs)
        if not (iserr and err_parts(v)[0] == 405):
            raise Mismatch(['C04', 'C01'] + head, 'expected 405, got %s' % simp(val))
        if eff:
            raise Mismatch(['C04'], 'runs %s for a wrong method' % (eff[0][:3],))
        want = self.accepted(rs, facts)
        have = err_parts(v)[1]
        self.same_methods(want, have, ['C04'])

    def same_methods(self, want, have, props):
        if have is None or sorted(map(repr, have)) != sorted(map(repr, [('method', m) for m in want])):
            p = list(props)
            hv = [x[1] for x in have or () if x[0] == 'method']
            if ('HEAD' in want) != ('HEAD' in hv):
                p.append('C06')
            raise Mismatch(p, 'allowed methods %s, expected %s' % (simp(('arr',) + tuple(have or ())), want))

    def accepted(self, rs, facts):
        """methods whose routes accept this path"""
        out = []
        for m, var, caps in rs:
            known = [facts.conv(self.rt(f.ty), t) for f, t in caps]
            if False in known:
                continue
            for (f, t), kn in zip(caps, known):
                if kn is None:
                    facts.need(('sym', 'from_str', self.rt(f.ty), t))
            out.append(m)
        return out

    def ctx_term(self, part, ty):
        c = D.CONTEXT[D.family(self.d.conc(ty))]
        if not self.d.ctx:
            return [('sym', 'ctx'), ('adt', 'hyperdrive::NoContext', '')]
        if c == 'ctx':
            return [('sym', 'ctx')]
        if c == 'part':
            return [('sym', '.part', ('sym', 'ctx'))]
        return [('adt', 'hyperdrive::NoContext', '')]

    def construct(self, part, var, caps, ok, v, eff, facts, props, me, wrong=None):
        I = self.I
        iserr = not ok and isinstance(v, tuple) and v[:2] == ('adt', ERR)
        st, ms, src = err_parts(v) if iserr else (None, None, None)
        val = {}
        # ---- placeholders
        fails = []
        if caps:
            known = [facts.conv(self.rt(f.ty), t) for f, t in caps]
            if False not in known:
                for (f, t), kn in zip(caps, known):
                    if kn is None:
                        facts.need(('sym', 'from_str', self.rt(f.ty), t))
            for (f, t), kn in zip(caps, known):
                key = ('sym', 'from_str', self.rt(f.ty), t)
                if kn is False:
                    fails.append(('sym', 'Err', key))
                else:
                    val[f.name] = ('sym', 'Ok', key)
        if fails:
            if not (iserr and st == 404):
                raise Mismatch(['C02'] + (props if iserr or ok else []),
                               'a placeholder of %s does not convert, expected 404, got %s' % (var.name, simp(v)))
            if src not in fails:
                raise Mismatch(['C02'], 'the 404 for a failed conversion carries %s, expected %s'
                               % (simp(src), ' or '.join(map(simp, fails))))
            if eff:
                raise Mismatch(['C02', 'C07'], 'runs %s although a placeholder does not convert' % (eff[0][:3],))
            return
        # ---- something else than constructing this variant?
        wm = wrong is not None
        if iserr and not any(e[0] == 'inner' for e in part.log):
            q = [f for f in var.fields if f.role == 'query']
            if st == 400 and q:
                pass
            elif st == 404 and src is not None:
                raise Mismatch(['C02'] + props, 'expected %s, got %s' % (var.name, simp(v)))
            elif st == 405 and wm and eff:
                pass
            else:
                raise Mismatch(props, 'expected %s, got %s' % (var.name, simp(v)))
        if ok and not (isinstance(v, tuple) and v[0] == 'adt' and v[1] == 'w::' + self.d.name and
                       v[2] == ('' if self.d.struct else var.name)):
            raise Mismatch(props, 'expected %s, got %s' % (var.name, simp(v)))
        # ---- query
        for f in var.fields:
            if f.role != 'query':
                continue
            hq = part.memo.get(('has-query',))
            if hq is None:
                raise Mismatch(['C09'], 'the query string is not looked at')
            s = ('sym', 'query') if hq == 0 else ('str', '')
            key = ('sym', 'deser', 'serde_urlencoded', self.rt(f.ty), s)
            good = facts.deser(key)
            if good is None:
                raise Mismatch(['C09'], 'the query field `%s` is not deserialized from the query (%s)'
                               % (f.name, self.desers(part)))
            if not good:
                if not (iserr and st == 400):
                    raise Mismatch(['C09'], 'the query does not decode, expected 400, got %s' % simp(v))
                if src != ('sym', 'Err', key):
                    raise Mismatch(['C09'], 'the 400 carries %s, expected %s' % (simp(src), simp(('sym', 'Err', key))))
                if eff:
                    raise Mismatch(['C09', 'C07'], 'runs %s although the query does not decode' % (eff[0][:3],))
                return
            val[f.name] = ('sym', 'Ok', key)
        # ---- guards, then body or forward
        i = 0
        count = {'guard': 0, 'body': 0, 'forward': 0}
        req = self.req_term(part)
        steps = [f for f in var.fields if f.role == 'guard']
        tail = [f for f in var.fields if f.role in ('body', 'forward')]
        for f in steps + tail:
            k = f.role
            P = ['C07'] if k == 'guard' else ['C08', 'C07']
            if k == 'forward' and var is self.fb:
                P = P + (['C05'] if wm else ['C03'])
            term = ('sym', k, self.rt(f.ty), count[k])
            call = eff[i] if i < len(eff) else None
            if call is None or call[0] != k or call[1] != self.rt(f.ty) or call[2] != count[k]:
                raise Mismatch(P, 'field `%s` of %s: expected its %s to be decoded next, got %s'
                               % (f.name, var.name, k, simp(call[:3]) if call else
                                  'no further step, result %s' % simp(v)))
            a = call[3]
            if a[0] != req:
                raise Mismatch(['C08'] if k != 'guard' else ['C07', 'C08'],
                               '%s `%s` is given the request %s' % (k, f.name, simp(a[0])))
            if k != 'guard' and a[1] != ('sym', 'body'):
                raise Mismatch(['C08'], '%s `%s` is given the body %s' % (k, f.name, simp(a[1])))
            if a[-1] not in self.ctx_term(part, f.ty):
                raise Mismatch(['C10'], '%s `%s` is given the context %s, expected %s'
                               % (k, f.name, simp(a[-1]), simp(self.ctx_term(part, f.ty)[0])))
            count[k] += 1
            aw = eff[i + 1] if i + 1 < len(eff) else None
            if aw is None or aw[0] != 'await' or aw[1] != term:
                raise Mismatch(P, 'after starting %s `%s` the generated code does not wait for it but %s'
                               % (k, f.name, simp(aw[:3]) if aw else 'yields %s' % simp(v)))
            i += 2
            if aw[2] == 'err':
                if i < len(eff):
                    raise Mismatch(P, 'goes on with %s after %s `%s` failed' % (eff[i][:3], k, f.name))
                e = ('sym', 'Err', term)
                inner = [x for x in part.log if x[0] == 'inner' and x[1] in (e, ('sym', '*', e))]
                if ok:
                    raise Mismatch(P, 'succeeds although %s `%s` failed' % (k, f.name))
                same = v == e or (inner and v == inner[0][3])
                if wm and inner and inner[0][2] is not None:
                    want = self.accepted(wrong, facts)
                    n = inner[0][2]
                    tailm = tuple(('sym', 'inner_method', j) for j in range(n))
                    merged = iserr and st == 405 and ms is not None and ms[len(ms) - n:] == tailm if n else \
                        iserr and st == 405 and ms is not None
                    if merged:
                        self.same_methods(want, ms[:len(ms) - n] if n else ms, ['C05'])
                        return
                    if k == 'guard' and same:
                        return
                    raise Mismatch(['C05'], 'the fallback answers 405 with %d methods, result %s (own methods %s)'
                                   % (n, simp(v), want))
                if wm and not inner and k == 'forward' and \
                        not any(x[0] == 'is' and part.memo[x] == 0 for x in part.memo if isinstance(x, tuple)):
                    # the error was never looked at
                    raise Mismatch(['C05'], 'the error of the fallback is passed on without merging the methods')
                if not same:
                    raise Mismatch(P, '%s `%s` failed, but the result is %s' % (k, f.name, simp(v)))
                return
            val[f.name] = ('sym', 'Ok', term)
        if i < len(eff):
            e = eff[i]
            raise Mismatch(['C08'] if e[0] in ('body', 'forward') else ['C07'],
                           'extra step %s' % (simp(e[:3]),))
        if not ok:
            raise Mismatch(['C08'] + props, 'every step succeeded but the result is %s' % simp(v))
        want = tuple(val.get(f.name) for f in var.fields)
        if v[3:] != want:
            for f, a, b in zip(var.fields, want, v[3:]):
                if a != b:
                    p = {'path': ['C02'], 'query': ['C09'], 'guard': ['C07', 'C08']}.get(f.role, ['C08'])
                    raise Mismatch(p + ['C08'], 'field `%s` of %s holds %s, expected %s'
                                   % (f.name, var.name, simp(b), simp(a)))
            raise Mismatch(['C08'], 'fields %s' % simp(v))

    def desers(self, part):
        return [simp(self.I.snap_sym(k)) for k in part.subst if k.k == 'deser']

    def req_term(self, part):
        return part.req


def analyse(p, d):
    """(stats, violations, problems) for one declaration"""
    I = interp.Interp(p)
    I.own_crates = {'w', 'hyperdrive'}
    I.opaque = opaque
    I.materialize = materialize
    I.method_domain = method_domain(p)
    I.deadline = time.time() + LIMIT
    root = p.roots['root_' + d.name]
    t0 = time.time()

    def go(I):
        b = p.insts[root]['body']
        req = Cell(Ptr('Arc', Cell(mkreq(p))))
        r = I.run_body(root, [Ref(req), Sym('body', (), b['locals'][2]), Sym('ctx', (), b['locals'][3])])
        I.event('DRIVE')
        v = I.snap(I.drive(r))
        return v

    parts = I.explore(go)
    # (alphabet may have been refined: patterns of the declaration must be expressible as well)
    while True:
        try:
            for k, _ in d.groups():
                R.dfa_of(R.rx(k), I.alpha)
            break
        except R.Refine as e:
            I.extra_sets.append(e.cs)
            I.mk_alpha()
            parts = I.explore(go)
    o = Oracle(I, d)
    viol = []
    n = 1
    c = p.tpath(p.insts[root]['body']['locals'][3])
    if c != d.context_ty():
        viol.append((['C10'], 'the context type is %s instead of %s' % (c, d.context_ty())))
    unknown = {}
    und = []
    for q in parts:
        if q.result[0] == 'unsupported':
            und.append(q.result[1])
            continue
        for u in q.unknown:
            unknown[u] = unknown.get(u, 0) + 1
        # the request's term in this partition
        I.subst = q.subst
        q.req = I.snap(mkreq(p))
        k, vs = o.check(q)
        n += k
        viol += vs
    return {'partitions': len(parts), 'undecided': und, 'obligations': n, 'seconds': time.time() - t0, 'steps': I.steps_total,
            'functions': sorted(p.insts[i]['path'] for i in I.covered)}, viol, unknown


_P = None
_D = None


def _job(i):
    d = _D[i]
    try:
        st, viol, unk = analyse(_P, d)
        return i, st, viol, unk, None
    except Unsupported as e:
        return i, None, [], {}, 'unsupported: %s' % e
    except Exception:
        return i, None, [], {}, traceback.format_exc()


def error_lines(diags):
    """lines of the witness file that the errors point at"""
    out = set()

    def span(sp):
        while sp:
            if sp['file_name'].endswith('.rs') and '/work-' in sp['file_name']:
                out.add(sp['line_start'])
            e = sp.get('expansion')
            sp = e and e['span']
    for j in diags:
        for sp in j['spans']:
            span(sp)
        for c in j.get('children', ()):
            for sp in c['spans']:
                span(sp)
    return out


def compile_corpus(decls):
    """(program, declarations in it, [(declaration, first error)] for those that do not compile)"""
    bad = []
    decls = list(decls)
    with build.scratch() as w:
        msg = ''
        for _ in range(6):
            if not decls:
                raise build.BuildError('no declaration compiles: %s' % (bad[0][1],))
            try:
                return interp.Program(build.dump(D.corpus_source(decls), w, timeout=240)), decls, bad
            except subprocess.TimeoutExpired:
                got = compiler.compile_each([D.corpus_source([d]) for d in decls], 8)
                out = [(d, e[0]) for d, e in zip(decls, got) if e]
                if not out:
                    raise
                bad += out
                decls = [d for d, e in zip(decls, got) if not e]
                continue
            except build.BuildError as e:
                msg = str(e)
            src = D.PRELUDE + '\n'
            ranges = []
            for d in decls:
                a = src.count('\n') + 1
                src += d.source() + '\n' + d.root() + '\n'
                ranges.append((a, src.count('\n')))
            diags, rc = build.diagnostics(src, w)
            if rc == 0:
                raise build.BuildError('the driver fails on code that compiles: ' + msg)
            out = []
            for d, (a, b) in zip(decls, ranges):
                hit = [j for j in diags if any(a <= l <= b for l in error_lines([j]))]
                if hit:
                    out.append((d, hit[0]['message']))
            if not out:
                raise build.BuildError(msg)
            bad += out
            names = set(d.name for d, _ in out)
            decls = [d for d in decls if d.name not in names]
    raise build.BuildError(msg)


def run(decls, procs=8, pid=None, budget=780):
    """analyses all declarations; ([(decl, stats, violations, unknown, problem)], not compiling)

    Stops early once several declarations violate property pid."""
    t0 = time.time()
    global _P, _D
    _P, decls, bad = compile_corpus(decls)
    _D = decls
    res = []
    violating = 0
    with multiprocessing.Pool(procs) as pool:
        it = pool.imap_unordered(_job, range(len(decls)), 1)
        while len(res) < len(decls) and violating < 8:
            try:
                x = it.next(max(1, budget - (time.time() - t0)))
            except multiprocessing.TimeoutError:
                break
            res.append(x)
            violating += any(pid in v[0] for v in x[2])
        pool.terminate()
    done = set(x[0] for x in res)
    why = 'not analysed: enough violations' if violating >= 8 else 'not analysed within the time limit'
    res += [(i, None, [], {}, why) for i in range(len(decls)) if i not in done]
    res.sort(key=lambda x: x[0])
    return [(decls[i], st, vi, un, pr) for i, st, vi, un, pr in res], bad
