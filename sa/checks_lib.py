"""C16-C25: hyperdrive's own functions, analysed with opaque handlers, services, errors and bodies."""
import multiprocessing
import time

import build
import derive
import lib_
from derive import ERR, err_parts, simp
from lib_ import eta
from values import *  # noqa: F401,F403

EMPTY = [('sym', 'Body::empty'), ('sym', 'Body::from', ('str', '')), ('sym', 'default', 'hyper::body::body::Body')]
RESP = 'http::response::Response'


class Bad(Exception):
    def __init__(self, props, text):
        Exception.__init__(self, text)
        self.props, self.text = props, text


def is_clone(t, base):
    while isinstance(t, tuple) and t[:2] == ('sym', 'clone'):
        t = t[2]
    return t == base


def depth(t):
    """how many clones lie between a value and the one it is a clone of"""
    n = 0
    while isinstance(t, tuple) and t[:2] == ('sym', 'clone'):
        t = t[2]
        n += 1
    return n


def ok_of(t):
    """(is Ok, value) of a Result term"""
    if isinstance(t, tuple) and t[:2] == ('adt', 'core::result::Result'):
        return t[2] == 'Ok', t[3]
    return None, None


def allow_text(ms):
    """what an Allow header has to hold"""
    parts = []
    for i, m in enumerate(ms):
        if i:
            parts.append(', ')
        if m[0] == 'method':
            parts.append(m[1])
        else:
            parts.append(('sym', 'method_str', m))
    return flat(parts)


def flat(parts):
    out = []
    for x in parts:
        if isinstance(x, str):
            if not x:
                continue
            if out and isinstance(out[-1], str):
                out[-1] += x
                continue
        out.append(x)
    return out


def text_parts(t):
    """a text term as a list of known strings and terms"""
    if isinstance(t, str):
        return flat([t])
    if isinstance(t, tuple) and t[0] == 'str':
        return flat([t[1]])
    if isinstance(t, tuple) and t[:2] == ('sym', 'concat'):
        out = []
        for x in t[2]:
            out += text_parts(x)
        return flat(out)
    return [t]


def response_parts(t):
    """(status, header list, body) of a response term"""
    if not (isinstance(t, tuple) and t[:2] == ('adt', RESP)):
        return None
    head, body = t[3], t[4]
    if not (isinstance(head, tuple) and head[0] == 'adt'):
        return None
    st, hs = None, None
    for f in head[3:]:
        if isinstance(f, tuple) and f[:2] == ('adt', 'http::status::StatusCode'):
            st = f[3]
        elif isinstance(f, tuple) and f[:2] == ('obj', 'HeaderMap'):
            hs = f[2]
    return st, hs, body


def check_error_response(t, errterm, bodies, props):
    st, ms, src = err_parts(errterm)
    r = response_parts(t)
    if r is None:
        raise Bad(props, 'expected the response of %s, got %s' % (simp(errterm), simp(t)))
    if r[0] != st:
        raise Bad(props, 'the response to %s has status %s' % (simp(errterm), simp(r[0])))
    hs = [(h[0], h[1]) for h in r[1] or ()]
    if st == 405:
        if [h[0] for h in hs] != ['allow']:
            raise Bad(props, 'the 405 response has the headers %s' % ([h[0] for h in hs],))
        v = hs[0][1]
        v = v[2] if isinstance(v, tuple) and v[:2] == ('obj', 'HeaderValue') else v
        if text_parts(v) != allow_text(ms or ()):
            raise Bad(props, 'Allow holds %s, expected %s' % (text_parts(v), allow_text(ms or ())))
    elif hs:
        raise Bad(props, 'a response that is no 405 has the headers %s' % ([h[0] for h in hs],))
    if r[2] not in bodies:
        raise Bad(props, 'the error response has the body %s' % simp(r[2]))


def methods_of(part, tag):
    """names the request's method can have in this partition"""
    for k, v in part.subst.items():
        if k.k == tag + 'method' and not k.a:
            return [part.I.method_name(v)]
    return [part.I.method_name(m) for m in part.I.method_domain]


def known(part, t):
    """a term with what has been found out since about the quantities in it"""
    facts = {('sym', k.k): part.I.snap(v) for k, v in part.subst.items() if isinstance(k, Sym) and not k.a}

    def go(x):
        if not isinstance(x, tuple):
            return x
        if x in facts:
            return facts[x]
        return tuple(go(y) for y in x)
    return go(t)


class Req:
    def __init__(self, I, tag=''):
        self.tag = tag
        self.v = lib_.request(I.p, tag)

    def arc(self, I):
        """the request's metadata, as handed to from_request_and_body"""
        T = I.p.types[self.v.ty]
        head = self.v.f[0] if I.p.tpath(T['variants'][0]['f'][0]['t']).endswith('Parts') else self.v.f[1]
        return ('adt', 'http::request::Request', '', I.snap(head), ('tup',))

    def full(self, I):
        return I.snap(self.v)

    def body(self):
        return ('sym', self.tag + 'body')


# ---------------------------------------------------------------- services

def judge_service(part, kind, fty, h, ctxok, req, evs, res, extra):
    """one call of AsyncService or SyncService; extra: properties a mix-up of handler or context belongs to"""
    I = part.I
    evs = [e for e in evs if e[0] in ('forward', 'await', 'call', 'blocking', 'blocking-end', 'inner', 'pending')]
    steps = [e for e in evs if e[0] not in ('inner', 'pending')]
    i = 0
    fw = steps[0] if steps else None
    if not fw or fw[0] != 'forward' or fw[1] != fty:
        raise Bad(['C18'], 'the request is not decoded first but %s' % (simp(fw[:3]) if fw else simp(res[1])))
    a = fw[3]
    if known(part, a[0]) != known(part, req.arc(I)):
        raise Bad(['C18'], 'decoding is given the request %s' % simp(a[0]))
    if a[1] != req.body():
        raise Bad(['C18'], 'decoding is given the body %s' % simp(a[1]))
    if not ctxok(a[2]):
        raise Bad(['C18'] + extra, 'decoding is given the context %s' % simp(a[2]))
    f = ('sym', 'forward', fty, fw[2])
    i = 1
    if i >= len(steps) or steps[i][0] != 'await' or steps[i][1] != f:
        raise Bad(['C18'], 'the decoded value is not waited for: %s' % (simp(steps[i][:3]) if i < len(steps) else simp(res[1])))
    ok = steps[i][2] == 'ok'
    i += 1
    if not ok:
        if i < len(steps):
            raise Bad(['C18', 'C19'] if kind == 'sync' else ['C18'],
                      'decoding failed, but %s follows' % simp(steps[i][:2]))
        return judge_error(part, ('sym', 'Err', f), res, ['C17'])
    arg = (('sym', 'Ok', f), req.arc(I))
    if kind == 'sync':
        while i < len(steps) and steps[i][0] == 'blocking' and steps[i][1] == 'notready':
            i += 1
        if i >= len(steps) or steps[i][0] != 'blocking':
            raise Bad(['C19', 'C18'], 'the handler is not run in the blocking section: %s'
                      % (simp(steps[i][:2]) if i < len(steps) else simp(res[1])))
        if steps[i][1] == 'err':
            if i + 1 < len(steps) or res[0] != 'panic':
                raise Bad(['C19'], 'the pool cannot run blocking work, but the result is %s' % simp(res[1]))
            return
        i += 1
    call = steps[i] if i < len(steps) else None
    if call is None or call[0] != 'call' or call[1] != h:
        raise Bad(['C18'] + (['C19'] if kind == 'sync' else []) + extra,
                  'decoding succeeded but the handler is not called: %s' % (simp(call[:2]) if call else simp(res[1])))
    if known(part, call[2]) != known(part, arg):
        raise Bad(['C18'], 'the handler is called with %s' % simp(call[2]))
    i += 1
    r = None
    if kind == 'sync':
        if i >= len(steps) or steps[i][0] != 'blocking-end':
            raise Bad(['C19'], 'within the blocking section: %s' % simp(steps[i][:2]))
        i += 1
        r = call[3]
        good = True
    else:
        t = call[3]
        if i >= len(steps) or steps[i][0] != 'await' or steps[i][1] != t:
            raise Bad(['C18'], 'the handler\'s future is not waited for: %s'
                      % (simp(steps[i][:2]) if i < len(steps) else simp(res[1])))
        good = steps[i][2] == 'ok'
        r = ('sym', 'Ok', t)
        i += 1
    if i < len(steps):
        raise Bad(['C18'] + (['C19'] if steps[i][0] == 'blocking' else []), 'after the handler: %s' % simp(steps[i][:2]))
    if not good:
        return judge_error(part, ('sym', 'Err', t), res, ['C17', 'C18'])
    if res[0] != 'ok':
        raise Bad(['C18', 'C17'], 'panics: %s' % (res[1],))
    isok, v = ok_of(res[1])
    if not isok:
        raise Bad(['C16', 'C18'], 'the handler succeeded, but the result is %s' % simp(res[1]))
    for me in methods_of(part, req.tag):
        if me == 'HEAD':
            x = v
            if isinstance(x, tuple) and x[:2] == ('adt', RESP) and x[4] in EMPTY and x[3] == ('sym', '.head', r):
                continue
            raise Bad(['C16'] + (['C18'] if v[:2] != ('adt', RESP) and v != r else []),
                      'the response to a HEAD request is %s' % simp(v))
        if v != r:
            raise Bad(['C16', 'C18'], 'the response to a %s request is %s instead of the handler\'s %s'
                      % (me, simp(v), simp(r)))


def judge_error(part, e, res, props):
    inner = [x for x in part.log if x[0] == 'inner' and x[1] in (e, ('sym', '*', e))]
    known = part.memo.get(('is', e, ERR))
    if res[0] != 'ok':
        raise Bad(props, 'panics: %s' % (res[1],))
    isok, v = ok_of(res[1])
    if known is None and not inner:
        raise Bad(props, 'the error %s is never examined; the result is %s' % (simp(e), simp(res[1])))
    if inner:
        if not isok:
            raise Bad(props, 'a hyperdrive error does not become a response but %s' % simp(res[1]))
        check_error_response(v, inner[0][3], EMPTY, props)
        return
    if isok or v != e:
        raise Bad(props, 'the error %s does not come from hyperdrive, but the result is %s' % (simp(e), simp(res[1])))


def judge_catch(part, s_ok, hp, req, evs, res, extra):
    I = part.I
    steps = [e for e in evs if e[0] in ('svc', 'svc-panics', 'await', 'call')]
    if not steps or steps[0][0] != 'svc':
        raise Bad(['C20'], 'the inner service is not called: %s' % (steps[:1],))
    if not s_ok(steps[0][1]):
        raise Bad(['C20'] + extra, 'calls the service %s' % simp(steps[0][1]))
    if known(part, steps[0][3]) != known(part, req.full(I)):
        raise Bad(['C20'], 'the inner service is given the request %s' % simp(steps[0][3]))
    n = steps[0][2]
    i = 1
    f = ('sym', 'svc', n)
    payload = None
    if i < len(steps) and steps[i][0] == 'svc-panics':
        payload = ('sym', 'payload', 'svc', n)
        i += 1
    else:
        if i >= len(steps) or steps[i][0] != 'await' or steps[i][1] != f:
            raise Bad(['C20'], 'the inner future is not waited for: %s' % (steps[i:i + 1],))
        how = steps[i][2]
        i += 1
        if how == 'panic':
            payload = ('sym', 'payload', f)
    if payload is None:
        if i < len(steps):
            raise Bad(['C20'], 'without a panic, %s follows' % simp(steps[i][:2]))
        if res[0] != 'ok':
            raise Bad(['C20'], 'panics: %s' % (res[1],))
        isok, v = ok_of(res[1])
        want = ('sym', 'Ok' if how == 'ok' else 'Err', f)
        if isok != (how == 'ok') or v != want:
            raise Bad(['C20'], 'the inner result %s becomes %s' % (simp(want), simp(res[1])))
        return
    if i >= len(steps) or steps[i][0] != 'call' or steps[i][1] != hp:
        raise Bad(['C20'] + extra, 'the inner service panics, but the panic handler is not called: %s'
                  % (simp(steps[i][:2]) if i < len(steps) else simp(res[1]) if res[0] == 'ok' else 'panic %s' % (res[1],)))
    a = steps[i][2]
    if a != (payload,):
        raise Bad(['C20'], 'the panic handler is called with %s instead of %s' % (simp(a), simp(payload)))
    t = steps[i][3]
    i += 1
    if i >= len(steps) or steps[i][0] != 'await' or steps[i][1] != t:
        raise Bad(['C20'], 'the panic handler\'s answer is not waited for: %s' % (steps[i:i + 1],))
    how = steps[i][2]
    i += 1
    if i < len(steps):
        raise Bad(['C20'], 'after the panic handler: %s' % simp(steps[i][:2]))
    if res[0] != 'ok':
        raise Bad(['C20'], 'panics: %s' % (res[1],))
    isok, v = ok_of(res[1])
    want = ('sym', 'Ok' if how == 'ok' else 'Err', t)
    if isok != (how == 'ok') or v != want:
        raise Bad(['C20'], 'the panic handler\'s answer %s becomes %s' % (simp(want), simp(res[1])))


# ---------------------------------------------------------------- scenarios

class Job:
    """one scenario: fn(I) -> value, judge(part)"""

    def __init__(self, name, go, judge, setup=None):
        self.name, self.go, self.judge, self.setup = name, go, judge, setup


def sym(I, root, i, name):
    return Sym(name, (), lib_.argty(I.p, root, i))


def drive(I, f):
    """(kind, term) of what a future resolves to"""
    try:
        return ('ok', eta(I.snap(I.drive(f))))
    except RustPanic as e:
        return ('panic', e.msg)


def service_jobs():
    out = []
    for kind in ('async', 'sync'):
        for how in ('with', 'new', 'clone', 'clone-original', 'clone2', 'make', 'make-original', 'make-clone'):
            out.append(service_job(kind, how, 1))
        for how in ('with', 'clone-both', 'make-both', 'around'):
            for order in (0, 1):
                out.append(service_job(kind, how, 2, order))
    return out


def build_service(I, kind, how):
    """places of the services a scenario calls"""
    if how == 'new':
        s = lib_.run(I, kind + '_new', [sym(I, kind + '_new', 0, 'h')])
        c = Cell(s)
        return [c, c]
    s = Cell(lib_.run(I, kind + '_with', [sym(I, kind + '_with', 0, 'h'), sym(I, kind + '_with', 1, 'ctx')]))

    def clone(c):
        return Cell(lib_.run(I, kind + '_clone', [Ref(c)]))

    def make(c):
        r = I.expand(I.drive(lib_.run(I, kind + '_make', [Ref(c), sym(I, kind + '_make', 1, 'conn')])))
        if I.vname(r) != 'Ok':
            raise Bad(['C21'], 'make_service fails: %s' % simp(I.snap(r)))
        return Cell(r.f[0])
    if how == 'with':
        return [s, s]
    if how == 'around':
        def between():
            make(s)
            clone(s)
            make(clone(s))
            return s
        return [s, between]
    if how == 'clone':
        return [clone(s)]
    if how == 'clone-original':
        clone(s)
        return [s]
    if how == 'clone2':
        return [clone(clone(s))]
    if how == 'make':
        return [make(s)]
    if how == 'make-original':
        make(s)
        make(s)
        return [s]
    if how == 'make-clone':
        return [clone(make(clone(s)))]
    if how == 'clone-both':
        return [clone(s), s]
    if how == 'make-both':
        a = make(s)
        b = make(s)
        return [a, b]
    raise ValueError(how)


def service_job(kind, how, n, order=0):
    tags = ['', 'r2_'][:n]

    def go(I):
        reqs = [Req(I, t) for t in tags]
        try:
            cs = build_service(I, kind, how)
        except Bad as e:
            return ('bad', e)
        call = kind + ('_ncall' if how == 'new' else '_call')
        fs = []
        for i in range(n):
            if callable(cs[i]):
                try:
                    cs[i] = cs[i]()
                except Bad as e:
                    return ('bad', e)
            I.event('MARK', 'call', i)
            before = eta(I.snap(Ref(cs[i])))
            fs.append(lib_.run(I, call, [Ref(cs[i]), reqs[i].v]))
            I.event('service', before, eta(I.snap(Ref(cs[i]))))
        rs = [None] * n
        for i in (range(n) if not order else reversed(range(n))):
            I.event('MARK', 'drive', i)
            rs[i] = drive(I, fs[i])
            if rs[i][0] == 'panic' and n > 1:
                break
        return ('results', rs, reqs)

    def judge(part):
        extra = ['C21'] if how not in ('with',) else []
        kind_, *x = part.value
        if kind_ == 'bad':
            raise x[0]
        rs, reqs = x
        segs = {}
        cur = None
        for e in part.log:
            if e[0] == 'MARK':
                cur = segs.setdefault(e[2], [])
            elif cur is not None:
                cur.append(e)
            elif e[0] in ('forward', 'call', 'await', 'blocking'):
                raise Bad(['C18', 'C21'], 'before the service is called: %s' % simp(e[:2]))
        fty = 'w::F<w::N0>' if how == 'new' else 'w::FX<w::N0>'
        for i in range(n):
            if rs[i] is None:
                continue
            if how == 'new':
                def ctxok(t):
                    return is_clone(t, ('adt', 'hyperdrive::NoContext', ''))
            else:
                def ctxok(t):
                    return is_clone(t, ('sym', 'ctx'))
            judge_service(part, kind, fty, ('sym', 'h'), ctxok, reqs[i], segs.get(i, []), rs[i], extra)
        if how == 'around':
            ds = [depth(e[3][2]) for i in range(n) for e in segs.get(i, []) if e[0] == 'forward']
            if len(set(ds)) > 1:
                raise Bad(['C21'], 'cloning the service or making one changes the original: its context was %d and is '
                          'then %d clones away from the configured one' % (ds[0], ds[1]))
    def setup(I):
        if n > 1:
            I.inner_sizes = (0,)
            I.method_domain = [m for m in I.method_domain if I.method_name(m) in ('GET', 'HEAD')]
    return Job('%sService %s%s' % (kind.capitalize(), how, ' two calls, order %d' % order if n > 1 else ''), go, judge, setup)


def catch_jobs():
    out = []
    for how in ('with', 'clone', 'clone-original', 'clone2'):
        out.append(catch_job(how, 1))
    out.append(catch_job('with', 2))
    out.append(catch_job('with', 2, 1))

    def setup(I):
        I.may_panic = lambda f: f.k == 'svc'
        I.svc_panics = True
    for j in out:
        j.setup = setup
    return out


def catch_job(how, n, order=0):
    tags = ['', 'r2_'][:n]

    def go(I):
        reqs = [Req(I, t) for t in tags]
        s = Cell(lib_.run(I, 'catch_with', [sym(I, 'catch_with', 0, 's'), sym(I, 'catch_with', 1, 'hp')]))

        def clone(c):
            return Cell(lib_.run(I, 'catch_clone', [Ref(c)]))
        if how == 'clone':
            s = clone(s)
        elif how == 'clone2':
            s = clone(clone(s))
        elif how == 'clone-original':
            clone(s)
        fs = []
        rs = [None] * n
        for i in range(n):
            I.event('MARK', 'call', i)
            before = eta(I.snap(Ref(s)))
            try:
                fs.append(lib_.run(I, 'catch_call', [Ref(s), reqs[i].v]))
                I.event('service', before, eta(I.snap(Ref(s))))
            except RustPanic as e:
                fs.append(None)
                rs[i] = ('panic', e.msg)
        for i in (range(n) if not order else reversed(range(n))):
            if fs[i] is not None:
                I.event('MARK', 'drive', i)
                rs[i] = drive(I, fs[i])
        return ('results', rs, reqs)

    def judge(part):
        _, rs, reqs = part.value
        segs = {}
        cur = []
        for e in part.log:
            if e[0] == 'MARK':
                cur = segs.setdefault(e[2], [])
            else:
                cur.append(e)
        for i in range(n):
            judge_catch(part, lambda t: is_clone(t, ('sym', 's')) and (how.startswith('clone') and
                        how != 'clone-original') == (t != ('sym', 's')),
                        ('sym', 'hp'), reqs[i], segs.get(i, []), rs[i], ['C21'] if how != 'with' else [])
    return Job('CatchUnwind %s%s' % (how, ' two calls, order %d' % order if n > 1 else ''), go, judge)


def by_jobs():
    def go_for(how):
        def go(I):
            m = Cell(lib_.run(I, 'by_with', [sym(I, 'by_with', 0, 's')]))
            if how == 'clone':
                m = Cell(lib_.run(I, 'by_clone', [Ref(m)]))
            rs = []
            for i in range(3):
                f = lib_.run(I, 'by_make', [Ref(m), sym(I, 'by_make', 1, 'conn%d' % i)])
                rs.append(drive(I, f))
            return ('results', rs)
        return go

    def judge(part):
        for r in part.value[1]:
            if r[0] != 'ok':
                raise Bad(['C21'], 'panics: %s' % (r[1],))
            isok, v = ok_of(r[1])
            if not isok:
                raise Bad(['C21'], 'make_service fails: %s' % simp(r[1]))
            if not (is_clone(v, ('sym', 's')) and v != ('sym', 's')):
                raise Bad(['C21'], 'make_service yields %s, not a clone of the service' % simp(v))
        ds = [depth(ok_of(r[1])[1]) for r in part.value[1]]
        if len(set(ds)) > 1:
            raise Bad(['C21'], 'make_service changes the original: the services of successive connections are clones '
                      'of clones (%s)' % ds)
    return [Job('MakeServiceByCloning ' + h, go_for(h), judge) for h in ('with', 'clone')]


def blocking_jobs():
    def go(I):
        f = lib_.run(I, 'blocking', [sym(I, 'blocking', 0, 'f')])
        I.event('MARK', 'drive', 0)
        return ('results', [drive(I, f)])

    def judge(part):
        res = part.value[1][0]
        started = False
        inside = False
        calls = 0
        last = None
        term = None
        for e in part.log:
            if e[0] == 'MARK':
                started = True
            elif e[0] == 'blocking':
                inside = e[1] == 'ready'
                last = e[1]
            elif e[0] == 'blocking-end':
                inside = False
            elif e[0] == 'call':
                if e[1] != ('sym', 'f'):
                    raise Bad(['C19'], 'calls %s' % simp(e[1]))
                calls += 1
                term = e[3]
                if not started:
                    raise Bad(['C19'], 'the closure runs before the future is polled')
                if not inside:
                    raise Bad(['C19'], 'the closure runs outside of the blocking section')
        if calls > 1:
            raise Bad(['C19'], 'the closure runs %d times' % calls)
        if last == 'err':
            if res[0] != 'panic' or calls:
                raise Bad(['C19'], 'the pool cannot run blocking work, but the result is %s' % simp(res[1]))
            return
        if res[0] != 'ok':
            raise Bad(['C19'], 'panics: %s' % (res[1],))
        if calls != 1:
            raise Bad(['C19'], 'resolves to %s without running the closure' % simp(res[1]))
        v = res[1]
        isok, x = ok_of(v)
        if x != ('sym', 'Ok' if isok else 'Err', term):
            raise Bad(['C19'], 'the closure\'s result %s becomes %s' % (simp(term), simp(v)))
        # both outcomes have to be kept apart
        k = [y for y in part.subst if part.I.snap_sym(y) == term]
        if k and part.I.vname(part.subst[k[0]]) != ('Ok' if isok else 'Err'):
            raise Bad(['C19'], 'the closure\'s result changes from Ok to Err or back')
    return [Job('blocking', go, judge)]


# ---------------------------------------------------------------- errors

def in_range(part, code):
    """possible values of a status code in this partition"""
    for k, v in part.subst.items():
        if k == code and isinstance(v, int):
            return frozenset([v])
    return part.intdom.get(code, frozenset(range(100, 600)))


CTORS = ['status', 'source', 'source_boxed', 'wrong_vec0', 'wrong_vec1', 'wrong_vec2', 'wrong_vec3',
         'wrong_slice0', 'wrong_slice2', 'wrong_slice4', 'wrong_vec9', 'wrong_slice12']
USES = ['http_status', 'allowed', 'src', 'src_trait', 'display', 'response', 'boxed']


def make_error(I, how):
    """(value, status, methods, source) as built by a public constructor"""
    def status():
        t = next(i for i, x in enumerate(I.p.types) if x.get('path') == 'http::status::StatusCode')
        code = Sym('code', (), I.p.types[t]['variants'][0]['f'][0]['t'])
        I.set_domain(code, range(100, 600))
        return Adt(t, 0, (code,))
    mt = derive.method_ty(I.p)
    if how == 'status':
        return lib_.run(I, 'e_status', [status()]), [], None
    if how == 'source':
        return lib_.run(I, 'e_source', [status(), sym(I, 'e_source', 1, 'src')]), [], ('sym', 'src')
    if how == 'source_boxed':
        return lib_.run(I, 'e_source_boxed', [status(), sym(I, 'e_source_boxed', 1, 'src')]), [], ('sym', 'src')
    n = int(how.lstrip('abcdefghijklmnopqrstuvwxyz_'))
    ms = [Sym('inner_method', (i,), mt) for i in range(n)]
    if n == 4:
        ms[3] = ms[0]       # (duplicates are kept)
    if n > 8:
        ms = [I.method_domain[i % 9] for i in range(n)]
    a = Arr(tuple(Ref(Cell(x)) for x in ms))
    v = Obj('Vec', a) if 'vec' in how else Ref(Cell(a))
    e = lib_.run(I, 'e_wrong_vec' if 'vec' in how else 'e_wrong_slice', [v])
    return e, [I.snap(x) for x in ms], None


def error_jobs():
    out = []
    for how in CTORS:
        for use in USES:
            out.append(error_job(how, use))
    return out


def error_job(how, use):
    def go(I):
        try:
            e, ms, src = make_error(I, how)
        except RustPanic as x:
            return ('panic', x.msg)
        term = I.snap(e)
        args = [Ref(Cell(e))] if use != 'boxed' else [e]
        if use == 'display':
            args.append(sym(I, 'e_display', 1, 'formatter'))
        I.event('USE')
        try:
            v = I.snap(lib_.run(I, 'e_' + use, args))
        except RustPanic as x:
            return ('usepanic', x.msg)
        return ('value', term, ms, src, v)

    def judge(part):
        I = part.I
        code = Sym('code')
        dom = in_range(part, code) if not how.startswith('wrong') else frozenset([405])
        good = frozenset(x for x in dom if 400 <= x <= 599)
        P = ['C22']
        if part.value[0] == 'panic':
            if good:
                raise Bad(P, 'panics for the error status %d (%s)' % (min(good), part.value[1]))
            return
        if part.value[0] == 'usepanic':
            raise Bad(['C23'] if use == 'response' else P, '%s panics: %s' % (use, part.value[1]))
        _, term, ms, src, v = part.value
        if dom != good:
            raise Bad(P, 'an error with status %d is created' % min(dom - good))
        is405 = dom == frozenset([405])
        may405 = 405 in dom
        cterm = 405 if is405 else ('sym', 'code') if len(dom) > 1 else min(dom)

        def same_code(x):
            return x == cterm or x == ('sym', 'code') and not how.startswith('wrong')
        if use == 'http_status':
            if not (v[:2] == ('adt', 'http::status::StatusCode') and same_code(v[3])):
                raise Bad(P, 'http_status returns %s for %s' % (simp(v), simp(cterm)))
        elif use in ('src', 'src_trait'):
            want = ('adt', 'core::option::Option', 'None') if src is None else ('adt', 'core::option::Option', 'Some', src)
            if v != want:
                raise Bad(P, 'source returns %s, expected %s' % (simp(v), simp(want)))
        elif use == 'allowed':
            if may405 and not is405:
                raise Bad(P, 'allowed_methods does not depend on the status')
            want = ('adt', 'core::option::Option', 'None') if not is405 else \
                ('adt', 'core::option::Option', 'Some', ('arr',) + tuple(ms))
            if v != want:
                raise Bad(P, 'allowed_methods returns %s for status %s, expected %s' % (simp(v), simp(cterm), simp(want)))
        elif use == 'display':
            text = []
            failed = False
            seen = False
            for e in part.log:
                if e[0] == 'USE':
                    seen = True
                elif seen and e[0] == 'write':
                    text += list(e[1])
                elif seen and e[0] == 'write-failed':
                    failed = True
            if failed:
                if v[:3] != ('adt', 'core::result::Result', 'Err'):
                    raise Bad(P, 'a formatting error is dropped')
                return
            text = flat(text)
            st = [('display', ('adt', 'http::status::StatusCode', '', c)) for c in (cterm, ('sym', 'code'), 405)]
            want = [[s] if src is None else [s, ': ', ('display', src)] for s in st]
            if text not in want or v[:3] != ('adt', 'core::result::Result', 'Ok'):
                raise Bad(P, 'Display writes %s, expected %s' % (text, want[0]))
        elif use == 'response':
            if may405 and not is405:
                raise Bad(['C23'], 'the response does not depend on the status')
            if not how.startswith('wrong') and isinstance(response_parts(v) and response_parts(v)[0], tuple) and \
                    not same_code(response_parts(v)[0]):
                raise Bad(['C23'], 'status %s' % simp(response_parts(v)[0]))
            e = ('adt', ERR, '', ('adt', 'http::status::StatusCode', '', response_status(v, same_code, cterm)),
                 ('adt', 'alloc::borrow::Cow', 'Owned', ('arr',) + tuple(ms)))
            if is405:
                e = ('adt', ERR, '', ('adt', 'http::status::StatusCode', '', 405), e[4])
                st = response_parts(v)
                if st and st[0] in (('sym', 'code'), 405):
                    v = ('adt', RESP, '', fix_status(v[3], 405), v[4])
            check_error_response(v, e, [('tup',)], ['C23'])
        elif use == 'boxed':
            if v != term:
                raise Bad(P, 'boxing changes the error to %s' % simp(v))
    return Job('Error %s, %s' % (how, use), go, judge)


def response_status(v, same, cterm):
    r = response_parts(v)
    if r and r[0] is not None and same(r[0]):
        return r[0]
    return cterm


def fix_status(head, code):
    return tuple(('adt', 'http::status::StatusCode', '', code) if isinstance(x, tuple) and
                 x[:2] == ('adt', 'http::status::StatusCode') else x for x in head)


# ---------------------------------------------------------------- bodies

def body_jobs():
    out = []
    for name, crate, wrap in (('json', 'serde_json', 'Json'), ('form', 'serde_urlencoded', 'HtmlForm')):
        out.append(body_job(name, crate, wrap))
        for d in ('deref', 'deref_mut'):
            out.append(deref_job('%s_%s' % (name, d)))
    return out


def body_job(name, crate, wrap):
    def go(I):
        req = Cell(Ptr('Arc', Cell(derive.mkreq(I.p))))
        f = lib_.run(I, name, [Ref(req), Sym('body', (), lib_.argty(I.p, name, 1)),
                               Ref(Cell(Sym('ctx', (), None)))])
        I.event('MARK', 'drive', 0)
        return ('results', drive(I, f))

    def judge(part):
        P = ['C24']
        res = part.value[1]
        if res[0] != 'ok':
            raise Bad(P, '%s panics: %s' % (wrap, res[1]))
        isok, v = ok_of(res[1])
        body = ('sym', 'body')
        n = [e for e in part.log if e[0] == 'concat2']
        pieces = [e for e in part.log if e[0] == 'chunk' and e[3] != 'pending']
        others = [e for e in part.log if e[0] in ('await', 'call', 'truncated')]
        if len(n) + (pieces != [] and pieces[-1][3] != 'item') != 1 or any(e[1] != body for e in n + pieces) or others:
            raise Bad(P, '%s does not wait for the complete body exactly once: %s %s; result %s'
                      % (wrap, n + pieces, others, simp(res[1])))
        failed = pieces[-1][3] == 'err' if pieces else part.memo.get(('concat2', body)) == 1
        if failed:
            if isok or v != ('sym', 'body_error', body):
                raise Bad(P, 'the transport fails, but the result of %s is %s' % (wrap, simp(res[1])))
            return
        data = ('sym', 'bytes', body)
        if pieces:
            data = ('arr',) + tuple(('obj', 'Spread', ('sym', 'chunk', body, i)) for i in range(len(pieces) - 1))
        alike = [data] + ([('sym', 'chunk', body, 0)] if len(pieces) == 2 else [])
        keys = [('sym', 'deser', crate, 'w::Q<w::N0>', x) for x in alike]
        key = keys[0]
        st = None
        # a deserializer driven by hand: the value, then the end of the input
        hand = {}
        for k, x in part.subst.items():
            if isinstance(x, Adt):
                y = part.I.snap_sym(k)
                if y in keys:
                    key, st = y, part.I.vname(x)
                elif isinstance(y, tuple) and y[:2] in (('sym', 'deser_prefix'), ('sym', 'deser_end')):
                    de = y[-1]
                    if de[:2] == ('sym', 'call') and de[3][0] in [(a,) for a in alike] + alike and \
                            (y[1] == 'deser_end' or y[2:4] == (crate, 'w::Q<w::N0>')):
                        hand[y[1]] = (y, part.I.vname(x), de)
        if st is None and 'deser_prefix' in hand:
            key, st, de = hand['deser_prefix']
            order = [e[0] for e in part.log if e[0] in ('deserialize', 'deserializer-end')]
            if st == 'Ok' and order == ['deserialize', 'deserializer-end'] and 'deser_end' in hand and \
                    hand['deser_end'][2] == de:
                if hand['deser_end'][1] == 'Err':
                    key, st = hand['deser_end'][:2]
            elif st == 'Ok':
                raise Bad(P, '%s accepts a body with more behind the value: the end of the input is not checked' % wrap)
        if st is None:
            raise Bad(P, '%s does not decode the body: %s' % (wrap, simp(res[1])))
        if st == 'Ok':
            want = ('adt', 'hyperdrive::body::' + wrap, '', ('sym', 'Ok', key))
            if not isok or v != want:
                raise Bad(P, 'the body decodes to %s, but the result of %s is %s'
                          % (simp(('sym', 'Ok', key)), wrap, simp(res[1])))
        elif isok or v != ('sym', 'Err', key):
            raise Bad(P, 'the body does not decode, but the result of %s is %s' % (wrap, simp(res[1])))
    return Job('%s::from_body' % wrap, go, judge)


def deref_job(name):
    def go(I):
        x = sym(I, name, 0, 'x')
        T = I.p.ty(x.ty)
        x = Sym('x', (), T['to'])
        c = Cell(x)
        return ('value', I.snap(lib_.run(I, name, [Ref(c)])))

    def judge(part):
        if part.value[1] != ('sym', '.0', ('sym', 'x')):
            raise Bad(['C24'], '%s gives access to %s' % (name, simp(part.value[1])))
    return Job(name, go, judge)


# ---------------------------------------------------------------- entry points

def entry_jobs():
    def go(I):
        r = Req(I)
        f = lib_.run(I, 'from_request', [r.v, sym(I, 'from_request', 1, 'ctx')])
        I.event('DRIVE')
        return ('results', drive(I, f), r)

    def go_sync(I):
        r = Req(I)
        try:
            v = lib_.run(I, 'from_request_sync', [r.v, sym(I, 'from_request_sync', 1, 'ctx')])
        except RustPanic as e:
            return ('results', ('panic', e.msg), r)
        return ('results', ('ok', eta(I.snap(v))), r)

    def judge(part):
        P = ['C25']
        _, res, r = part.value
        if any(e[0] == 'runtime-failed' for e in part.log):
            if any(e[0] == 'await' for e in part.log):
                raise Bad(P, 'no runtime, but the future is driven')
            return
        if res[0] != 'ok':
            raise Bad(P, 'panics: %s' % (res[1],))
        fw = [e for e in part.log if e[0] == 'forward']
        aw = [e for e in part.log if e[0] == 'await']
        others = [e for e in part.log if e[0] == 'call']
        if len(fw) != 1 or others:
            raise Bad(P, 'from_request_and_body is called %d times' % len(fw))
        if fw[0][1] != 'w::FC<w::N0>':
            raise Bad(P, 'decodes %s' % fw[0][1])
        want = (r.arc(part.I), r.body(), ('sym', 'ctx'))
        for what, a, b in zip(('request', 'body', 'context'), fw[0][3], want):
            if known(part, a) != known(part, b):
                raise Bad(P, 'from_request_and_body is given the %s %s, expected %s' % (what, simp(a), simp(b)))
        f = ('sym', 'forward', fw[0][1], fw[0][2])
        if len(aw) != 1 or aw[0][1] != f:
            raise Bad(P, 'the future is not driven: %s' % (aw,))
        isok, v = ok_of(res[1])
        good = aw[0][2] == 'ok'
        if isok != good or v != ('sym', 'Ok' if good else 'Err', f):
            raise Bad(P, 'the outcome %s of the future becomes %s' % (aw[0][2], simp(res[1])))
    return [Job('FromRequest::from_request', go, judge), Job('FromRequest::from_request_sync', go_sync, judge)]


def ready_jobs():
    P = ['C33']
    out = []

    def job(name, root, build_, wraps):
        def go(I):
            c = build_(I)
            rs = []
            for i in range(2):
                I.event('MARK', 'ready', i)
                try:
                    rs.append(('ok', eta(I.snap(lib_.run(I, root, [Ref(c)])))))
                except RustPanic as e:
                    rs.append(('panic', e.msg))
                    break
            return ('results', rs)

        def judge(part):
            evs = {}
            cur = None
            for e in part.log:
                if e[0] == 'MARK':
                    cur = evs.setdefault(e[2], [])
                elif cur is not None:
                    cur.append(e)
            for i, r in enumerate(part.value[1]):
                if r[0] != 'ok':
                    raise Bad(P, 'poll_ready panics: %s' % (r[1],))
                asked = [e for e in evs[i] if e[0] == 'ready']
                others = [e for e in evs[i] if e[0] in ('svc', 'call', 'forward', 'await')]
                if others:
                    raise Bad(P, 'poll_ready starts something: %s' % simp(others[0][:2]))
                isok, v = ok_of(r[1])
                got = 'err' if not isok else 'ready' if 'Ready' in str(v[2]) and 'Not' not in str(v[2]) else 'pending'
                if not wraps:
                    if asked or got != 'ready':
                        raise Bad(P, 'poll_ready answers %s' % simp(r[1]))
                    continue
                if not asked:
                    raise Bad(P, 'claims to be %s without asking the wrapped service' % got)
                if any(not is_clone(e[1], ('sym', 's')) for e in asked):
                    raise Bad(P, 'asks %s instead of the wrapped service' % simp(asked[0][1]))
                if asked[-1][2] != got:
                    raise Bad(P, 'the wrapped service answers %s, but poll_ready %s' % (asked[-1][2], got))
                if any(e[2] != 'ready' for e in asked[:-1]):
                    raise Bad(P, 'asks the wrapped service again after it answered %s' % asked[0][2])
                if got == 'err' and v[:2] != ('sym', 'notready-error'):
                    raise Bad(P, 'the wrapped service fails, but the error is %s' % simp(v))
        out.append(Job(name, go, judge))

    def svc(kind, clone):
        def f(I):
            n = 's' if kind in ('catch', 'by') else 'h'
            a = [sym(I, kind + '_with', 0, n)]
            if kind != 'by':
                a.append(sym(I, kind + '_with', 1, 'hp' if kind == 'catch' else 'ctx'))
            c = Cell(lib_.run(I, kind + '_with', a))
            return Cell(lib_.run(I, kind + '_clone', [Ref(c)])) if clone else c
        return f
    for clone in (False, True):
        w = ' (clone)' if clone else ''
        job('CatchUnwind::poll_ready' + w, 'catch_ready', svc('catch', clone), True)
        for kind in ('async', 'sync'):
            job('%sService as Service::poll_ready%s' % (kind.capitalize(), w), kind + '_ready', svc(kind, clone), False)
            job('%sService as MakeService::poll_ready%s' % (kind.capitalize(), w), kind + '_make_ready', svc(kind, clone), False)
        job('MakeServiceByCloning::poll_ready' + w, 'by_make_ready', svc('by', clone), False)
    return out


JOBS = {
    'ready': ready_jobs,
    'service': service_jobs, 'catch': catch_jobs, 'by': by_jobs, 'blocking': blocking_jobs, 'error': error_jobs,
    'body': body_jobs, 'entry': entry_jobs,
}
USED = {'C16': ['service'], 'C17': ['service'], 'C18': ['service'], 'C19': ['service', 'blocking'],
        'C20': ['catch'], 'C21': ['service', 'catch', 'by'], 'C22': ['error'], 'C23': ['error'], 'C24': ['body'],
        'C25': ['entry'], 'C33': ['ready'], 'C34': ['service', 'catch', 'by', 'blocking', 'body', 'entry'],
        'C35': ['service', 'catch']}

_P = None
_J = None


def work(i):
    j = _J[i]
    I = lib_.mk(_P)
    I.deadline = time.time() + 120
    if j.setup:
        j.setup(I)
    viol, und, unk = [], [], {}
    box = {}

    def go(I):
        box['v'] = None
        v = j.go(I)
        return ('held', v)
    try:
        parts = I.explore(go)
    except Unsupported as e:
        return i, 0, [], ['%s: %s' % (j.name, e)], {}, [], 0
    n = 0
    for q in parts:
        if q.result[0] == 'unsupported':
            und.append('%s: %s' % (j.name, q.result[1]))
            continue
        n += 1
        for u in q.unknown:
            unk[u[0]] = unk.get(u[0], 0) + 1
        q.I = I
        I.subst, I.lang = q.subst, q.lang
        if q.result[0] == 'panic':
            # outside of what the scenario expects to panic
            viol.append((None, j.name, 'panics: %s' % (q.result[1],)))
            continue
        q.value = q.result[1][1]
        if any(e[0] == 'stall' for e in q.log):
            viol.append((['C34'], j.name, 'a future reports that it is not ready, although nothing it waits for is '
                         'pending: it is never woken'))
        for e in q.log:
            if e[0] == 'repoll':
                viol.append((['C34'], j.name, 'a future that has already completed is polled again: %s' % simp(e[1])))
        for e in q.log:
            if e[0] == 'service' and e[1] != e[2]:
                viol.append((['C35'], j.name, 'answering a request changes the service from %s to %s' % (
                    simp(e[1]), simp(e[2]))))
        try:
            j.judge(q)
        except Bad as e:
            viol.append((e.props, j.name, e.text))
    return i, n, viol, und, unk, sorted(_P.insts[k]['path'] for k in I.covered), I.steps_total


def check(r, procs=8):
    build.prepare()
    return r.finish(*analyse(r, procs))


def analyse(r, procs=8):
    global _P, _J
    _P = lib_.program()
    _J = [j for g in USED[r.pid] for j in JOBS[g]()]
    if procs == 1:
        res = [work(i) for i in range(len(_J))]
    else:
        with multiprocessing.Pool(procs) as pool:
            res = list(pool.imap_unordered(work, range(len(_J)), 1))
    res.sort(key=lambda x: x[0])
    total, funcs, unk, steps, decided, nv = 0, set(), {}, 0, 0, 0
    per = {}
    for i, n, viol, und, u, fs, st in res:
        total += n
        per[_J[i].name] = n
        funcs.update(fs)
        steps += st
        for k in u:
            unk[k] = unk.get(k, 0) + u[k]
        for x in sorted(set(und)):
            r.open(x)
        decided += n >= len(und) and n > 0
        for props, name, text in viol:
            nv += 1
            if props is None or r.pid in props:
                r.violation(name, text)
    r.coverage = {
        'explanation': 'rule: in every partition (outcome of every opaque part, method, pool state, kind of error) of '
                       'every scenario, the calls made, their arguments and the result are those the property demands',
        'scenarios': per, 'partitions': total, 'functions_analysed': len(funcs),
        'functions_of_hyperdrive': sorted(f for f in funcs if 'hyperdrive' in f), 'mir_steps': steps,
        'functions_without_model': unk, 'disagreements_of_any_property': nv}
    r.assumptions = ['library functions behave as their transfer functions in sa/models.py say '
                     '(futures 0.1, hyper, http, tokio_threadpool, std)',
                     'handlers, inner services and decoders are arbitrary; only those of CatchUnwind may panic']
    return decided, len(res)
