"""C11: for tables of routes, the derive's verdict against the languages of their patterns."""
import itertools
import random
import re

import build
import compiler
import decl as D


def seg(p):
    return None if p == '*' else D.segments(p)


def overlap(p, q):
    """whether one request path matches both patterns"""
    a, b = seg(p), seg(q)
    if a is None or b is None:
        return a is None and b is None
    while True:
        if not a and not b:
            return True
        if not a or not b:
            return False
        (ka, ta), (kb, tb) = a[0], b[0]
        if ka == 'rest' and kb == 'rest':
            return True
        if ka == 'rest':            # one segment or more, any text
            return True             # b has at least one segment left and can be any text that b matches
        if kb == 'rest':
            return True
        if ka == 'lit' and kb == 'lit':
            if ta != tb:
                return False
        elif ka == 'lit':
            if ta == '':
                return False
        elif kb == 'lit':
            if tb == '':
                return False
        a, b = a[1:], b[1:]


def number(t):
    """segments with placeholders given their names"""
    if t == '*':
        return '*'
    out = []
    for i, s in enumerate(t):
        out.append('{x%d}' % i if s == '{x}' else '{x%d...}' % i if s == '{r}' else s)
    return '/' + '/'.join(out)


def patterns(lits, n):
    ss = list(lits) + ['{x}']
    out = ['*']
    for k in range(1, n + 1):
        out += list(itertools.product(ss, repeat=k))
    for k in range(0, n):
        out += [t + ('{r}',) for t in itertools.product(ss, repeat=k)]
    return [number(t) for t in out]


def lit(p):
    return p.replace('\\', '\\\\').replace('"', '\\"')


def fields(p):
    return ', '.join('%s: String' % x for k, x in (seg(p) or ()) if k != 'lit')


def variant(name, routes):
    """routes: (verb, pattern), all with the same placeholders"""
    return '%s %s { %s }' % (' '.join('#[%s("%s")]' % (m, lit(p)) for m, p in routes), name, fields(routes[0][1]))


def enum(i, vs):
    return '#[derive(FromRequest)] enum E%d { %s }' % (i, ', '.join(vs))


def struct(i, routes):
    return '#[derive(FromRequest)] ' + variant('struct S%d' % i, routes)


def clash(routes):
    """why a table of routes has to be rejected, or None"""
    seen = set()
    for i, (m, p) in enumerate(routes):
        for m2, p2 in routes[:i]:
            if D.shape(p) == D.shape(p2):
                if m == m2:
                    return '%s %s and %s %s are the same route' % (m2, p2, m, p)
            elif overlap(p, p2):
                return '%s and %s match a common path' % (p2, p)
    return None


LITS1 = ['', 'a', 'b']
SPECIAL = ['', 'a.b', 'axb', 'a+', 'aa', 'a*', '(x)', 'x', 'a|b', 'a', 'A', '%41', '[a]', '.', '..', '^', '$', '{',
           '}', 'a{b}', '{a}b', '&', '~', '\\', '\\d', '1', 'x0', 'x0...', '*', '**', ':a', '<a>', 'a-b', '"',
           "'"]


def larger(tier, seed):
    """clashes between long paths and between routes in the middle of variants with several"""
    V = variant
    out = []
    words = ['organizations', 'größenverhältnisse', 'ユーザー', 'a', 'x-y_z.w', '😀', 'settings%20x', '']
    rnd = random.Random(seed + 5)
    for n in range(120 if tier == 'quick' else 1500):
        k = rnd.randint(1, 14)
        ws = [rnd.choice(words) for _ in range(k)]
        segs = lambda v: [('{%s%d}' % (v, i) if w and rnd.random() < .3 else w) for i, w in enumerate(ws)]
        a, b = segs('p'), segs('q')
        if rnd.random() < .4:
            i = rnd.randint(0, k - 1)
            b[i:] = ['{rest...}']
        if rnd.random() < .3:
            a[-1:] = ['{some_%s...}' % ('long_name_' * rnd.randint(0, 12))]
        r = [(rnd.choice(D.VERBS), '/' + '/'.join(x)) for x in (a, b)]
        out.append(('long', [V('A', r[:1]), V('B', r[1:])], r))
    # literals that agree in all but one place
    for n in (15, 31, 63, 64, 65, 127, 128, 200, 255, 256, 300, 1100):
        for c in ('a', 'ä'):
            w = c * n
            for a, b in ((w + 'x', w + 'y'), (w, w + 'y'), ('x' + w, 'y' + w), (w + 'x' + w, w + 'y' + w), (w, w),
                         ('x/' + w, 'y/' + w), (w + '/x', w + '/y'), (w + '/{p}', w + '/q'), (w + '/{p}', w + 'x/q'),
                         (w + '/', w), ('{p}/' + w, 'y/' + w + 'x')):
                r = [('get', '/' + a), ('get', '/' + b)]
                out.append(('long literal', [V('A', r[:1]), V('B', r[1:])], r))
    pool = patterns(['', 'a', 'b', 'c', 'ab'], 2)
    for n in range(300 if tier == 'quick' else 4000):
        vs, routes = [], []
        for v in range(rnd.randint(2, 4)):
            first = rnd.choice(pool)
            same = [x for x in pool if fields(x) == fields(first)]
            mine = []
            for _ in range(rnd.randint(1, 4)):
                x = (rnd.choice(D.VERBS), rnd.choice(same))
                if not clash(routes + mine + [x]):
                    mine.append(x)
            if v and rnd.random() < .5 and routes:
                # a clash with something earlier
                x = rnd.choice(routes)
                if fields(x[1]) == fields(first):
                    mine.insert(rnd.randint(0, len(mine)), x)
            if mine:
                vs.append(V('V%d' % v, mine))
                routes += mine
        out.append(('several', vs, routes))
    return out


def cases(tier, seed):
    """(kind, variants, routes): variants is the text of the variants"""
    out = []
    # all ordered pairs
    ps = patterns(LITS1, 3 if tier == 'quick' else 4)
    if tier == 'quick':
        pairs = [(a, b) for a in ps for b in ps]
    else:
        rnd = random.Random(seed)
        small = patterns(LITS1, 3)
        pairs = [(a, b) for a in small for b in small]
        rest = [(a, b) for a in ps for b in ps if a not in small or b not in small]
        rnd.shuffle(rest)
        pairs += rest[:120000]
    for a, b in pairs:
        r = [('get', a), ('get', b)]
        out.append(('pair', [variant('A', r[:1]), variant('B', r[1:])], r))
    # literals with special characters: pairs of short patterns
    sp = ['*'] + ['/' + s for s in SPECIAL] + ['/{x}', '/{x...}', '/x/{y}', '/{x}/y']
    rnd = random.Random(seed + 1)
    two = ['/%s/%s' % (a, b) for a in SPECIAL for b in SPECIAL]
    sp += rnd.sample(two, 20)
    for a in sp:
        for b in sp:
            r = [('get', a), ('post', b)]
            out.append(('special', [variant('A', r[:1]), variant('B', r[1:])], r))
    # verbs on one pattern
    for p in ['/', '/a', '/{x}', '/a/{x...}', '*', '/{x}/b']:
        q = p.replace('{x', '{y')
        for m in D.VERBS:
            for m2 in D.VERBS:
                r = [(m, p), (m2, q)]
                out.append(('verbs', [variant('A', r[:1]), variant('B', r[1:])], r))
                r = [(m, p), (m2, p)]
                out.append(('verbs, one variant', [variant('A', r)], r))
            for m2 in ('get', 'head', 'post', 'delete'):
                for routes in ([(m, p), (m2, p)], [(m, p), ('put', '/z/z/z' + p), (m2, p)]):
                    if p != '*' or len(routes) == 2:
                        out.append(('struct', routes, routes))
    # different verbs do not excuse an overlap
    base = patterns(['', 'a'], 2)
    for a in base:
        for b in base:
            if a == b:
                continue
            for m, m2 in (('get', 'head'), ('head', 'get'), ('post', 'put')):
                r = [(m, a), (m2, b)]
                out.append(('verbs, two patterns', [variant('A', r[:1]), variant('B', r[1:])], r))
            # routes of one variant
            if fields(a) == fields(b):
                r = [('get', a), ('post', b)]
                out.append(('one variant', [variant('A', r)], r))
                out.append(('struct', r, r))
    # larger tables
    rnd = random.Random(seed + 2)
    pool = patterns(['', 'a', 'b', 'c'], 3)
    n = 2500 if tier == 'quick' else 30000
    k = 0
    while k < n:
        want = rnd.randint(3, 7)
        routes = []
        tries = 0
        allow = rnd.random() < 0.5
        while len(routes) < want and tries < 200:
            tries += 1
            x = (rnd.choice(D.VERBS), rnd.choice(pool))
            if not allow and clash(routes + [x]):
                continue
            if allow and len(routes) < want - 1 and clash(routes + [x]):
                continue
            routes.append(x)
        rnd.shuffle(routes)
        vs = [variant('V%d' % i, [x]) for i, x in enumerate(routes)]
        d = rnd.random()
        if d < 0.2:
            vs.insert(rnd.randint(0, len(vs)), 'FB { #[forward] f: u8 }')
        elif d < 0.4:
            vs.insert(rnd.randint(0, len(vs)), 'None')
        out.append(('table', vs, routes))
        k += 1
    return out + larger(tier, seed)


def same_capture(text):
    return re.sub(r'\s+', ' ', text)


def check(r, procs=8):
    build.prepare()
    cs = cases(r.tier, r.seed)
    items = [struct(i, vs) if k == 'struct' else enum(i, vs) for i, (k, vs, _) in enumerate(cs)]
    got, other = compiler.expand(items, procs)
    for o in other[:5]:
        r.open('diagnostic outside all declarations: ' + o)
    suspects = []
    kinds = {}
    rejected = 0
    for (k, vs, routes), it, g in zip(cs, items, got):
        why = clash(routes)
        kinds[k] = kinds.get(k, 0) + 1
        rejected += g is not None
        if why and g is None:
            suspects.append((it, why))
        if not why and g is not None:
            r.violation(it, 'rejected although no two of its routes match the same request (%s)' % g)
    # a declaration counts as accepted only if it compiles to the end
    head = compiler.HEAD
    full = compiler.compile_each([head + it for it, _ in suspects[:40]], procs)
    for (it, why), e in zip(suspects, full):
        if e is None or 'FB {' in it:
            r.violation(it, 'accepted although %s' % why)
    r.coverage = {
        'programs': len(items), 'disagreements_checked': len(items), 'by_kind': kinds, 'rejected': rejected,
        'must_be_rejected': sum(1 for c in cs if clash(c[2])),
        'samples': [same_capture(items[i]) for i in range(0, len(items), max(1, len(items) // 12))],
        'exhaustive': False,
        'explanation': 'rule: the derive refuses a table of routes iff two different patterns have a common path or '
                       'pattern and method occur twice; all ordered pairs of patterns with up to %d segments over '
                       'three literals are covered' % (3 if r.tier == 'quick' else 3)}
    r.assumptions = ['patterns outside the enumerated ones are not covered',
                     'request targets contain no line feed (http::Uri rejects them)']
    n = len(items)
    return r.finish(n - 0 if not other else n - len(other), n)
