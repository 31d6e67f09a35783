"""C41: what the derive says about the declarations it refuses, against the declarations themselves."""
import re

import build
import check_malformed
import check_overlap
import compiler
import decl as D

PANIC = 'proc-macro derive panicked'
# messages of the standard library and of the derive's own sanity checks: a crash, not an explanation
CRASH = re.compile(r'internal error|internal compiler|called `(Option|Result)::|index out of bounds|out of range|byte index|'
                   r'overflow|divide by zero|not yet implemented|not implemented|unreachable code|already (mutably )?borrowed|'
                   r'assertion .*failed|^explicit panic$|capacity|RefCell|poison|no entry found for key|slice index')
ATTR = re.compile(r'#\[\s*(\w+)\s*\(\s*"((?:[^"\\]|\\.)*)"\s*\)\s*\]')


def text(g):
    m = re.match(r'%s(?:: message: |: )?' % PANIC, g)
    return g[m.end():] if m else g


def matches(path, p):
    """whether a request path matches a pattern, by its documented meaning"""
    if p == '*' or path == '*':
        return p == path
    if not path.startswith('/'):
        return False
    segs = path[1:].split('/')
    pat = D.segments(p)
    for i, (k, t) in enumerate(pat):
        if k == 'rest':
            return len(segs) > i
        if i >= len(segs) or (segs[i] != t if k == 'lit' else segs[i] == ''):
            return False
    return len(segs) == len(pat)


def examples(msg):
    """the paths a message shows outside of route attributes"""
    rest = ATTR.sub(' ', msg)
    out = []
    for q in ('`([^`]*)`', '"([^"]*)"', "'([^']*)'"):
        out += [x for x in re.findall(q, rest) if x.startswith('/') or x == '*']
    return out


def owners(decl):
    """{variant: its routes}"""
    out = {}
    for attrs, v in re.findall(r'((?:#\[\w+\("(?:[^"\\]|\\.)*"\)\]\s*)+)(\w+)', decl):
        out.setdefault(v, set()).update(ATTR.findall(attrs))
    return out


def judge(routes, msg, owners=None):
    """why a message about clashing routes is wrong, or None"""
    named = set(ATTR.findall(msg))
    raw = [x for x in routes if x in named]
    clashing = []
    for i, a in enumerate(routes):
        for b in routes[:i]:
            if check_overlap.clash([b, a]):
                clashing.append((b, a))
    good = [(a, b) for a, b in clashing if a in raw and b in raw]
    if not good:
        return 'no two of the routes it names clash'
    for m in named:
        if m not in raw:
            return 'it names a route that was not declared: %s' % (m,)
    if len(named) <= 2 and not any(named == {a, b} for a, b in good):
        return 'the routes it names do not clash with each other'
    for m, p, v in re.findall(r'`#\[\s*(\w+)\s*\(\s*"((?:[^"\\\\]|\\\\.)*)"\s*\)\s*\]` on `(\w+)`', msg):
        if owners and v in owners and (m, p) not in owners[v]:
            return 'it says that `%s` is on `%s`' % (p, v)
    ex = examples(msg)
    over = [(a, b) for a, b in good if D.shape(a[1]) != D.shape(b[1])]
    same = [(a, b) for a, b in good if D.shape(a[1]) == D.shape(b[1])]
    if ex:
        for a, b in good:
            if all(matches(e, a[1]) and matches(e, b[1]) for e in ex):
                return None
        return 'its example %s is not matched by both routes' % ', '.join(ex)
    if over and not same:
        return 'it shows no path that both routes match'
    return None


def names(what, bad, msg):
    """whether a message mentions what is wrong with a malformed declaration"""
    ty = re.search(r'\b(?:struct|enum|union) (\w+)', bad).group(1)
    if 'union' in what:
        return True
    if re.search(r'several fallback', what):
        vs = re.findall(r'((?:#\[\w+\("[^"]*"\)\]\s*)*)(\w+)\s*\{([^{}]*)\}', bad[bad.index(ty) + len(ty):])
        named = [v for v in vs if re.search(r'\b%s\b' % v[1], msg)]
        return len(named) >= 2 and all(not v[0] and '#[forward]' in v[2] for v in named)
    if 'placeholder without a field' in what:
        body = bad[bad.index(ty) + len(ty):]
        where = bad if not ty.startswith('enum') else body
        ph = set(re.findall(r'\{(\w+)(?:\.\.\.)?\}', ' '.join(p for _, p in ATTR.findall(where))))
        plain = re.sub(r'"[^"]*"', '', body)
        own = re.search(r'\bV\s*\{([^}]*)\}', plain)
        ph -= set(re.findall(r'(\w+)\s*:', own.group(1) if own else '' if 'enum' in bad else plain))
        return any(re.search(r'\b%s\b' % x, msg) for x in ph) and (re.search(r'\bV\b', msg) or ty in msg)
    if 'different placeholders' in what:
        quoted = re.findall(r'`((?:\w+(?:, \w+)*)?)` vs\. `((?:\w+(?:, \w+)*)?)`', msg)
        lists = {', '.join(re.findall(r'\{(\w+)(?:\.\.\.)?\}', p)) for _, p in ATTR.findall(bad)}
        if any(a == b or not {a, b} <= lists for a, b in quoted):
            return False
        return bool(re.search(r'\bV\b', msg) or ty in msg)
    if re.search(r'without routes|empty enum|no route|with a context only', what):
        return ty in msg
    m = (re.search(r'[{(,][^{}()"]*?#\[(\w+)\("[^"]*"\)\][^{}"]*:', bad) if 'route attribute on a field' in what else
         re.search(r'#\[(\w+)\("[^"]*"\)\]\s*pub enum', bad) if 'route attribute on an enum' in what else None)
    if m:
        return bool(re.search(r'\b%s\b' % m.group(1), msg))
    attrs = re.findall(r'#\[(\w+)', what)
    if attrs:
        verbs = [a for a in attrs if a in D.VERBS]
        return any(re.search(r'\b%s\b' % a, msg) for a in attrs) or bool(verbs and 'route attribute' in msg)
    return True


def check(r, procs=8):
    build.prepare()
    cs = check_overlap.cases(r.tier, r.seed)
    # quotes and backslashes may be shown escaped or not
    cs = [c for c in cs if not any(x in p for _, p in c[2] for x in '\\"\'`') and check_overlap.clash(c[2])]
    items = [check_overlap.struct(i, vs) if k == 'struct' else check_overlap.enum(i, vs) for i, (k, vs, _) in enumerate(cs)]
    ms = check_malformed.cases(r.tier)
    got, other = compiler.expand(items + [b for _, b, _ in ms], procs, check_malformed.HEAD)
    for o in other[:5]:
        r.open('diagnostic outside all declarations: ' + o)
    n = shown = crash = 0
    for (k, vs, routes), it, g in zip(cs, items, got):
        if g is None:
            continue            # accepted: that is C11
        n += 1
        if CRASH.search(text(g)):
            crash += 1
            r.violation(it, 'the derive fails instead of explaining the clash: ' + g)
            continue
        why = judge(routes, text(g), owners(it))
        shown += bool(examples(text(g)))
        if why:
            r.violation(it, 'misleading message, %s: %s' % (why, text(g)))
    for (what, b, _), g in zip(ms, got[len(items):]):
        if g is None:
            continue            # refused later, or C12
        n += 1
        if CRASH.search(text(g)):
            crash += 1
            r.violation(b, 'the derive fails instead of explaining what is wrong (%s): %s' % (what, g))
        elif not names(what, b, text(g)):
            r.violation(b, 'the message does not name what is wrong (%s): %s' % (what, text(g)))
    r.coverage = {
        'programs': len(items) + len(ms), 'disagreements_checked': n, 'clashes': len(items), 'example_paths': shown,
        'malformed': len(ms), 'crashes': crash, 'exhaustive': False,
        'samples': [{'declaration': items[i], 'message': text(got[i] or '')} for i in range(0, len(items), max(1, len(items) // 12))],
        'explanation': 'rule: the message about clashing routes names two declared routes that clash, and every path it shows '
                       'is matched by both; other refusals come from the derive and name the attribute, placeholder, '
                       'variant or type that is wrong'}
    r.assumptions = ['declarations outside the enumerated ones are not covered']
    return r.finish(n, n)
