"""Regular languages over request paths.

A small parser for the regex syntax used by the `regex` crate, compiled to finite automata, so
that questions about patterns (is every path of this class matched?  can both match?  which part
of the path does capture group 2 hold?) are decided for *all* paths and not by trying some.
"""
import functools

U = [chr(c) for c in range(0x21, 0x7f)]          # what a request path can be made of
USET = frozenset(U)


class RxError(Exception):
    pass


class Ambiguous(Exception):
    pass


# ---------------------------------------------------------------- syntax
# AST: ('cs', frozenset) | ('cat', [..]) | ('alt', [..]) | ('rep', ast, lo, hi) | ('grp', k, ast)
#      | ('bol',) | ('eol',) | ('nomatch',)

class Parser:
    def __init__(self, text, icase=False, dotall=True):
        self.s = text
        self.i = 0
        self.ngroups = 0
        self.names = {}
        self.icase = icase
        self.swap = False
        self.ext = False

    def peek(self):
        return self.s[self.i] if self.i < len(self.s) else None

    def parse(self):
        a = self.alt()
        if self.i != len(self.s):
            raise RxError("unexpected `%s`" % self.s[self.i:])
        return a

    def alt(self):
        ic = self.icase
        xs = [self.cat()]
        while self.peek() == '|':
            self.i += 1
            xs.append(self.cat())
        self.icase = ic
        return xs[0] if len(xs) == 1 else ('alt', xs)

    def cat(self):
        xs = []
        while self.peek() not in (None, '|', ')'):
            a = self.atom()
            if a is None:
                continue
            a = self.repeat(a)
            xs.append(a)
        return ('cat', xs)

    def repeat(self, a):
        while True:
            c = self.peek()
            if c == '*':
                self.i += 1
                lo, hi = 0, None
            elif c == '+':
                self.i += 1
                lo, hi = 1, None
            elif c == '?':
                self.i += 1
                lo, hi = 0, 1
            elif c == '{':
                j = self.s.find('}', self.i)
                if j < 0:
                    raise RxError("unclosed repetition")
                body = self.s[self.i + 1:j]
                parts = body.split(',')
                try:
                    lo = int(parts[0])
                    hi = lo if len(parts) == 1 else (int(parts[1]) if parts[1] else None)
                except (ValueError, IndexError):
                    raise RxError("bad repetition {%s}" % body)
                if len(parts) > 2:
                    raise RxError("bad repetition {%s}" % body)
                self.i = j + 1
            else:
                return a
            if a[0] in ('bol', 'eol') and False:
                raise RxError("repetition of anchor")
            if self.peek() == '?':
                self.i += 1            # laziness does not change the language
            a = ('rep', a, lo, hi)

    def lit(self, c):
        if self.icase and c.isalpha():
            return frozenset([c.lower(), c.upper()])
        return frozenset([c])

    def fold(self, cs):
        if self.icase:
            cs = frozenset(x for c in cs for x in ((c.lower(), c.upper()) if c.isalpha() else (c,)))
        return cs

    def atom(self):
        c = self.peek()
        if c == '(':
            return self.group()
        if c == '[':
            return ('cs', self.cls())
        if c == '.':
            self.i += 1
            return ('cs', USET)
        if c == '^':
            self.i += 1
            return ('bol',)
        if c == '$':
            self.i += 1
            return ('eol',)
        if c == '\\':
            return self.escape(False)
        if c in '*+?{':
            raise RxError("repetition operator missing expression")
        self.i += 1
        return ('cs', self.lit(c))

    def group(self):
        self.i += 1
        if self.peek() != '?':
            self.ngroups += 1
            k = self.ngroups
            a = self.alt()
            self.close()
            return ('grp', k, a)
        self.i += 1
        m = self.s[self.i:]
        if m.startswith('P<') or (m.startswith('<') and not m.startswith('<=') and not m.startswith('<!')):
            j = self.s.index('>', self.i)
            name = self.s[self.s.index('<', self.i) + 1:j]
            self.i = j + 1
            self.ngroups += 1
            k = self.ngroups
            if name in self.names:
                raise RxError("duplicate capture group name")
            self.names[name] = k
            a = self.alt()
            self.close()
            return ('grp', k, a)
        on = True
        while True:
            c = self.peek()
            if c is None:
                raise RxError("unclosed group")
            self.i += 1
            if c == '-':
                on = False
            elif c == 'i':
                self.icase = on
            elif c in 'sUum':
                if c == 'm' and on:
                    raise RxError("multi-line mode is not supported by this analysis")
            elif c == ')':
                return None
            elif c == ':':
                ic = self.icase
                a = self.alt()
                self.icase = ic
                self.close()
                return ('cat', [a])
            else:
                raise RxError("unsupported group flag %r" % c)

    def close(self):
        if self.peek() != ')':
            raise RxError("unclosed group")
        self.i += 1

    def escape(self, incls):
        self.i += 1
        c = self.peek()
        if c is None:
            raise RxError("trailing backslash")
        self.i += 1
        if c == 'd':
            r = frozenset('0123456789')
        elif c == 'D':
            r = USET - frozenset('0123456789')
        elif c == 'w':
            r = frozenset(x for x in U if x.isalnum() or x == '_')
        elif c == 'W':
            r = frozenset(x for x in U if not (x.isalnum() or x == '_'))
        elif c == 's':
            r = frozenset()
        elif c == 'S':
            r = USET
        elif c == 'A' and not incls:
            return ('bol',)
        elif c == 'z' and not incls:
            return ('eol',)
        elif c in 'nrtfv':
            r = frozenset()
        elif c == 'x':
            if self.peek() == '{':
                j = self.s.index('}', self.i)
                ch = chr(int(self.s[self.i + 1:j], 16))
                self.i = j + 1
            else:
                ch = chr(int(self.s[self.i:self.i + 2], 16))
                self.i += 2
            r = self.lit(ch)
        elif c in 'pPbB' or c.isdigit() or c.isalpha():
            raise RxError("unsupported escape \\%s" % c)
        else:
            r = self.lit(c)
        if incls:
            return r
        return ('cs', r)

    def cls(self):
        self.i += 1
        neg = False
        if self.peek() == '^':
            neg = True
            self.i += 1
        out = set()
        first = True
        while True:
            c = self.peek()
            if c is None:
                raise RxError("unclosed character class")
            if c == ']' and not first:
                self.i += 1
                break
            first = False
            if c == '[':
                if self.s.startswith('[:', self.i):
                    raise RxError("unsupported character class")
                out |= self.cls()
                continue
            if self.s.startswith('&&', self.i) or self.s.startswith('--', self.i) or self.s.startswith('~~', self.i):
                raise RxError("unsupported class operation")
            if c == '\\':
                x = self.escape(True)
            else:
                self.i += 1
                x = frozenset([c])
            if self.peek() == '-' and self.i + 1 < len(self.s) and self.s[self.i + 1] != ']' and len(x) == 1:
                self.i += 1
                if self.peek() == '\\':
                    y = self.escape(True)
                else:
                    y = frozenset([self.peek()])
                    self.i += 1
                lo, hi = ord(next(iter(x))), ord(next(iter(y)))
                if lo > hi:
                    raise RxError("invalid character range")
                out |= {chr(k) for k in range(lo, hi + 1) if k < 0x3000}
            else:
                out |= x
        out = self.fold(frozenset(out))
        if neg:
            out = USET - out
        return frozenset(out) & (USET if neg else frozenset(out))


class Rx:
    """A parsed pattern."""

    def __init__(self, text, icase=False):
        self.text = text
        p = Parser(text, icase)
        self.ast = p.parse()
        self.ngroups = p.ngroups
        self.names = p.names
        self.icase = icase

    def charsets(self):
        out = set()

        def go(a):
            if a[0] == 'cs':
                out.add(a[1] & USET)
            elif a[0] in ('cat', 'alt'):
                for x in a[1]:
                    go(x)
            elif a[0] == 'rep':
                go(a[1])
            elif a[0] == 'grp':
                go(a[2])
        go(self.ast)
        return out

    def group_always(self, k):
        """Whether group k takes part in every match."""
        def go(a):
            if a[0] == 'grp':
                return a[1] == k or go(a[2])
            if a[0] == 'cat':
                return any(go(x) for x in a[1])
            if a[0] == 'alt':
                return all(go(x) for x in a[1])
            if a[0] == 'rep':
                return a[2] > 0 and go(a[1])
            return False
        return k == 0 or go(self.ast)


@functools.lru_cache(None)
def rx(text, icase=False):
    return Rx(text, icase)


# ---------------------------------------------------------------- automata

class Alphabet:
    """A partition of U that is fine enough for a number of character sets."""

    def __init__(self, charsets):
        sets = [s for s in charsets]
        key = {}
        for c in U:
            key.setdefault(tuple(c in s for s in sets), []).append(c)
        self.blocks = [frozenset(v) for v in key.values()]
        self.reps = [min(b) for b in self.blocks]
        self.n = len(self.blocks)
        self.of = {c: i for i, b in enumerate(self.blocks) for c in b}

    def ids(self, cs):
        out = []
        for i, b in enumerate(self.blocks):
            x = b & cs
            if x:
                if x != b:
                    raise Refine(cs)
                out.append(i)
        return out


class Refine(Exception):
    def __init__(self, cs):
        self.cs = cs


OPEN, CLOSE = 'OPEN', 'CLOSE'


class Nfa:
    def __init__(self):
        self.eps = []
        self.sym = []       # (charset|OPEN|CLOSE, target)
        self.asrt = []      # ('bol'|'eol', target)

    def new(self):
        self.eps.append([])
        self.sym.append([])
        self.asrt.append([])
        return len(self.eps) - 1


def build_nfa(r, mark=None):
    n = Nfa()

    def go(a, s):
        """adds `a` starting at state s, returns its end state"""
        t = a[0]
        if t == 'cs':
            e = n.new()
            n.sym[s].append((a[1] & USET, e))
            return e
        if t == 'bol' or t == 'eol':
            e = n.new()
            n.asrt[s].append((t, e))
            return e
        if t == 'cat':
            for x in a[1]:
                s = go(x, s)
            return s
        if t == 'alt':
            e = n.new()
            for x in a[1]:
                b = n.new()
                n.eps[s].append(b)
                n.eps[go(x, b)].append(e)
            return e
        if t == 'grp':
            if a[1] == mark:
                b = n.new()
                n.sym[s].append((OPEN, b))
                x = go(a[2], b)
                e = n.new()
                n.sym[x].append((CLOSE, e))
                return e
            return go(a[2], s)
        if t == 'rep':
            _, x, lo, hi = a
            if lo > 200 or (hi or 0) > 200:
                raise RxError("huge repetition")
            for _ in range(lo):
                s = go(x, s)
            if hi is None:
                b = n.new()
                n.eps[s].append(b)
                y = go(x, b)
                n.eps[y].append(b)
                e = n.new()
                n.eps[b].append(e)
                return e
            ends = [s]
            for _ in range(hi - lo):
                s = go(x, s)
                ends.append(s)
            e = n.new()
            for z in ends:
                n.eps[z].append(e)
            return e
        raise RxError("internal: %r" % (a,))

    start = n.new()
    n.sym[start].append((USET, start))      # unanchored search
    b = n.new()
    n.eps[start].append(b)
    if mark == 0:
        c = n.new()
        n.sym[b].append((OPEN, c))
        x = go(r.ast, c)
        e = n.new()
        n.sym[x].append((CLOSE, e))
    else:
        e = go(r.ast, b)
    n.sym[e].append((USET, e))
    return n, start, e


class Dfa:
    """Complete DFA over the blocks of an alphabet (plus OPEN, CLOSE when marked)."""

    def __init__(self, alpha, syms, delta, start, acc):
        self.alpha = alpha
        self.syms = syms
        self.delta = delta       # list of tuples
        self.start = start
        self.acc = acc           # list of bool

    def product(self, other, f):
        assert self.syms == other.syms
        ids = {}
        delta = []
        acc = []
        todo = []

        def get(p):
            if p not in ids:
                ids[p] = len(ids)
                delta.append(None)
                acc.append(f(self.acc[p[0]], other.acc[p[1]]))
                todo.append(p)
            return ids[p]
        st = get((self.start, other.start))
        while todo:
            p = todo.pop()
            a, b = self.delta[p[0]], other.delta[p[1]]
            delta[ids[p]] = tuple(get(q) for q in zip(a, b))
        return Dfa(self.alpha, self.syms, delta, st, acc).minimize()

    def minimize(self):
        part = [1 if a else 0 for a in self.acc]
        n = len(set(part))
        while True:
            key = {}
            new = []
            for i in range(len(part)):
                k = (part[i],) + tuple(part[j] for j in self.delta[i])
                new.append(key.setdefault(k, len(key)))
            if len(key) == n:
                break
            part, n = new, len(key)
        part = new
        delta = [None] * n
        acc = [False] * n
        for i, c in enumerate(part):
            delta[c] = self.delta[i]
            acc[c] = self.acc[i]
        # canonical numbering, so that equal languages are the same object
        order = {part[self.start]: 0}
        todo = [part[self.start]]
        for c in todo:
            for j in delta[c]:
                j = part[j]
                if j not in order:
                    order[j] = len(order)
                    todo.append(j)
        nd = tuple(tuple(order[part[j]] for j in delta[c]) for c in todo)
        na = tuple(acc[c] for c in todo)
        table = self.alpha.__dict__.setdefault('interned', {})
        key = (nd, na)
        if key not in table:
            table[key] = Dfa(self.alpha, self.syms, nd, 0, na)
        return table[key]

    def cached(self, op, o, f):
        table = self.alpha.__dict__.setdefault('products', {})
        key = (op, id(self), id(o))
        if key not in table:
            table[key] = (self.product(o, f), self, o)
        return table[key][0]

    def __and__(self, o):
        return self.cached('&', o, lambda a, b: a and b)

    def __sub__(self, o):
        return self.cached('-', o, lambda a, b: a and not b)

    def __or__(self, o):
        return self.cached('|', o, lambda a, b: a or b)

    def same(self, o):
        """whether both accept the same words"""
        if self is o:
            return True
        seen = {(self.start, o.start)}
        todo = [(self.start, o.start)]
        while todo:
            a, b = todo.pop()
            if self.acc[a] != o.acc[b]:
                return False
            for p in zip(self.delta[a], o.delta[b]):
                if p not in seen:
                    seen.add(p)
                    todo.append(p)
        return True

    def xor(self, o):
        return self.product(o, lambda a, b: a != b)

    def empty(self):
        return self.example() is None

    def example(self):
        """a shortest member (list of symbols joined), or None"""
        seen = {self.start: ''}
        todo = [self.start]
        while todo:
            nxt = []
            for q in todo:
                if self.acc[q]:
                    return seen[q]
                for k, t in enumerate(self.delta[q]):
                    if t not in seen:
                        c = self.syms[k]
                        seen[t] = seen[q] + (self.alpha.reps[c] if isinstance(c, int) else
                                             ('<' if c == OPEN else '>'))
                        nxt.append(t)
            todo = nxt
        return None

    def accepts(self, s):
        q = self.start
        for c in s:
            if c not in self.alpha.of:
                return False
            q = self.delta[q][self.alpha.of[c]]
        return self.acc[q]

    def mark_loops(self):
        """the same language with arbitrary markers inserted"""
        table = self.alpha.__dict__.setdefault('marked', {})
        if id(self) not in table:
            table[id(self)] = (self._mark_loops(), self)
        return table[id(self)][0]

    def _mark_loops(self):
        syms = list(range(self.alpha.n)) + [OPEN, CLOSE]
        delta = [tuple(d) + (i, i) for i, d in enumerate(self.delta)]
        return Dfa(self.alpha, syms, delta, self.start, self.acc)


def dfa_of(r, alpha, mark=None):
    key = (r.text, r.icase, mark)
    cache = alpha.__dict__.setdefault('cache', {})
    if key in cache:
        return cache[key]
    n, start, final = build_nfa(r, mark)
    syms = list(range(alpha.n)) + ([OPEN, CLOSE] if mark is not None else [])
    # edges by symbol
    edges = []
    for q in range(len(n.sym)):
        e = {}
        for cs, t in n.sym[q]:
            if cs in (OPEN, CLOSE):
                e.setdefault(cs, []).append(t)
            else:
                for k in alpha.ids(cs):
                    e.setdefault(k, []).append(t)
        edges.append(e)

    def closure(states):
        # states: (q, at_start, committed_to_end)
        out = set(states)
        todo = list(states)
        while todo:
            q, b, c = todo.pop()
            for t in n.eps[q]:
                x = (t, b, c)
                if x not in out:
                    out.add(x)
                    todo.append(x)
            for kind, t in n.asrt[q]:
                if kind == 'bol':
                    if not b:
                        continue
                    x = (t, b, c)
                else:
                    x = (t, b, True)
                if x not in out:
                    out.add(x)
                    todo.append(x)
        return frozenset(out)

    ids = {}
    delta = []
    acc = []
    todo = []

    def get(S):
        if S not in ids:
            ids[S] = len(ids)
            delta.append(None)
            acc.append(any(q == final for q, _, _ in S))
            todo.append(S)
        return ids[S]
    st = get(closure([(start, True, False)]))
    while todo:
        S = todo.pop()
        row = []
        for k in syms:
            nxt = set()
            for q, b, c in S:
                if isinstance(k, int) and c:
                    continue
                for t in edges[q].get(k, ()):
                    nxt.add((t, b if not isinstance(k, int) else False, c))
            row.append(get(closure(nxt)))
        delta[ids[S]] = tuple(row)
    d = Dfa(alpha, syms, delta, st, acc).minimize()
    cache[key] = d
    return d


def everything(alpha):
    if 'everything' not in alpha.__dict__:
        alpha.everything = Dfa(alpha, list(range(alpha.n)), [tuple([0] * alpha.n)], 0, [True])
    return alpha.everything


def literal(alpha, s):
    r = rx('^' + ''.join('\\x{%x}' % ord(c) for c in s) + '$')
    return dfa_of(r, alpha)


def capture_is(r, k, lang, alpha, depth=14):
    """Which part of every path in `lang` does group `k` of `r` hold?

    Returns ('seg', i), ('rest', i), ('all',) or None if it is none of these for all of `lang`.
    """
    d = dfa_of(r, alpha, mark=k) & lang.mark_loops()
    cands = [('all',)]
    for i in range(depth):
        cands.append(('seg', i))
        cands.append(('rest', i))
    for c in cands:
        if c[0] == 'all':
            p, m = rx('^(.*)$'), 1
        elif c[0] == 'seg':
            p, m = rx('^(?:/[^/]*){%d}/([^/]*)(?:/.*)?$' % c[1]), 1
        else:
            p, m = rx('^(?:/[^/]*){%d}/(.*)$' % c[1]), 1
        e = dfa_of(p, alpha, mark=m) & lang.mark_loops()
        if d.same(e):
            return c
    return None


def enclosed(d):
    """marked words whose part between the markers is in the language d"""
    alpha = d.alpha
    n = len(d.delta)
    pre, post, dead = n, n + 1, n + 2
    delta = [tuple(row) + (dead, post if d.acc[i] else dead) for i, row in enumerate(d.delta)]
    k = alpha.n
    delta += [(pre,) * k + (d.start, dead), (post,) * k + (dead, dead), (dead,) * (k + 2)]
    return Dfa(alpha, list(range(k)) + [OPEN, CLOSE], delta, pre, [False] * n + [False, True, False]).minimize()


def unmarked(d):
    """the words of d without their markers"""
    alpha = d.alpha
    k = alpha.n

    def closure(S):
        out = set(S)
        todo = list(S)
        while todo:
            q = todo.pop()
            for t in d.delta[q][k:]:
                if t not in out:
                    out.add(t)
                    todo.append(t)
        return frozenset(out)
    ids, delta, acc, todo = {}, [], [], []

    def get(S):
        if S not in ids:
            ids[S] = len(ids)
            delta.append(None)
            acc.append(any(d.acc[q] for q in S))
            todo.append(S)
        return ids[S]
    st = get(closure([d.start]))
    while todo:
        S = todo.pop()
        delta[ids[S]] = tuple(get(closure([d.delta[q][i] for q in S])) for i in range(k))
    return Dfa(alpha, list(range(k)), delta, st, acc).minimize()


def capture_in(r, k, d, lang, alpha):
    """the paths of `lang` for which group k of r holds a word of d; None if that is not determined by the path"""
    m = dfa_of(r, alpha, mark=k) & lang.mark_loops()
    yes = unmarked(m & enclosed(d)) & lang
    no = unmarked(m & enclosed(everything(alpha) - d)) & lang
    if not (yes & no).empty() or not (lang - yes - no).empty():
        return None
    return yes


BASE_SETS = [frozenset('/'), frozenset(c for c in U if c.islower()), frozenset(c for c in U if c.isupper()),
             frozenset('0123456789'), frozenset('_')]


def selftest():
    al = Alphabet(BASE_SETS + [frozenset(c) for c in 'ab.*-'])
    a = dfa_of(rx(r'^/a/([^/]+)$'), al)
    assert a.accepts('/a/b') and not a.accepts('/a/') and not a.accepts('/a/b/') and not a.accepts('x/a/b')
    st = dfa_of(rx(r'\*'), al)
    assert st.accepts('/a*') and not dfa_of(rx(r'^\*$'), al).accepts('/a*')
    b = dfa_of(rx(r'^/a/(.*)$'), al)
    assert not (a & b).empty() and (dfa_of(rx('^/$'), al) & dfa_of(rx('^/([^/]+)$'), al)).empty()
    r = rx(r'^/a/([^/]+)/x/(.*)$')
    al = Alphabet(BASE_SETS + list(r.charsets()))
    L = dfa_of(r, al)
    assert capture_is(r, 1, L, al) == ('seg', 1), capture_is(r, 1, L, al)
    assert capture_is(r, 2, L, al) == ('rest', 3)
    assert dfa_of(rx('(?i)^/AB$'), Alphabet([frozenset(c) for c in 'abAB/'])).accepts('/aB')
    assert rx('^/(a)?(b)$').group_always(2) and not rx('^/(a)?(b)$').group_always(1)
    y = capture_in(r, 1, literal(al, 'a'), L, al)
    assert y.accepts('/a/a/x/') and not y.accepts('/a/x/x/a')
    assert capture_in(rx('^(.*)/(.*)$'), 1, literal(al, '/a'), everything(al), al) is None
    assert dfa_of(rx('a$'), al).accepts('xxa') and not dfa_of(rx('a$'), al).accepts('xab')
    assert dfa_of(rx('^$'), al).accepts('') and not dfa_of(rx('^$'), al).accepts('a')


if __name__ == '__main__':
    selftest()
    print('ok')
