"""C12: malformed declarations have to be refused.  Each comes with a well-formed twin, so that a refusal for an
unrelated reason does not count as a decision."""
import random

import build
import compiler
import decl as D

# U can play every role, so that nothing but the declaration itself can be the reason for a refusal
HEAD = D.PRELUDE.replace('\n', ' ') + r''' pub struct U;
impl std::str::FromStr for U { type Err = PE; fn from_str(_: &str) -> Result<Self, PE> { loop {} } }
impl<'de> serde::Deserialize<'de> for U { fn deserialize<D: serde::Deserializer<'de>>(_: D) -> Result<Self, D::Error> { loop {} } }
impl Guard for U { type Context = NoContext; type Result = Result<Self, BoxedError>;
    fn from_request(_: &Arc<http::Request<()>>, _: &NoContext) -> Self::Result { loop {} } }
impl FromBody for U { type Context = NoContext; type Result = Result<Self, BoxedError>;
    fn from_body(_: &Arc<http::Request<()>>, _: hyper::Body, _: &NoContext) -> Self::Result { loop {} } }
impl FromRequest for U { type Context = NoContext; type Future = DefaultFuture<Self, BoxedError>;
    fn from_request_and_body(_: &Arc<http::Request<()>>, _: hyper::Body, _: NoContext) -> Self::Future { loop {} } }
'''.replace('\n', ' ') + '\n'
DER = '#[derive(FromRequest)] '


def flds(names):
    """'x y:body' -> fields"""
    out = []
    for f in names.split():
        n, _, a = f.partition(':')
        out.append(''.join('#[%s] ' % x for x in a.split('+') if x) + n + ': U')
    return '{ %s }' % ', '.join(out)


def surroundings(rng, n, routes):
    """random well-formed variants, to stand around the one in question"""
    out = []
    for _ in range(n):
        k = 'O%d' % rng.randrange(10 ** 6)
        fields = ['g%d' % i for i in range(rng.choice((0, 0, 1, 2, 3)))]
        path = '/' + k.lower()
        for i in range(rng.choice((0, 0, 1, 2, 4))):
            path += rng.choice(('/lit', '/{p%d}' % i, '/{p%d}' % i))
            if path.endswith('}'):
                fields.append('p%d' % i)
        if rng.random() < .2:
            path += '/{r...}'
            fields.append('r')
        if rng.random() < .3:
            fields.append('q:query_params')
        if rng.random() < .3:
            fields.append('b:' + rng.choice(('body', 'forward')))
        rng.shuffle(fields)
        verbs = rng.sample([v for v in D.VERBS], rng.choice((1, 1, 1, 2, 3)))
        if not routes or rng.random() < .2:
            out.append(k + rng.choice(('', ' { u: U }', '(U, U)', '()')))
        else:
            out.append(' '.join('#[%s("%s")]' % (v, path) for v in verbs) + ' ' + k + ' ' + flds(' '.join(fields)))
    return out


class Cases:
    def __init__(self, tier):
        self.out = []       # (what, bad, good)
        self.n = 0
        self.rng = random.Random(20)
        self.around = 1 if tier == 'quick' else 6

    def add(self, what, bad, good):
        """templates in which NAME stands for the type's name"""
        k = self.n
        self.n += 1
        self.out.append((what, bad.replace('NAME', 'B%d' % k), good.replace('NAME', 'G%d' % k)))

    def both(self, what, bad, good, structs=True, enums=True):
        """bad and good: (attributes, fields) of a variant or struct"""
        def st(x):
            return DER + x[0] + ' pub struct NAME ' + body(x[1], True)

        def en(x, before, after):
            return DER + 'pub enum NAME { ' + before + x[0] + ' V ' + body(x[1], False) + after + ' }'
        if structs:
            self.add(what + ' (struct)', st(bad), st(good))
        if enums:
            for before, after, w in (('', '', 'only variant'),
                                     ('', ', #[put("*")] W', 'first variant'),
                                     ('#[put("*")] W { g: U }, ', '', 'last variant'),
                                     ('N { u: U }, ', ', #[put("*")] X { #[body] b: U }, Y, ',
                                      'middle variant')):
                self.add('%s (enum, %s)' % (what, w), en(bad, before, after), en(good, before, after))
        for _ in range(self.around):
            free = '"/{' not in good[0]     # else its route would overlap with those around it
            pre = surroundings(self.rng, self.rng.choice((0, 1, 2, 5)), free)
            post = surroundings(self.rng, self.rng.choice((0, 1, 3)), free)
            extra = ['e%d' % i for i in range(self.rng.choice((0, 0, 1, 2, 4)))]
            cut = self.rng.randrange(len(extra) + 1)

            def more(f):
                """guards before and after the fields in question"""
                if f is None or f[:1] in '({' and f:
                    return f
                return ' '.join(extra[:cut] + [f] + extra[cut:])

            self.add(what + ' (enum, surrounded)',
                     DER + 'pub enum NAME { %s }' % ', '.join(
                         pre + [bad[0] + ' V ' + body(more(bad[1]), False)] + post),
                     DER + 'pub enum NAME { %s }' % ', '.join(
                         pre + [good[0] + ' V ' + body(more(good[1]), False)] + post))


def body(f, struct):
    if f is None:
        return ';' if struct else ''
    if f.startswith('('):
        return f + (';' if struct else '')
    if f.startswith('{'):
        return f
    return flds(f)


def cases(tier):
    c = Cases(tier)
    # --- route attributes
    for v in D.VERBS:
        for bad in ('#[%s]', '#[%s()]', '#[%s = "/x"]', '#[%s("/x", "/y")]', '#[%s(1)]', '#[%s(x)]', '#[%s(b"/x")]',
                    "#[%s('x')]", '#[%s(path = "/x")]', '#[%s("/x" "/y")]', '#[%s(true)]', '#[%s("/x", x)]',
                    '#[%s(x("/x"))]', '#[%s(1.0)]'):
            b = bad % v
            good = '#[%s("/x")]' % v
            c.both('attribute ' + b, (b, None), (good, None), structs=True, enums=v in ('get', 'patch'))
            o = '#[%s("/ok")] ' % ('post' if v != 'post' else 'put')
            c.both('a good route and the attribute ' + b, (o + b, None), (o + good, None), enums=v == 'get')
            c.both('the attribute ' + b + ' and a good route', (b + ' ' + o, None), (good + ' ' + o, None),
                   enums=v in ('get', 'trace'))
    # --- paths
    paths = [('', '/', ''), ('a', '/a', ''), ('a/b', '/a/b', ''), ('**', '*', ''), ('*a', '/*a', ''),
             ('*/', '/*/', ''), (' /a', '/a', ''), (' *', '*', ''), ('* ', '*', ''), ('{x}', '/{x}', 'x'),
             ('{x...}', '/{x...}', 'x'), ('x/{y}', '/x/{y}', 'y'), ('/{}', '/{x}', 'x'), ('/{1x}', '/{x1}', 'x1'),
             ('/{x-y}', '/{x_y}', 'x_y'), ('/{x y}', '/{xy}', 'xy'), ('/{_}', '/{x}', 'x'), ('/{...}', '/{x...}', 'x'),
             ('/{1...}', '/{x...}', 'x'), ('/{x..}', '/{x...}', 'x'), ('/{x....}', '/{x...}', 'x'),
             ('/{x.}', '/{x}', 'x'), ('/{...x}', '/{x...}', 'x'), ('/{{x}}', '/{x}', 'x'), ('/{x:U}', '/{x}', 'x'),
             ('/{x }', '/{x}', 'x'), ('/{ x}', '/{x}', 'x'), ('/{x+}', '/{x}', 'x'), ('/{x*}', '/{x...}', 'x'),
             ('/{x,y}', '/{x}', 'x'), ('/{_...}', '/{x...}', 'x'), ('/{$}', '/{x}', 'x'), ('/{0}', '/{x}', 'x'),
             ('/{r...}/', '/{r...}', 'r'), ('/{r...}/a', '/a/{r...}', 'r'), ('/{r...}/{x}', '/{x}/{r...}', 'x r'),
             ('/{r...}/{s...}', '/{s}/{r...}', 'r s'), ('/a/{r...}/b', '/a/b/{r...}', 'r'),
             ('/{x}/{r...}/{y}', '/{x}/{y}/{r...}', 'r x y'), ('/{r...}//', '//{r...}', 'r'),
             ('/{x}/{x}', '/{x}/{y}', 'x y'), ('/{x}/a/{x}', '/{x}/a/{y}', 'x y'), ('/{x}/{x...}', '/{x}/{y...}', 'x y'),
             ('/{x}/{y}/{x}', '/{x}/{y}/{z}', 'x y z'), ('/{y}/{x}/{x}/{z}', '/{y}/{x}/{w}/{z}', 'w x y z'),
             ('/{x}/{y}/{z}/{y...}', '/{x}/{y}/{z}/{w...}', 'w x y z'),
             ('/a/{}/b', '/a/{x}/b', 'x'), ('/{x}/{}', '/{x}/{y}', 'x y'), ('/{x}/{1}', '/{x}/{y}', 'x y'),
             ('/{}/{x}', '/{y}/{x}', 'x y')]
    for bad, good, fs in paths:
        for v in ('get', 'delete'):
            c.both('path "%s"' % bad, ('#[%s("%s")]' % (v, bad), fs), ('#[%s("%s")]' % (v, good), fs),
                   enums=v == 'get')
        if not fs:
            o = '#[post("/ok")] '
            c.both('path "%s" beside another route' % bad, (o + '#[get("%s")]' % bad, fs),
                   (o + '#[get("%s")]' % good, fs), enums=False)
            c.both('path "%s" before another route' % bad, ('#[get("%s")] ' % bad + o, fs),
                   ('#[get("%s")] ' % good + o, fs), enums=False)
    # --- the same with other segments around
    for pre, pf in (('/{p}', 'p'), ('/{p}/{q}', 'p q'), ('/a/{p}/b/{q}/c/{s}', 'p q s'), ('/{p}/{q}/{s}/{t}', 'p q s t'),
                    ('/a', ''), ('/a/b/c/d', ''), ('/' + '/'.join('{p%d}' % i for i in range(9)),
                                                  ' '.join('p%d' % i for i in range(9)))):
        def around(bad, good, fs):
            c.both('path "%s"' % bad, ('#[get("%s")]' % bad, ' '.join((pf, fs))),
                   ('#[get("%s")]' % good, ' '.join((pf, fs))), enums=False)

        for suf, sf in (('/', ''), ('/l', ''), ('/{z}', 'z'), ('/{z...}', 'z'), ('/l/{z}/m', 'z'), ('/{z}/{y}/{w}', 'w y z'),
                        ('//', '')):
            around(pre + '/{r...}' + suf, pre + '/{r}' + suf, 'r ' + sf)
            for b in ('{}', '{1}', '{v v}', '{_}', '{v-v}', '{...}', '{v..}', '{v+}'):
                around(pre + '/' + b + suf, pre + '/{v}' + suf, 'v ' + sf)
            if pf:
                first = pf.split()[0]
                last = pf.split()[-1]
                for x in sorted({first, last}):
                    around('%s/{%s}%s' % (pre, x, suf), '%s/{v}%s' % (pre, suf), 'v ' + sf)
                    around('%s/l%s/{%s}' % (pre, suf.replace('...', ''), x),
                           '%s/l%s/{v}' % (pre, suf.replace('...', '')), 'v ' + sf)
                    if '...' not in suf:
                        around('%s%s/{%s...}' % (pre, suf, x), '%s%s/{v...}' % (pre, suf), 'v ' + sf)
        for b, g in (('a' + pre, pre), (pre[1:], pre), (' ' + pre, pre)):
            around(b, g, '')
    # --- placeholders and fields
    for p, badf, goodf in (('/{x}', None, 'x'), ('/{x}', '', 'x'), ('/{x}', 'y', 'x'), ('/{x}', 'X', 'x'),
                           ('/{x}/{y}', 'x', 'y x'), ('/{x}/{y}', 'y', 'y x'), ('/{x...}', 'y', 'x y'),
                           ('/{a}/{b}', 'a', 'a b'), ('/{long_name}/{other}/{x...}', 'other x', 'long_name other x'),
                           ('/{a}/{b}/{c}/{d}/{e}/{f...}', 'f e d b a', 'a b c d e f'),
                           ('/{x}', 'y:body', 'y:body x'), ('/a/{x}/{y}/{z...}', 'x y', 'x y z'),
                           ('/a/{x}/{y}/{z...}', 'z y', 'x y z'), ('/{x}', 'xx x_', 'xx x x_')):
        c.both('placeholder without a field: "%s" with %s' % (p, badf), ('#[get("%s")]' % p, badf),
               ('#[get("%s")]' % p, goodf))
        c.both('placeholder without a field: "%s" with %s, two routes' % (p, badf),
               ('#[get("/c%s")] #[post("/b%s")]' % (p, p), badf), ('#[get("/c%s")] #[post("/b%s")]' % (p, p), goodf),
               enums=False)
    diff = [(['/{x}', '/a/{y}'], ['/{x}', '/a/{x}'], 'x y'), (['/{x}', '/'], ['/{x}', '/a/{x}'], 'x'),
            (['/', '/{x}'], ['/a/{x}', '/{x}'], 'x'), (['/{x}', '*'], ['/{x}', '/a/{x}'], 'x'),
            (['*', '/{x}'], ['*', '/'], 'x'),
            (['/{x}/{y}', '/a/b/{y}/{x}'], ['/{x}/{y}', '/a/b/{x}/{y}'], 'x y'),
            (['/{x}/{y}', '/a/b/c/{x}'], ['/{x}/{y}', '/a/b/{x}/{y}'], 'x y'),
            (['/{x}', '/a/{x}/{y}'], ['/{x}', '/a/{x}'], 'x y'),
            (['/{x}', '/a/{y...}'], ['/{x}', '/a/{x...}'], 'x y'),
            (['/{x}', '/a/{x}', '/b/{x}/{y}'], ['/{x}', '/a/{x}', '/b/{x}/c'], 'x y'),
            (['/{x}', '/a/{x}', '/b/{y}'], ['/{x}', '/a/{x}', '/b/{x}'], 'x y'),
            (['/{x}', '/b/{y}', '/a/{x}'], ['/{x}', '/b/{x}', '/a/{x}'], 'x y'),
            (['/1/{x}', '/2/{x}', '/3/{x}', '/4'], ['/1/{x}', '/2/{x}', '/3/{x}', '/4/{x}'], 'x'),
            (['/{a}/{b}/{c}', '/z/{a}/{c}/{b}'], ['/{a}/{b}/{c}', '/z/{a}/{b}/{c}'], 'a b c'),
            (['/{a}/{b}/{c}', '/z/{b}/{a}/{c}'], ['/{a}/{b}/{c}', '/z/{a}/{b}/{c}'], 'a b c'),
            (['/{a}/{b}/{c}', '/z/{c}/{a}/{b...}'], ['/{a}/{b}/{c}', '/z/{a}/{b}/{c...}'], 'a b c')]
    for b, g, fs in diff:
        vs = ['get', 'post', 'put', 'delete']
        for rot in (0, 1):
            def mk(ps):
                return ' '.join('#[%s("%s")]' % (vs[(i + rot) % 4], p) for i, p in enumerate(ps))
            c.both('routes of one variant with different placeholders: %s' % ' '.join(b), (mk(b), fs), (mk(g), fs),
                   enums=rot == 0)
    # --- field roles
    roles = ['body', 'query_params', 'forward']
    G = '#[get("/a")]'
    for a in roles:
        c.both('placeholder field with #[%s]' % a, ('#[get("/{x}")]', 'x:' + a), ('#[get("/{x}")]', 'x y:' + a))
        c.both('rest field with #[%s]' % a, ('#[get("/{x...}")]', 'g x:%s' % a), ('#[get("/{x...}")]', 'g y:%s x' % a))
        c.both('second placeholder with #[%s]' % a, ('#[get("/{y}/{x}")]', 'y x:%s' % a),
               ('#[get("/{y}/{x}")]', 'y z:%s x' % a), enums=False)
        c.both('#[%s] twice on one field' % a, (G, 'x:%s+%s' % (a, a)), (G, 'x:' + a))
        for other in ('x:%s y:%s', 'x:%s g y:%s', 'g x:%s y:%s h'):
            c.both('two fields with #[%s]' % a, (G, other % (a, a)), (G, other.replace('y:%s', 'y') % a))
        c.both('three fields with #[%s]' % a, (G, 'x:%s y:%s z:%s' % (a, a, a)), (G, 'x y z:' + a), enums=False)
        for b in roles:
            if b != a:
                c.both('one field with #[%s] and #[%s]' % (a, b), (G, 'x:%s+%s' % (a, b)),
                       (G, 'x:%s' % a))
                c.both('one field with #[%s] and #[%s] among others' % (a, b), (G, 'g x:%s+%s h' % (a, b)),
                       (G, 'g x:%s h' % b), enums=False)
        for bad in ('#[%s(x)]', '#[%s = "x"]', '#[%s()]', '#[%s("x")]', '#[%s(a b)]', '#[%s(x = 1)]'):
            b = bad % a
            c.both('field attribute ' + b, (G, '{ %s x: U }' % b), (G, 'x:' + a))
            c.both('field attribute %s beside the right one' % b, (G, '{ #[%s] %s x: U }' % (a, b)), (G, 'x:' + a),
                   enums=False)
    for x, y in (('body', 'forward'), ('forward', 'body')):
        for f in ('x:%s y:%s', 'g x:%s h y:%s', 'x:%s q:query_params y:%s'):
            c.both('#[%s] and #[%s] in one variant' % (x, y), (G, f % (x, y)), (G, f.replace('y:%s', 'y') % x))
        c.both('#[%s] and #[%s] with a placeholder' % (x, y), ('#[get("/{p}")]', 'x:%s p y:%s' % (x, y)),
               ('#[get("/{p}")]', 'x:%s p y' % x), enums=False)
        c.both('#[%s] and #[%s] in a fallback' % (x, y), ('', 'x:%s y:%s' % (x, y)), ('', 'x:forward y'))
    # --- no route
    for a in ('body', 'query_params'):
        c.both('#[%s] without a route' % a, ('', 'x:' + a), (G, 'x:' + a))
        c.both('#[%s] and guards without a route' % a, ('', 'g x:%s h' % a), (G, 'g x:%s h' % a))
    c.both('#[query_params] in a fallback', ('', 'x:forward q:query_params'), ('', 'x:forward q'))
    c.both('#[query_params] before #[forward] in a fallback', ('', 'q:query_params g x:forward'), ('', 'q g x:forward'))
    c.both('#[body] and #[query_params] without a route', ('', 'b:body q:query_params'), (G, 'b:body q:query_params'))
    # --- fallbacks
    for b, g in (('A { #[forward] f: U }, B { #[forward] f: U }', 'A { #[forward] f: U }, B { f: U }'),
                 ('A { #[forward] f: U }, #[get("/x")] X, B { g: U, #[forward] f: U }',
                  'A { #[forward] f: U }, #[get("/x")] X, B { g: U, f: U }'),
                 ('#[get("/x")] X, A { #[forward] f: U }, B { #[forward] f: U }, C { #[forward] f: U }',
                  '#[get("/x")] X, A { #[forward] f: U }, B, C'),
                 ('#[get("/x")] X { #[forward] f: U }, A { #[forward] f: U }, B { #[forward] f: U, g: U }',
                  '#[get("/x")] X { #[forward] f: U }, A { #[forward] f: U }, #[get("/b")] B { #[forward] f: U, g: U }')):
        c.add('several fallback variants', DER + 'pub enum NAME { %s }' % b, DER + 'pub enum NAME { %s }' % g)
    # --- misplaced attributes
    for a in roles:
        c.both('#[%s] on a variant or struct' % a, (G + ' #[%s]' % a, 'x'), (G, 'x'))
        c.both('#[%s] before the route' % a, ('#[%s] ' % a + G, 'x'), (G, 'x'))
        c.both('#[%s(x)] on a variant or struct' % a, (G + ' #[%s(x)]' % a, 'x'), (G, 'x'), enums=False)
        c.add('#[%s] on an enum' % a, DER + '#[%s] pub enum NAME { #[get("/")] A }' % a,
              DER + 'pub enum NAME { #[get("/")] A }')
        c.add('#[%s] on a fallback variant' % a, DER + 'pub enum NAME { #[%s] A { #[forward] f: U } }' % a,
              DER + 'pub enum NAME { A { #[forward] f: U } }')
        c.add('#[%s] on a variant without route' % a, DER + 'pub enum NAME { #[get("/")] A, #[%s] B { f: U } }' % a,
              DER + 'pub enum NAME { #[get("/")] A, B { f: U } }')
        c.add('#[%s] on an unnamed field' % a, DER + 'pub enum NAME { #[get("/")] A, B(#[%s] U) }' % a,
              DER + 'pub enum NAME { #[get("/")] A, B(U) }')
        c.add('#[%s] on a later unnamed field' % a, DER + 'pub enum NAME { #[get("/")] A, B(U, #[%s] U) }' % a,
              DER + 'pub enum NAME { #[get("/")] A, B(U, U) }')
    for v in D.VERBS:
        c.add('route attribute on an enum', DER + '#[%s("/x")] pub enum NAME { #[get("/")] A }' % v,
              DER + 'pub enum NAME { #[get("/")] A, #[%s("/x")] B }' % v)
        c.both('route attribute on a field', (G, '{ #[%s("/x")] x: U }' % v), (G, 'x'), enums=v in ('get', 'patch'))
        c.both('route attribute on a field of two', (G, '{ y: U, #[%s("/x")] #[body] x: U }' % v), (G, 'y x:body'),
               enums=False)
        for a in ('body', 'query_params', 'forward'):
            c.both('route attribute on a field with a role', (G, '{ y: U, #[%s] #[%s("/x")] x: U }' % (a, v)), (G, 'y x:%s' % a),
                   enums=v == 'put')
        c.both('route attribute on a placeholder field', ('#[get("/{x}")]', '{ #[%s("/x")] x: U }' % v),
               ('#[get("/{x}")]', 'x'), enums=False)
        c.add('route attribute on a field of an unrouted variant',
              DER + 'pub enum NAME { #[get("/")] A, B { #[%s("/b")] x: U } }' % v,
              DER + 'pub enum NAME { #[get("/")] A, #[%s("/b")] B { x: U } }' % v)
    c.both('#[context] on a variant', (G + ' #[context(NoContext)]', 'x'), (G, 'x'), structs=False)
    c.both('#[context] on a field', (G, '{ #[context(NoContext)] x: U }'), (G, 'x'))
    c.both('#[context] on a placeholder field', ('#[get("/{x}")]', '{ #[context(NoContext)] x: U }'),
           ('#[get("/{x}")]', 'x'))
    good = '#[context(NoContext)] '
    for b in ('#[context]', '#[context = "NoContext"]', '#[context()]', '#[context("NoContext")]', '#[context(1)]',
              '#[context(NoContext, NoContext)]', '#[context(NoContext)] #[context(NoContext)]',
              '#[context(NoContext)] #[context(Ctx)]', '#[context(NoContext NoContext)]', '#[context(U)]',
              '#[context(nothing)]', '#[context(NoContext)] #[context]'):
        c.add('attribute ' + b, DER + b + ' pub enum NAME { #[get("/")] A }',
              DER + good + 'pub enum NAME { #[get("/")] A }')
        c.add('attribute ' + b + ' (struct)', DER + b + ' #[get("/")] pub struct NAME;',
              DER + good + ' #[get("/")] pub struct NAME;')
        c.add('attribute ' + b + ' last (struct)', DER + ' #[get("/")] ' + b + ' pub struct NAME { g: U }',
              DER + ' #[get("/")] ' + good + 'pub struct NAME { g: U }')
    # --- kinds of types
    for a, b in (('#[get("/")]', '#[get("/")]'), ('#[get("/{x}")]', '#[get("/{x}")]'),
                 ('#[get("/a")] #[post("/b")]', '#[get("/a")] #[post("/b")]')):
        c.both('tuple variant with a route', (a, '(U)'), (b, 'x'))
        c.both('tuple variant with two fields and a route', (a, '(U, U)'), (b, 'x y'))
    c.both('empty tuple variant with a route', (G, '()'), (G, ''))
    c.both('tuple fallback', ('', '(#[forward] U)'), ('', 'f:forward'))
    c.both('tuple variant with a body', (G, '(#[body] U)'), (G, 'f:body'))
    c.add('union', DER + '#[get("/")] pub union NAME { a: u8 }', DER + '#[get("/")] pub struct NAME { a: U }')
    c.add('union', DER + 'pub union NAME { a: u8, b: u16 }', DER + '#[get("/")] pub struct NAME { a: U, b: U }')
    c.add('empty enum', DER + 'pub enum NAME {}', DER + 'pub enum NAME { #[get("/")] A }')
    c.add('enum without routes', DER + 'pub enum NAME { A, B { x: U }, C(U) }',
          DER + 'pub enum NAME { A, #[get("/")] B { x: U }, C(U) }')
    c.add('enum without routes', DER + 'pub enum NAME { A { x: U } }', DER + 'pub enum NAME { A { #[forward] x: U } }')
    c.add('struct without routes', DER + 'pub struct NAME;', DER + '#[get("/")] pub struct NAME;')
    c.add('struct without routes', DER + 'pub struct NAME { x: U }', DER + '#[get("/")] pub struct NAME { x: U }')
    c.add('struct without routes', DER + 'pub struct NAME {}', DER + '#[get("/")] pub struct NAME {}')
    c.add('tuple struct without routes', DER + 'pub struct NAME(U);', DER + '#[get("/")] pub struct NAME { x: U }')
    c.add('struct with a context only', DER + '#[context(NoContext)] pub struct NAME { x: U }',
          DER + '#[context(NoContext)] #[get("/")] pub struct NAME { x: U }')
    # --- the same in generic types and with a context
    for what, b, g in (('placeholder without a field', '#[get("/{y}")] pub struct NAME<T> { x: T }',
                        '#[get("/{x}")] pub struct NAME<T> { x: T }'),
                       ('two bodies', '#[get("/y")] pub struct NAME<T, V> { #[body] x: T, #[body] y: V }',
                        '#[get("/y")] pub struct NAME<T, V> { #[body] x: T, y: V }'),
                       ('two roles', '#[get("/{x}")] pub struct NAME<T> { #[body] x: T }',
                        '#[get("/{x}")] pub struct NAME<T> { #[body] y: T, x: T }'),
                       ('tuple struct', '#[get("/")] pub struct NAME<T>(T);', '#[get("/")] pub struct NAME<T> { g: T }'),
                       ('several fallbacks', 'pub enum NAME<T> { A { #[forward] f: T }, B { #[forward] f: T } }',
                        'pub enum NAME<T> { A { #[forward] f: T }, B }'),
                       ('no route', 'pub enum NAME<T> { A { f: T } }', 'pub enum NAME<T> { A { #[forward] f: T } }')):
        for ctx in ('', '#[context(NoContext)] '):
            c.add('generic type: ' + what, DER + ctx + b, DER + ctx + g)
    return c.out


def check(r, procs=8):
    build.prepare()
    cs = cases(r.tier)
    good = compiler.compile_good([(i, g) for i, (_, _, g) in enumerate(cs)], procs, HEAD)
    gotb, other = compiler.expand([b for _, b, _ in cs], procs, HEAD)
    for o in other[:5]:
        r.open('diagnostic outside all declarations: ' + o)
    left = [i for i, g in enumerate(gotb) if g is None]
    full = compiler.compile_each([HEAD + cs[i][1] for i in left], procs)
    by = {'expansion': len(cs) - len(left), 'type checking': sum(1 for f in full if f is not None)}
    decided = 0
    accepted = dict(zip(left, full))
    for i, (what, b, g) in enumerate(cs):
        if i in accepted and accepted[i] is None:
            r.violation(b, 'compiles, although it is malformed: ' + what)
            decided += 1
        elif good.get(i) is not None:
            r.open('the well-formed twin of "%s" does not compile: %s: %s' % (what, g, good[i][0]))
        else:
            decided += 1
    r.coverage = {
        'programs': 2 * len(cs), 'disagreements_checked': len(cs), 'refused_at': by, 'twins': len(cs),
        'samples': [{'malformed': cs[i][1], 'well_formed': cs[i][2], 'why': cs[i][0]}
                    for i in range(0, len(cs), len(cs) // 12)],
        'exhaustive': False,
        'explanation': 'rule: every malformed declaration is refused by the derive or by the type checker of what it '
                       'expands to, and its minimally corrected twin compiles'}
    r.assumptions = ['malformed declarations outside the enumerated classes are not covered']
    return r.finish(decided, len(cs))
