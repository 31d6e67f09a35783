"""The declarations analysed: a fixed list covering the forms the documentation describes, and (thorough
tier) a pseudo-random continuation of it."""
import random

import decl as D
import rx as R
from decl import Decl

TEXT = {
    'verbs': '''
        Get: get /
        Head: head /
        Post: post /
        Put: put /
        Delete: delete /
        Connect: connect /
        Options: options /
        Trace: trace /
        Patch: patch /
    ''',
    'onevariant': '''
        All: get /x; head /x; post /x; put /x; delete /x; connect /x; options /x; trace /x; patch /x
        Some: patch /y; delete /y
    ''',
    'heads': '''
        A: get /a
        B1: head /b
        B2: get /b
        C1: get /c
        C2: head /c
        D: get /d; head /d
        E: head /e
        F: post /f; get /f
        G1: post /g
        G2: put /g
    ''',
    'headcap': '''
        A: get /a/{x} | x:P0
        H: head /a/{y} | y:P1
        B: get /b/{x}; post /c/{x} | x:P2
        C: put /c/{z} | z:P3
    ''',
    'headrest': '''
        A: get /a/{x...} | x:P0 g:G0
        B: delete /a/{x...} | x:P1
    ''',
    'literals': '''
        A: get /a.b
        B: get /a+b
        C: get /a*
        D: get /(x)
        E: get /[x]
        F: get /a|b
        G: get /a-b
        H: get /%20
        I: get /~u
        J: get /a$
    ''',
    'literals2': '''
        A: get //
        B: get /a//b
        C: get /a/
        D: get /a
        E: get /ab
        F: get /A
        G: get /a/b
        H: get /a/b/
        I: get /{
        J: get /a{b}
        K: get /x^
        L: post /x^
    ''',
    'star': '''
        A: options *
        B: get /
        C: get /a/{x} | x:P0
    ''',
    'starlast': '''
        B: get /{x...} | x:P0
        A: options *; get *
    ''',
    'staronly': '''
        A: options * | g:G0 b:B0
    ''',
    'cap1': '''
        A: get /{x} | x:P0
        B: post /{x} | x:P1
        C: put /{y} | y:P0
    ''',
    'cap2': '''
        A: get /{x}/{y} | y:P0 x:P0
        B: post /{y}/{x} | x:P1 y:P0 g:G0
        C: get /{x}/{y}/ | x:P0 y:P1
    ''',
    'cap3': '''
        A: get /{a}/lit/{b}/{c} | c:P0 b:P1 a:P2
        B: get /{a}/other/{b}; delete /{a}/third/x/{b} | a:P0 b:P0
    ''',
    'cap12': '''
        A: get /{a}/{b}/{c}/{d}/{e}/{f}/{g}/{h}/{i}/{j}/{k}/{l...} | l:P0 a:P1 k:P2 b:P3 j:P4 c:P5 i:P6 d:P7 h:P8 e:P9 g:P0 f:P1
    ''',
    'rest': '''
        A: get /{x...} | x:P0
        B: post /{x...} | x:P0 b:B0
    ''',
    'rest2': '''
        A: get /a/{x...} | x:P0
        B: get /b/{x}/{y...}; post /c/{x}/d/{y...} | y:P0 x:P0
        C: get /a
    ''',
    'restboth': '''
        A: get /{a}/x | a:P0
        B: get /{a}/y/{r...} | a:P0 r:P1
        C: post /{b}/x | b:P1
    ''',
    'guards': '''
        A: get /a | g:G0 h:G1 i:G2
        B: get /b | g:G0 h:G0 i:G0
        C: get /c | i:G2 h:GR1 g:G0
        D: get /d | g:GR0
    ''',
    'guards6': '''
        A: get /{x} | f:G5 e:G4 x:P0 d:GR3 c:G2 b:G1 a:G0
    ''',
    'guardsbody': '''
        A: post /a | b:B0 g:G0
        B: post /b | g:G0 b:B0 h:G1
        C: post /c | b:BR0
        D: post /d/{x} | b:B0 x:P0 q:Q0 h:G1
    ''',
    'query': '''
        A: get /a | q:Q0
        B: get /b/{x} | q:Q1 x:P0 g:G0
        C: get /c | g:G0 q:Q0 h:G1
        D: post /c | b:B0 q:Q2
    ''',
    'forward': '''
        A: get /a | f:F0
        B: post /a | g:G0 f:F1
        C: get /b/{x} | f:F0 h:G1 x:P0
        D: get /c | q:Q0 f:F0
    ''',
    'fallback': '''
        A: get /a
        B: post /b/{x} | x:P0
        FB: | f:F0
    ''',
    'fallbackfirst': '''
        FB: | f:F0
        A: get /a; post /a
    ''',
    'fallbackcap': '''
        A: get /a/{x} | x:P0
        B: post /a/{y} | y:P1
        FB: | f:F0
    ''',
    'fallbackguard': '''
        A: get /a
        FB: | g:G0 f:F0 h:GR1
    ''',
    'fallbackonly': '''
        FB: | g:G0 f:F0
    ''',
    'fallbackrest': '''
        A: get /{x...} | x:P0
        FB: | f:F0
    ''',
    'unrouted': '''
        N: | g:G0
        A: get /a
        M: | g:X0
        O:
    '''.replace('M: | g:X0', ''),
    'braces': '''
        A: get /a | {}
        B: post /a
    ''',
    'names': '''
        A: get /a | _a:G0 b:G1 _c:G2 A:G3
        B: post /a/{_b}/{a} | a:P0 _b:P1 z:G0 _y:G1 body:B0
        C: put /{request}/x | request:P0 context:G0 future:F0
        r#Self_: delete /{f}/y | f:P0
        None: patch /{err}/y | err:P0 Ok:G0
        Some: trace /{val}/y | val:P0 Err:G0 raw_query:Q0
    '''.replace('r#Self_', 'Self_'),
    'rawid': '''
        A: get /{x} | r#type:G1 x:P1 r#match:G0
    ''',
    'sharedpattern': '''
        A: get /u/{x} | x:P0
        B: post /u/{x} | x:P1
        C: put /u/{id}; delete /u/{id} | id:P0 b:B0
        D: patch /v/{id} | id:P0
    ''',
    'order9': '''
        A: patch /u/{x} | x:P0
        B: post /u/{y} | y:P1
        C: put /u/{x} | x:P0
        D: trace /u/{x} | x:P2
        E: get /u/{x} | x:P1
        F: delete /u/{x} | x:P0
        G: options /u/{x}; connect /u/{x} | x:P3
    ''',
    'order9p': '''
        A: delete /u
        B: options /u
        C: trace /u | g:G0
        D: get /u
        E: connect /u
        F: post /u; patch /u; put /u
        H: post /v
        I: put /v
        J: head /v
        K: get /v
    ''',
    'order9fb': '''
        A: put /u/{x} | x:P0
        B: post /u/{x} | x:P1
        C: get /u/{x} | x:P2
        FB: | f:F0
    ''',
    'heads2': '''
        A: get /a/{x} | x:P0
        B: head /b/c
        C: get /b/d
        D: head /d/{x}/y/z; get /d/{x}/y/w | x:P0
        E: get /q/y/w/{r...} | r:P0
        F: head /s/{x}/{y} | x:P0 y:P0
        G: get /t/{x}/{y} | x:P0 y:P0
    ''',
    'headrest2': '''
        A: get /a/{r...} | r:P0
        B: head /b/{r...} | r:P0
        C: get /b/{q...} | q:P1
        D: post /a/{r...}; put /b/{r...} | r:P0
    ''',
    'multi': '''
        A: get /a/{x}; get /b/{x}/c; post /d/e/{x}; put /f/{x...} | x:P0 g:G0
        B: post /a/{x}; delete /b/{x}/c; get /d/e/{x}; patch /f/{x...} | x:P1 b:B0
    ''',
    'guards12': '''
        A: get /a | a:G0 b:G1 c:G2 d:G3 e:G4 f:G5 g:G0 h:G1 i:G2 j:G3 k:G4 l:G5
    ''',
    'everything': '''
        A: post /{a}/{b}/{c...} | z:G0 c:P0 q:Q0 y:GR1 a:P1 d:B0 b:P2 x:G2
        B: put /{a}/{b}/{c...} | z:G0 c:P0 q:Q1 y:GR1 a:P1 d:F0 b:P2 x:G2
        FB: | u:G1 f:F1 w:G3
    ''',
    'forward12': '''
        A: get /a | a:G0 b:GR1 c:G2 d:G3 f:F0 e:G4 g:G5 h:G0 q:Q0 i:GR1 j:G2 k:G3 l:G4
        B: post /b/{x} | a:G0 b:G1 c:G2 d:G3 e:GR4 g:G5 h:G0 i:G1 j:G2 x:P0 k:G3 l:G4 z:B0
        FB: | a:G0 b:G1 c:G2 d:G3 e:G4 f:F1 g:G5
    ''',
    'headnames': '''
        A: get /{a} | a:P0
        B: head /{b} | b:P1
        C: get /x/{c}/{d...} | c:P0 d:P1
        E: head /x/{f}/{e...} | e:P0 f:P1
        H: head /y/{h} | h:P2
        J: get /y/{j}; post /y/{j} | j:P3
    ''',
    'prefixes': '''
        A: get /a
        B: get /ab
        C: get /abc
        D: get /a/b
        E: get /a/b/c
        F: get /a/b/c/d
        G: get /a/bc
        H: get /ab/c/{x} | x:P0
        I: get /a/c/b/{x...} | x:P0
        J: get /a/c/{x} | x:P0
    ''',
    'bigtable2': '''
        A: get /a/{x}; post /a | x:P0
        B: get /b/{x}/1 | x:P0
        C: get /c/{x}/2; delete /c/{x}/2 | x:P0
        D: get /d/{x}/3 | x:P0
        E: get /e/{x}/4; post /e/{x}/4 | x:P0 g:G0
        F: get /f/{x}/5 | x:P0
        G: get /g/{x}/6 | x:P0
        H: get /h/{x}/7; put /h/{x}/7 | x:P0 b:B0
        I: get /i/{x}/8 | x:P0
        J: get /j/{x}/9 | x:P0
        K: post /k/{x}/10 | x:P0
        L: get /l/{x}/11 | x:P0
        M: patch /m/{x...} | x:P0
        N: get /n/{x}/13 | x:P0 q:Q0
        O: get /o/{x}/14 | x:P0
        P: options *
        S: get /p/{x}/15/{y} | x:P0 y:P1
        T: head /q/{x}/16 | x:P0
        U: get /q/{x}/16 | x:P0
    '''.replace('; post /a |', ' |'),
    'bigtable': '''
        Index: get /
        Users: get /users
        NewUser: post /users | b:B0
        User: get /users/{id} | id:P0
        PutUser: put /users/{id} | id:P0 b:B0
        DelUser: delete /users/{id} | id:P0
        Posts: get /users/{id}/posts | id:P0 q:Q0
        Post: get /users/{id}/posts/{post} | post:P1 id:P0
        Static: get /static/{file...} | file:P2
        Login: post /login | b:B1
        About: get /about
        Slash: get /users/
    ''',
}

STRUCTS = {
    's_one': ('S: get /s/{x} | x:P0 g:G0', None),
    's_multi': ('S: get /s/{x}; put /t/u/{x} | g:G0 x:P0 b:B0 h:G1', None),
    's_unit': ('S: post /s', None),
    's_fallback': ('S: | g:G0 f:F0', None),
    's_forward': ('S: get /s | f:F0 g:G0 q:Q0', None),
    's_rest': ('S: get /{x...} | x:P0', None),
    's_star': ('S: options * | g:G0', None),
}

CONTEXT = {
    'ctx_plain': ('''
        A: post /a | g:GC0 b:BC0
        B: post /b | g:GP0 h:G1 b:BP0
        C: get /c | f:FC0 g:GP0
        D: get /{x}/{y} | x:P0 y:P0 g:G0 h:GC0 i:GP0
    ''', 'Ctx'),
    'ctx_alias': ('''
        A: post /a | g:GC0 b:B0
        FB: | g:GP0 f:FC0
    ''', 'sub::Alias'),
    'ctx_path': ('''
        A: get /a | g:GP0 q:Q0
    ''', 'crate::Ctx'),
    'ctx_deep': ('''
        A: get /a | g:GP0 q:Q0 h:G0
        B: post /a | b:BC0
    ''', 'deep::er::Shadow'),
    'ctx_deep2': ('''
        A: get /a | g:GC0 f:FC0
        B: post /a | b:BP0
    ''', 'crate::deep::er::Shadow'),
    'ctx_self': ('''
        A: get /a/{x} | g:GC0 x:P0
    ''', 'self::deep::er::Ctx'),
    'ctx_generic': ('''
        A: get /a | g:GC0
        FB: | f:FC0
    ''', 'deep::er::Gen<Ctx>'),
    'ctx_generic2': ('''
        A: get /a | g:GP0
    ''', 'crate::deep::er::Gen<crate::Ctx>'),
    'ctx_qualified': ('''
        A: get /a | g:GP0
    ''', '<Ctx as Same>::Is'),
    'ctx_names': ('''
        A: get /{path}/{method} | method:P0 path:P1 context:GC0 request:GP0 body:BC0
        B: post /{index}/{regex} | index:P0 regex:P1 _a:GC0 b:GC1 _c:GP0 self_:G0
        C: put /{captures}/{caps}/{ROUTES} | ROUTES:P0 captures:P1 caps:P2 future:FC0 Variant:G0 variant:G1
        D: patch /a | matches:GP1 e:GC0 v:G0 raw_query:Q0 methods:B0
    ''', 'Ctx'),
}

GENERIC = {
    'gen_roles': ('''
        A: get /a/{x} | x:T g:U
        B: post /b | b:V q:W
        C: put /b | g:U h:U b:V
    ''', (('T', 'P0'), ('U', 'G0'), ('V', 'B0'), ('W', 'Q0'))),
    'gen_same': ('''
        A: get /{x}/{y} | y:T x:T
    ''', (('T', 'P0'),)),
    'gen_fb': ('''
        A: get /a/{x} | x:T
        FB: | f:FF
    ''', (('T', 'P0'), ('FF', 'F0'))),
}


def fixed():
    out = []
    for k, t in TEXT.items():
        out.append(Decl('W_' + k, t))
    for k, (t, c) in STRUCTS.items():
        out.append(Decl('W_' + k, t, struct=True, ctx=c))
    for k, (t, c) in CONTEXT.items():
        out.append(Decl('W_' + k, t, ctx=c))
    out.append(Decl('W_ctx_struct', 'S: get /s | g:GC0 h:GP0 b:BC0', struct=True, ctx='Ctx'))
    for k, (t, g) in GENERIC.items():
        out.append(Decl('W_' + k, t, generics=g))
    return out


LITS = ['', 'a', 'b', 'ab', 'a.b', 'A', 'x+', '%2F', 'a-b_c', '*', '$', 'a{b}']


def overlap(alpha, a, b):
    return not (R.dfa_of(R.rx(a), alpha) & R.dfa_of(R.rx(b), alpha)).empty()


def share(rnd, used, pats, vi):
    """a further variant for a shape that is in use"""
    k = rnd.choice(sorted(used))
    free = [m for m in D.VERBS if m not in used[k]]
    if not free:
        return None
    names = rnd.sample(['x', 'y', 'z', 'id', 'name', 'w'], 6)
    segs, fields = [], []
    for kind, g in D.segments(pats[k]) or []:
        if kind != 'lit':
            n = names.pop()
            segs.append('{%s%s}' % (n, '...' if kind == 'rest' else ''))
            fields.append('%s:P%d' % (n, rnd.randint(0, 3)))
        else:
            segs.append(g)
    pat = '/' + '/'.join(segs) if pats[k] != '*' else '*'
    assert D.shape(pat) == k, (pat, k)
    me = rnd.sample(free, min(len(free), rnd.choice([1, 1, 2])))
    used[k].update(me)
    if rnd.random() < 0.4:
        fields.append('g:G%d' % rnd.randint(0, 1))
    rnd.shuffle(fields)
    return 'V%d: %s | %s' % (vi, '; '.join('%s %s' % (m, pat) for m in me), ' '.join(fields))


def random_decls(n, seed=1):
    rnd = random.Random(seed)
    alpha = R.Alphabet(R.BASE_SETS + [frozenset(c) for c in sorted(set(''.join(LITS)))])
    out = []
    # (variants share their path with an earlier one about every third time)
    while len(out) < n:
        struct = rnd.random() < 0.15
        ctx = rnd.choice([None, None, 'Ctx'])
        used = {}           # shape -> methods
        pats = {}           # shape -> one pattern of it
        vs = []
        for vi in range(1 if struct else rnd.randint(1, 5)):
            if used and rnd.random() < 0.3:
                v = share(rnd, used, pats, vi)
                if v:
                    vs.append(v)
                continue
            nph = rnd.choice([0, 0, 1, 1, 2, 3])
            names = rnd.sample(['x', 'y', 'z', 'id', 'name', '_w', 'Z', 'path', 'body', 'request', 'e'], nph)
            rest = bool(names) and rnd.random() < 0.3
            routes = []
            for _ in range(rnd.choice([1, 1, 2, 3])):
                segs = []
                for i, nm in enumerate(names):
                    for _ in range(rnd.choice([0, 0, 1])):
                        segs.append(rnd.choice(LITS))
                    segs.append('{%s%s}' % (nm, '...' if rest and i == nph - 1 else ''))
                if not rest:
                    for _ in range(rnd.choice([0, 1, 1, 2])):
                        segs.append(rnd.choice(LITS))
                if not segs:
                    segs = [rnd.choice(LITS)]
                pat = '/' + '/'.join(segs) if rnd.random() > 0.05 or names else '*'
                me = rnd.choice(D.VERBS)
                k = D.shape(pat)
                if k in used:
                    if me in used[k]:
                        continue
                elif any(overlap(alpha, k, o) for o in used):
                    continue
                used.setdefault(k, set()).add(me)
                pats[k] = pat
                routes.append((me, pat))
            if not routes:
                continue
            fields = ['%s:P%d' % (nm, rnd.randint(0, 2)) for nm in names]
            gs = ['G', 'GR'] + (['GC', 'GP'] if ctx else [])
            gn = rnd.sample(['g0', 'g1', 'g2', 'a', '_b', 'user', 'context', 'zz', '_', 'G'][:8], 4)
            fields += ['%s:%s%d' % (gn[i], rnd.choice(gs), rnd.randint(0, 1)) for i in range(rnd.choice([0, 0, 1, 2, 3]))]
            if rnd.random() < 0.3:
                fields.append('q:Q%d' % rnd.randint(0, 1))
            r = rnd.random()
            if r < 0.3:
                fields.append('b:' + rnd.choice(['B0', 'BR0'] + (['BC0', 'BP1'] if ctx else [])))
            elif r < 0.4:
                fields.append('f:' + ('FC0' if ctx else 'F0'))
            rnd.shuffle(fields)
            vs.append('V%d: %s | %s' % (vi, '; '.join('%s %s' % r for r in routes), ' '.join(fields)))
        if not vs:
            continue
        if not struct and rnd.random() < 0.3:
            vs.insert(rnd.randint(0, len(vs)), 'FB: | %sf:%s' % ('g:G0 ' if rnd.random() < 0.5 else '',
                                                               'FC1' if ctx else 'F1'))
        out.append(Decl('R%d' % len(out), '\n'.join(vs), struct=struct, ctx=ctx))
    return out
