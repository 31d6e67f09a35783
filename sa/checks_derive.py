"""C01-C10, C13: translation validation of the derive's output."""
import random

import build
import corpus
import decl as D
import derive
import interp
import report

ASSUME = [
    'library functions behave as their transfer functions in sa/models.py say (regex, http, futures 0.1, std)',
    'user-defined guards, bodies, forwarded types and conversions are arbitrary but return normally',
    'declarations outside the analysed corpus are not covered',
    'request targets contain no line feed (http::Uri rejects them)',
]


def some(role, *prefix):
    return lambda d: any(f.role == role and d.conc(f.ty).startswith(prefix) for v in d.variants for f in v.fields)


FEATURES = {
    'C02': ('its placeholders', some('path', 'P')),
    'C03': ('its fallback', lambda d: any(not v.routes for v in d.variants)),
    'C06': ('its HEAD routes', lambda d: any(m == 'head' for v in d.variants for m, _ in v.routes)),
    'C07': ('its guards', lambda d: any(sum(f.ty.startswith('G') for f in v.fields) > 0 for v in d.variants)),
    'C08': ('its body or forward field', lambda d: any(d.conc(f.ty)[0] in 'BF' for v in d.variants for f in v.fields)),
    'C09': ('its query field', lambda d: any(d.conc(f.ty)[0] == 'Q' for v in d.variants for f in v.fields)),
    'C10': ('its own context type', lambda d: d.ctx),
}


def check(r, procs=8):
    build.prepare()
    ds = corpus.fixed()
    n = 40 if r.tier == 'quick' else 700
    ds += corpus.random_decls(n, r.seed)
    res, bad = derive.run(ds, procs, r.pid, 300 if r.tier == 'quick' else 780)
    for d, m in bad:
        r.notes.append('declaration %s does not compile: %s' % (d.name, m.splitlines()[0]))
    # what every declaration has that does not compile is what cannot be had
    why = FEATURES.get(r.pid)
    if why and bad and all(why[1](d) for d, _ in bad):
        for d, m in bad:
            r.violation('#[derive(FromRequest)] %s' % ' '.join(d.source().split()),
                        'does not compile with %s: %s' % (why[0], m.splitlines()[0]))
    funcs, steps, parts, obl, und, unk = set(), 0, 0, 0, 0, {}
    decided = 0
    samples = []
    nv = 0
    for d, st, viol, unknown, problem in res:
        if problem:
            r.open('%s: %s' % (d.name, problem.strip().splitlines()[-1]))
            continue
        funcs.update(st['functions'])
        steps += st['steps']
        parts += st['partitions']
        obl += st['obligations']
        for u in sorted(set(st['undecided'])):
            r.open('%s: %s' % (d.name, u))
        und += len(st['undecided'])
        decided += len(st['undecided']) * 2 <= st['partitions']
        for u in unknown:
            unk[u[0]] = unk.get(u[0], 0) + unknown[u]
        for props, text in viol:
            nv += 1
            if r.pid in props:
                r.violation('#[derive(FromRequest)] %s' % ' '.join(d.source().split()), text)
        if len(samples) < 12:
            samples.append({'declaration': d.source(), 'partitions': st['partitions'],
                            'obligations': st['obligations']})
    mine = [f for f in funcs if f.startswith(('hyperdrive', '<hyperdrive', 'w::', '<w::', '<<w::'))]
    r.coverage = {
        'programs': len(res), 'disagreements_checked': obl, 'samples': samples, 'partitions': parts,
        'functions_analysed': len(funcs), 'functions_of_hyperdrive_and_generated': len(mine),
        'mir_steps': steps, 'functions_without_model': unk, 'partitions_undecided': und,
        'declarations_not_compiling': [d.name for d, _ in bad], 'exhaustive': False,
        'disagreements_of_any_property': nv,
        'explanation': 'rule: for every partition of all requests (path as a regular language, method, every outcome '
                       'of conversions, guards, bodies) the result and the effects of the generated code equal what '
                       'the declaration means; %d declarations' % len(res)}
    r.assumptions = ASSUME
    if r.pid == 'C09':
        optional_query(r)
    if r.pid == 'C10':
        import check_witness
        check_witness.context_types(r)
    return r.finish(decided, len(res) + len(bad))


OPTION = D.PRELUDE + '''
#[derive(FromRequest)]
#[get("/")] pub struct S { #[query_params] q: Option<Q<N0>> }
pub fn root_S(r: &Arc<http::Request<()>>, b: hyper::Body, c: NoContext) -> <S as FromRequest>::Future {
    <S as FromRequest>::from_request_and_body(r, b, c) }
'''


def optional_query(r):
    """An optional query field: if its generated code reaches serde_urlencoded's Deserialize for Option, the
    visitor's visit_some or visit_none must be reachable, or no query can ever decode."""
    with build.scratch() as w:
        p = interp.Program(build.dump(OPTION, w, expand=build.EXPAND + ',serde,serde_core,serde_urlencoded'))
    seen, todo = set(), [p.roots['root_S']]
    while todo:
        i = todo.pop()
        if i in seen:
            continue
        seen.add(i)
        b = p.insts[i]['body']
        for bl in (b['blocks'] if b else ()):
            if isinstance(bl['t'], dict) and bl['t']['inst'] is not None:
                todo.append(bl['t']['inst'])
        todo += closures(p, b)
    names = [p.insts[i]['path'] for i in seen]
    r.coverage['optional_query_functions'] = len(names)
    uses = any('for core::option::Option<T>>::deserialize' in n for n in names)
    visits = any('OptionVisitor' in n and n.endswith(('::visit_some', '::visit_none')) for n in names)
    if uses and not visits:
        k = report.known_findings(r.pid)
        if 'optional-query' in k:
            r.known.append('optional-query ' + k['optional-query'])
        else:
            r.violation('#[query_params] q: Option<T>', 'serde_urlencoded::from_str::<Option<T>> never yields a value: '
                        'neither visit_some nor visit_none of the Option visitor is reachable')


def closures(p, body):
    """instances of closures and functions that a body mentions"""
    out = []

    def walk(x):
        if isinstance(x, dict):
            if isinstance(x.get('zst'), int):
                T = p.types[x['zst']]
                if T.get('inst') is not None:
                    out.append(T['inst'])
            if isinstance(x.get('fn'), int):
                out.append(x['fn'])
            for v in x.values():
                walk(v)
        elif isinstance(x, list):
            if len(x) == 2 and x[0] == 'closure' and isinstance(x[1], int):
                T = p.types[x[1]]
                if T.get('inst') is not None:
                    out.append(T['inst'])
            for v in x:
                walk(v)
    walk(body)
    return out
