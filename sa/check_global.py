"""C35-C39: effects of hyperdrive's own functions and of generated code, over the whole-program call graph."""
import re

import build
import check_effects as E
import checks_lib
import corpus
import lib_

STATES = r'''
pub fn state_AsyncService(_: SA) {}
pub fn state_SyncService(_: SS) {}
pub fn state_CatchUnwind(_: CU) {}
pub fn state_MakeServiceByCloning(_: MB) {}
'''
OWN = ('w', 'hyperdrive')


def graph(r, quick=60, thorough=600):
    ds = corpus.fixed() + corpus.random_decls(quick if r.tier == 'quick' else thorough, r.seed)
    src = lib_.SRC + E.POLLS + STATES + '\n'.join(d.source() + '\n' + d.root() for d in ds)
    with build.scratch() as w:
        g = build.dump(src, w, expand='@roots')
    par = E.reach(g, [i for _, i in g['roots']])
    own = [i for i in par if g['nodes'][i]['crate'] in OWN]
    for i in own:
        for s in g['nodes'][i]['notes']:
            if s.startswith('unresolved') or s == 'asm':
                r.open('%s: %s' % (g['nodes'][i]['path'], s))
    return g, par, own, ds


class Finder:
    def __init__(self, r, g, par):
        self.r, self.g, self.par, self.seen = r, g, par, set()

    def bad(self, x, what, where):
        n = self.g['nodes'][x]
        # one report per function of the source, whatever its instances
        k = (re.sub(r'<.*?>', '', n['plain']), what.split(':')[0], where)
        if k not in self.seen:
            self.seen.add(k)
            self.r.violation('%s (%s)' % (n['path'], n['span']), '%s [%s]' % (what, where.split('/verif/.build/')[-1]))


def cover(r, g, par, own, ds, rule, obligations, **kw):
    N = g['nodes']
    r.coverage.update({'functions': len(par), 'own_functions': len(own), 'obligations': obligations,
                       'own_call_sites': sum(len(N[x]['edges']) for x in own), 'declarations': len(ds),
                       'crates': sorted(set(N[i]['crate'] for i in par)), 'exhaustive': False,
                       'samples': [N[i]['path'] for i in own][:60:3], 'explanation': 'rule: ' + rule})
    r.coverage.update(kw)
    r.assumptions += ['other crates are used through documented interfaces only', 'user code is opaque']


# ---------------------------------------------------------------- C35

SKIP = ('depends on type identities',)
MORE = [
    (re.compile(r'^std::panic(king)?::(set_hook|take_hook|update_hook|panic_count::.*)$'), 'uses process-wide state'),
    (re.compile(r'^std::panicking::(set_hook|take_hook)'), 'uses process-wide state'),
    (re.compile(r'^std::thread::(functions::)?panicking$'), 'depends on what the thread is doing'),
    (re.compile(r'^<?alloc::(sync|rc|rcs::arc|rcs::rc)::.*::(strong_count|weak_count|is_unique)$'),
     'depends on who else holds a value'),
    (re.compile(r'^<?std::thread::local'), 'uses state of the thread'),
    (re.compile(r'^<?std::sync::.*(OnceLock|once_lock).*::(set|take|get_mut|try_insert)$'), 'keeps a value for later requests'),
    (re.compile(r'^<?alloc::.*::leak$'), 'keeps a value for later requests'),
]
ONCE = re.compile(r'(OnceLock|OnceCell|once_cell|once_lock|Lazy).*::(get_or_init|get_or_try_init|get_mut_or_init|initialize|get|force|new|'
                  r'call_once|call_once_force)$')


def stateless(r, procs=8):
    build.prepare()
    g, par, own, ds = graph(r)
    N = g['nodes']
    F = Finder(r, g, par)
    edges = stats = 0
    for x in own:
        n = N[x]
        for t, k, w in n['edges']:
            edges += 1
            m = N[t]
            if m['crate'] in OWN or k == 'drop':
                continue
            u = E.unordered_use(m)
            if u:
                F.bad(x, '%s: %s' % (u, E.label(m)), w)
            for rx, why in E.BANNED + MORE:
                if why not in SKIP and rx.search(m['path']):
                    if 'RandomState' in m['path'] and not m['path'].startswith(('<std::hash', 'std::hash', 'std::collections')):
                        continue
                    F.bad(x, '%s: %s' % (why, E.label(m)), w)
                    break
            if re.search(r'::get_or_(try_)?init$', m['path']) and m['args'] and not m['zargs'][-1]:
                F.bad(x, 'keeps what it computed from one request for the next: ' + E.label(m), w)
        for sid, w in n['statics']:
            s = g['statics'][sid]
            if s['crate'] not in OWN:
                continue
            stats += 1
            if s['mut'] or s['tls'] or s['cells'] or s['t'].startswith('std::thread::local'):
                F.bad(x, 'uses state that outlives the request: %s: %s' % (s['path'], s['t']), w)
        for w in n['exposes']:
            F.bad(x, 'uses an address as a number', w)
    for name, t, cells in g['states']:
        for c in cells:
            r.violation(name, 'the service has state that a shared reference can change: %s%s' % (name, c))
    if len(g['states']) < 4:
        r.open('the service types are gone')
    d, n = checks_lib.analyse(r, procs)
    cov = dict(r.coverage)
    r.coverage = {'scenarios': cov['scenarios'], 'partitions': cov['partitions']}
    cover(r, g, par, own, ds,
          'own functions and generated code reach no mutable, thread-local or lazily set static (patterns compiled from '
          'constants excepted), no time, environment, file, thread, hash order, address or reference count; services have '
          'no interior mutability and `call` leaves them as they were in every partition',
          edges + stats + len(g['states']) + cov['partitions'], statics=stats, service_types=[x[0] for x in g['states']])
    return r.finish(d + len(own), n + len(own))


# ---------------------------------------------------------------- C36

def safe(r, procs=8):
    build.prepare()
    ds = corpus.fixed() + corpus.random_decls(60 if r.tier == 'quick' else 600, r.seed)
    src = lib_.SRC + '\n'.join(d.source() + '\n' + d.root() for d in ds)
    tot = {'bodies': 0, 'items': 0, 'blocks': 0}
    seen = set()
    with build.scratch() as w:
        parts = [('generated code', build.dump(src, w, expand='@raw'), ('hyperderive', 'hyperdrive'))]
        for c in ('hyperdrive', 'hyperderive'):
            parts.append((c, build.crate_graph(c, w, '@raw'), ('hyperdrive', 'hyperderive')))
    for what, raw, owners in parts:
        for k in tot:
            tot[k] += raw[k]
        for f in raw['found']:
            if f['owner'] not in owners:
                continue
            where = f['in'] if what != 'generated code' else re.sub(r'_FOR_\w+', '', f['in'])
            where = re.sub(r'for \w+>', '>', where)
            if (what, f['what'], where) not in seen:
                seen.add((what, f['what'], where))
                r.violation('%s (%s)' % (f['in'], f['at'].split('/verif/.build/')[-1]), '%s contains an %s' % (what, f['what'])
                            if f['what'][0] in 'ui' else '%s contains a %s' % (what, f['what']))
    r.coverage = dict(tot, functions=tot['bodies'], obligations=tot['bodies'] + tot['items'], declarations=len(ds),
                      exhaustive=True, crates=['hyperdrive', 'hyperderive', 'generated code'],
                      explanation='rule: no unsafe block, function, trait or impl, foreign item, mutable static, inline '
                                  'assembly or fixed symbol name in the type-checked program, except in the expansion of '
                                  'macros of other crates')
    r.assumptions = ['the generated code of the corpus contains every template of the derive']
    return r.finish(tot['bodies'], tot['bodies'])


# ---------------------------------------------------------------- C37

DETACH = [
    (re.compile(r'(^|::)(spawn|spawn_unchecked|spawn_scoped|spawn_fn|spawn_handle|spawn_all)$'), 'starts something that outlives the request\'s future'),
    (re.compile(r'^(tokio|futures|hyper|tokio_[a-z_]+)::.*(Executor|executor).*::(execute|spawn|run|submit)$'),
     'starts something that outlives the request\'s future'),
    (re.compile(r'^<.* as (tokio_executor|futures)::.*Executor.*>::(execute|spawn)$'), 'starts something that outlives the request\'s future'),
    (re.compile(r'^core::mem::forget$|^core::mem::manually_drop::.*::new$|^<?core::mem::.*ManuallyDrop.*::new$'), 'keeps a value from being dropped'),
    (re.compile(r'^<?alloc::.*::(leak|into_raw|into_raw_with_allocator|into_non_null|into_raw_parts)$'), 'keeps a value from being dropped'),
    (re.compile(r'^<?alloc::.*::new_cyclic$'), 'may keep a value from being dropped'),
]


def cancels(r, procs=8):
    build.prepare()
    g, par, own, ds = graph(r)
    N = g['nodes']
    F = Finder(r, g, par)
    edges = 0
    for x in own:
        for t, k, w in N[x]['edges']:
            edges += 1
            m = N[t]
            if m['crate'] in OWN:
                continue
            for rx, why in DETACH:
                if rx.search(m['path']) or rx.search(m['trait']):
                    F.bad(x, '%s: %s' % (why, E.label(m)), w)
                    break
        for sid, w in N[x]['statics']:
            s = g['statics'][sid]
            if s['crate'] in OWN and (s['mut'] or s['tls'] or s['cells']):
                F.bad(x, 'may store parts of a request in %s: %s' % (s['path'], s['t']), w)
    cover(r, g, par, own, ds, 'own functions and generated code hand nothing to an executor or a thread, leak or forget '
          'nothing and store nothing in global state: every part of a request is owned by its future and dropped with it',
          edges)
    return r.finish(len(own), len(own))


# ---------------------------------------------------------------- C38

FATAL = re.compile(r'^std::process::(exit|abort|.*ExitCode.*exit_process)$|^core::intrinsics::abort$|^std::intrinsics::abort$|'
                   r'^libc::.*::(exit|_exit|abort|raise|kill)$|^std::alloc::handle_alloc_error$|^alloc::alloc::handle_alloc_error$|'
                   r'^core::panicking::(panic_nounwind.*|panic_cannot_unwind|panic_in_cleanup)$')


def components(adj):
    """strongly connected components with a cycle"""
    idx, low, st, on, out, n = {}, {}, [], set(), [], 0
    for v0 in adj:
        if v0 in idx:
            continue
        work = [(v0, 0)]
        while work:
            v, i = work.pop()
            if i == 0:
                idx[v] = low[v] = n
                n += 1
                st.append(v)
                on.add(v)
            a = adj.get(v, ())
            down = False
            while i < len(a):
                u = a[i]
                i += 1
                if u not in idx:
                    work.append((v, i))
                    work.append((u, 0))
                    down = True
                    break
                if u in on:
                    low[v] = min(low[v], idx[u])
            if down:
                continue
            if low[v] == idx[v]:
                comp = []
                while True:
                    u = st.pop()
                    on.discard(u)
                    comp.append(u)
                    if u == v:
                        break
                if len(comp) > 1 or v in a:
                    out.append(comp)
            if work:
                p = work[-1][0]
                low[p] = min(low[p], low[v])
    return out


PANICS = re.compile(r'^(core|std)::panicking::(panic\b|panic_(fmt|str|display|explicit|any|2015.*|2021.*)|begin_panic.*|'
                    r'assert_failed.*|unreachable_display|rust_panic_with_hook)|^std::rt::begin_panic|'
                    r'^std::panic::(panic_any|resume_unwind)$|::(unwrap_failed|expect_failed|unwrap_none_failed)$')
PASS = re.compile(r'^(core|std)::(option::Option|result::Result)<.*>::(unwrap|expect|unwrap_err|expect_err)$')


def bombs(N, par, F):
    """destructors that panic: running while another panic unwinds, they abort the process"""
    n = 0
    for x in par:
        if N[x]['crate'] not in OWN or not re.search(r' as (core|std)::ops::(drop::)?Drop>::drop$', N[x]['path']):
            continue
        n += 1
        seen, todo = {x}, [(x, '')]
        while todo:
            y, where = todo.pop()
            for t, k, w in N[y]['edges']:
                if PANICS.search(N[t]['path']):
                    F.bad(x, 'a destructor that panics (aborts when it runs while a panic unwinds): ' + E.label(N[t]), where or w)
                elif t not in seen and t in par and (N[t]['crate'] in OWN or PASS.search(N[t]['plain'])):
                    seen.add(t)
                    todo.append((t, where or w))
    return n


def survives(r, procs=8):
    build.prepare()
    g, par, own, ds = graph(r)
    N = g['nodes']
    F = Finder(r, g, par)
    edges = 0
    for x in own:
        for t, k, w in N[x]['edges']:
            edges += 1
            if FATAL.search(N[t]['path']):
                F.bad(x, 'ends the process: ' + E.label(N[t]), w)
    drops = bombs(N, par, F)
    adj = {x: [t for t, k, w in N[x]['edges'] if k != 'drop' and t in par] for x in par}
    for c in components(adj):
        mine = [x for x in c if N[x]['crate'] in OWN and N[x]['kind'] == 'item']
        if mine:
            inside = set(c)
            x = min(mine)
            w = [w for t, k, w in N[x]['edges'] if t in inside]
            F.bad(x, 'calls itself (depth not bounded): by way of %s' % ', '.join(
                sorted(set(N[y]['path'] for y in c))[:6]), w[0] if w else '')
    cover(r, g, par, own, ds, 'no own function or generated code ends the process, and none of them is on a cycle of the '
          'call graph (no recursion, so no stack overflow depends on a request); none of their destructors panics',
          edges + len(par) + drops, destructors=drops, call_sites=sum(len(adj[x]) for x in adj))
    return r.finish(len(own), len(own))


# ---------------------------------------------------------------- C39

COMPILE = re.compile(r'^<?regex(_automata|_syntax)?::.*::(new|build|with_size_limit|from_str|new_many|build_many|build_many_from_hir|'
                     r'build_from_hir|compile|parse|size_limit|try_from|build_string|build_one_string|build_many_string)$')
ONETIME = re.compile(r'^<?(lazy_static::.*Lazy|std::sync::.*(Once|OnceLock|LazyLock|once_lock|lazy_lock|once)\b.*|once_cell::.*|std::sync::once::.*)'
                     r'.*::(get|call_once|call_once_force|get_or_init|force|deref|call_inner|initialize|call)$')


def compiled_once(r, procs=8):
    build.prepare()
    g, par, own, ds = graph(r)
    N = g['nodes']
    F = Finder(r, g, par)
    par = E.reach(g, [i for _, i in g['roots']], lambda n: n['crate'] not in OWN and (
        ONETIME.search(n['path']) is not None or n['crate'] in ('regex', 'regex_automata', 'regex_syntax')))
    own = [i for i in par if N[i]['crate'] in OWN]
    edges = 0
    for x in par:
        n = N[x]
        for t, k, w in n['edges']:
            edges += 1
            m = N[t]
            if m['crate'].startswith('regex') and not n['crate'].startswith('regex') and k != 'drop' and COMPILE.search(m['path']):
                y = x
                while N[y]['crate'] not in OWN and par[y] is not None:
                    y = par[y][0]
                F.bad(y, 'compiles a pattern while answering a request: %s, by way of %s' % (E.label(m), E.chain(g, par, x)), w)
        if n['crate'] in OWN and not any(g['statics'][i]['crate'] in OWN for i, _ in n['statics']):
            for t, k, w in n['edges']:
                m = N[t]
                if m['crate'] not in OWN and k != 'drop' and re.search(
                        r'^<?(lazy_static::|std::sync::|core::cell::|once_cell::).*(Lazy|Once).*::(get|get_or_init|force|deref|new)$',
                        m['path']) and 'regex::' in ' '.join([m['self']] + m['args']):
                    F.bad(x, 'compiles a pattern anew for every request: ' + E.label(m), w)
    once = sum(1 for x in par if N[x]['crate'] not in OWN and ONETIME.search(N[x]['path']))
    if not once:
        r.open('no one-time initialisation found')
    cover(r, g, par, own, ds, 'no path from an entry point to the compilation of a pattern except through a one-time '
          'initialiser of a static', edges, one_time_initialisers=once)
    return r.finish(len(own), len(own))
