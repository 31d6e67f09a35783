"""C27, C28: effects over the whole-program call graph (through every dependency)."""
import re
from collections import deque

import build
import corpus
import decl as D
import lib_

STD = ('std', 'core', 'alloc', 'proc_macro', 'std_detect')


def reach(g, roots, cut=lambda n: False):
    """{node: (caller, how, where) or None} for everything reachable"""
    par = {}
    q = deque()
    for i in roots:
        if i not in par:
            par[i] = None
            q.append(i)
    while q:
        x = q.popleft()
        if cut(g['nodes'][x]):
            continue
        for t, k, w in g['nodes'][x]['edges']:
            if t not in par:
                par[t] = (x, k, w)
                q.append(t)
    return par


def label(n):
    return n['path'] + (' for ' + n['self'] if n['self'] and n['self'] not in n['path'] else '')


def chain(g, par, x):
    """the call path to x, own functions with their call sites"""
    out = []
    while par[x] is not None:
        p, k, w = par[x]
        out.append('%s [%s]' % (g['nodes'][x]['path'], w.split('/verif/.build/')[-1]))
        x = p
    out.append(g['nodes'][x]['path'])
    return ' <- '.join(out[:8] + (['...', out[-1]] if len(out) > 8 else []))


# ---------------------------------------------------------------- C28

# waiting, by definition place (plain paths) or by path
BLOCKING = re.compile('|'.join([
    r'^std::thread::(functions::)?(sleep|sleep_ms|sleep_until|park|park_timeout|park_timeout_ms)$',
    r'^<?std::thread::.*JoinHandle.*::join$', r'^std::thread::scoped::scope$',
    r'^<?std::sync::.*(Condvar|condvar).*::wait(_while|_timeout|_timeout_ms|_timeout_while)?$',
    r'^<?std::sync::.*Barrier.*::wait$',
    r'^<?std::sync::(mpsc|mpmc)::.*(Receiver|Sender).*::(recv|recv_timeout|recv_deadline|send|send_timeout|send_deadline)$',
    r'^<?std::sync::(mpsc|mpmc)::.*Iter.* as .*Iterator>::next$',
    r'^<?(&?(mut )?)?std::(fs|net)::', r'^<?std::process::.*(output|status|wait|spawn|wait_with_output|exit)$',
    r'^<?std::os::unix::net::',
    r'^std::io::stdio::_e?print$', r'^<?(&?(mut )?)?std::io::stdio::Std(in|out|err).*::(lock|read.*|write.*|flush|lines)$',
    r'^libc::.*::(poll|ppoll|select|pselect|epoll_wait|epoll_pwait|nanosleep|clock_nanosleep|sleep|usleep|read|pread|'
    r'readv|write|pwrite|writev|recv|recvfrom|recvmsg|send|sendto|sendmsg|accept|accept4|connect|open|open64|openat|'
    r'syscall|futex|flock|lockf|wait|waitpid|waitid|sem_wait|sem_timedwait|pthread_.*|sigwait.*|pause|fsync|system)$',
]))
# what the futures world offers for waiting (found through its parts as well, but named here)
WAITS = re.compile('|'.join([
    r'^futures::future::Future::wait$', r'^futures::stream::Stream::wait$', r'^futures::sink::Sink::wait$',
    r'^<?futures::.*(Spawn|Wait|BlockingSink).*::(wait_.*|next|send|flush)$',
    r'^<?tokio.*::(block_on|block_on_all|run|shutdown_on_idle.*wait|block_on_all_current_thread)$',
    r'^tokio_executor::park::.*::park(_timeout)?$', r'^hyper::rt::run$',
]))
LOCKS = re.compile(r'^<?(std::sync::.*(Mutex|RwLock|ReentrantLock)|parking_lot::|lock_api::).*::(lock|read|write|'
                   r'upgradable_read|lock_arc|read_arc|write_arc)$|^std::thread::functions::yield_now$')
# these crates guard short internal sections that never wait for another request
INTERNAL_LOCKS = ('futures', 'h2', 'hyper', 'regex', 'regex_automata', 'lazy_static', 'log', 'tokio_threadpool',
                  'std', 'core', 'alloc')

POLLS = r'''
fn poll<T: futures::Future>(t: &mut T) -> futures::Poll<T::Item, T::Error> { t.poll() }
pub fn root_poll_async(f: &mut <SA as Service>::Future) { poll(f); }
pub fn root_poll_sync(f: &mut <SS as Service>::Future) { poll(f); }
pub fn root_poll_catch(f: &mut <CU as Service>::Future) { poll(f); }
pub fn root_poll_async_make(f: &mut <SA as MakeService<Conn>>::Future) { poll(f); }
pub fn root_poll_sync_make(f: &mut <SS as MakeService<Conn>>::Future) { poll(f); }
pub fn root_poll_by_make(f: &mut <MB as MakeService<Conn>>::Future) { poll(f); }
pub fn root_poll_blocking(f: fn() -> Result<P<N0>, P<N1>>) { poll(&mut hyperdrive::blocking(f)); }
pub fn root_poll_json(f: <<Json<Q<N0>> as FromBody>::Result as futures::IntoFuture>::Future) { let mut f = f; poll(&mut f); }
pub fn root_poll_form(f: <<HtmlForm<Q<N0>> as FromBody>::Result as futures::IntoFuture>::Future) { let mut f = f; poll(&mut f); }
pub fn root_poll_ready_async(s: &mut SA) { Service::poll_ready(s); MakeService::<Conn>::poll_ready(s); }
pub fn root_poll_ready_sync(s: &mut SS) { Service::poll_ready(s); MakeService::<Conn>::poll_ready(s); }
pub fn root_poll_ready_catch(s: &mut CU) { s.poll_ready(); }
pub fn root_poll_ready_by(s: &mut MB) { MakeService::<Conn>::poll_ready(s); }
pub fn root_catch_make(s: CU, c: Conn) -> <MakeServiceByCloning<CU> as MakeService<Conn>>::Future { s.make_service_by_cloning().make_service(c) }
pub fn root_poll_catch_make(f: &mut <MakeServiceByCloning<CU> as MakeService<Conn>>::Future) { poll(f); }
pub fn root_e_debug(e: &Error, f: &mut std::fmt::Formatter) -> std::fmt::Result { std::fmt::Debug::fmt(e, f) }
pub fn root_ctx_ref(c: &Ctx) -> (&Ctx, &Part, &NoContext) { (c.as_ref(), c.as_ref(), c.as_ref()) }
'''
SYNC = 'root_from_request_sync'


def is_cut(n):
    """work handed over to the blocking pool may block"""
    return n['crate'] == 'tokio_threadpool' and re.search(r'::blocking::(global::)?blocking$', n['path']) is not None


def nonblocking(r, procs=8):
    build.prepare()
    ds = corpus.fixed() + corpus.random_decls(60 if r.tier == 'quick' else 600, r.seed)
    src = lib_.SRC + POLLS + '\n'.join(d.source() + '\n' + d.root() for d in ds)
    with build.scratch() as w:
        g = build.dump(src, w, expand='@roots')
    N = g['nodes']
    roots = [i for n, i in g['roots'] if n != SYNC]
    if not any(n == SYNC for n, _ in g['roots']):
        r.open('the synchronous entry point is gone')
    par = reach(g, roots, is_cut)
    edges = sites = 0
    own = [i for i in par if N[i]['crate'] in ('w', 'hyperdrive')]
    seen = set()
    for x in par:
        n = N[x]
        if is_cut(n):
            continue
        mine = n['crate'] in ('w', 'hyperdrive')
        for t, k, w in n['edges']:
            edges += 1
            m = N[t]
            bad = None
            hard = BLOCKING.search(m['path']) or WAITS.search(m['path']) or BLOCKING.search(m['plain'])
            if hard and (n['crate'] not in ('std', 'std_detect')) and m['kind'] != 'drop' and k != 'drop':
                bad = 'waits: %s' % label(m)
            elif LOCKS.search(m['path']) and n['crate'] not in INTERNAL_LOCKS:
                bad = 'waits for a lock: %s' % label(m)
            if bad:
                # report the last own function on the way
                y = x
                while N[y]['crate'] not in ('w', 'hyperdrive') and par[y] is not None:
                    y = par[y][0]
                key = (N[y]['path'], m['path'])
                if key not in seen:
                    seen.add(key)
                    r.violation('%s (%s)' % (N[y]['path'], N[y]['span']), '%s, by way of %s [%s]' % (
                        bad, chain(g, par, x), w))
        if mine:
            sites += len(n['edges'])
            for s in n['spins']:
                r.violation('%s (%s)' % (n['path'], n['span']), 'asks again and again without giving up its turn: ' + s)
            for s in n['notes']:
                if s.startswith('unresolved') or s == 'asm':
                    r.open('%s: %s' % (n['path'], s))
    unknown = sorted(set(N[i]['path'] for i in par if not N[i]['body'] and N[i]['crate'] not in STD and
                         N[i]['kind'] == 'item' and N[i]['crate'] not in ('libc',)))
    for u in unknown:
        r.notes.append('no MIR for ' + u)
    r.coverage = {'functions': len(par), 'own_functions': len(own), 'call_sites': edges, 'own_call_sites': sites,
                  'obligations': edges, 'crates': sorted(set(N[i]['crate'] for i in par)), 'declarations': len(ds),
                  'without_mir': len(unknown), 'exhaustive': False,
                  'samples': [N[i]['path'] for i in own][:60:3],
                  'explanation': 'rule: in the monomorphic call graph from every asynchronous entry point, cut at the '
                                 'thread pool\'s blocking section, no edge leads to a function that waits, no own '
                                 'function takes a lock, and no own loop asks for readiness again without progress'}
    r.assumptions = ['hyper, h2 and futures hold their internal locks only for short sections',
                     'user code (guards, bodies, handlers) is opaque']
    return r.finish(len(par), len(par))


# ---------------------------------------------------------------- C27

HASHED = re.compile(r'(std::collections::hash::(map|set)::|std::collections::hash_(map|set)::|hashbrown::(map|set)::)')
DETERMINISTIC_HASHER = re.compile(r'BuildHasherDefault')
# methods of hash tables that do not reveal the order of their elements
LOOKUPS = ('new', 'with_capacity', 'with_hasher', 'with_capacity_and_hasher', 'default', 'insert', 'get', 'get_mut',
           'get_key_value', 'contains', 'contains_key', 'entry', 'remove', 'remove_entry', 'take', 'replace', 'len',
           'is_empty', 'capacity', 'reserve', 'shrink_to_fit', 'clear', 'clone', 'eq', 'ne', 'index', 'is_subset', 'is_superset',
           'is_disjoint', 'or_insert', 'or_insert_with', 'or_default', 'and_modify', 'or_insert_with_key', 'key',
           'into_mut', 'extend', 'from_iter', 'from', 'drop', 'retain', 'hasher', 'get_or_insert_with', 'try_insert',
           'drop_in_place', 'drop_glue', 'borrow', 'as_ref', 'deref', 'into_key', 'get_disjoint_mut')
# uses of an iterator that do not depend on its order
UNORDERED = ('all', 'any', 'count', 'len', 'max', 'min', 'sum', 'product', 'is_empty', 'size_hint', 'max_by_key',
             'min_by_key')
ADAPTERS = ('iter', 'iter_mut', 'into_iter', 'keys', 'values', 'values_mut', 'into_keys', 'into_values', 'drain', 'map',
            'filter', 'filter_map', 'cloned', 'copied', 'flat_map', 'flatten', 'chain', 'difference', 'intersection',
            'union', 'symmetric_difference', 'by_ref', 'inspect', 'bitor', 'bitand', 'bitxor', 'sub', 'drop',
            'drop_glue', 'clone')
SORTED_TARGETS = re.compile(r'^(std::collections::hash|hashbrown::|alloc::collections::b?tree|alloc::collections::binary_heap|'
                            r'bool$|usize$)')
BANNED = [
    (re.compile(r'^<?std::time::'), 'reads the time'),
    (re.compile(r'^<?std::env::'), 'reads the environment'),
    (re.compile(r'^<?(&?(mut )?)?std::fs::'), 'reads files'),
    (re.compile(r'^<?std::net::'), 'uses the network'),
    (re.compile(r'^<?std::process::'), 'uses processes'),
    (re.compile(r'^<?std::thread::(?!functions::panicking|local)'), 'depends on threads'),
    (re.compile(r'^<?std::hash::random::RandomState'), 'uses a random hash seed'),
    (re.compile(r'^<?std::(collections::hash_map|hash)::RandomState'), 'uses a random hash seed'),
    (re.compile(r'^core::hash::BuildHasher::'), 'uses a hash value'),
    (re.compile(r'^std::io::stdio::(stdin|_print)|^<?std::io::stdio::Stdin'), 'uses the console'),
    (re.compile(r'^proc_macro::tracked'), 'reads the environment'),
    (re.compile(r'^<.* as core::fmt::Pointer>::fmt|^core::fmt::pointer_fmt_inner'), 'prints an address'),
    (re.compile(r'^proc_macro2?::Span::(start|end|line|column|byte_range|source_file|file|local_file|source_text|eq|'
                r'before|after|parent|source)$'), 'depends on where the declaration is written'),
    (re.compile(r'^<proc_macro2?::Span as core::fmt::Debug>::fmt'), 'depends on where the declaration is written'),
    (re.compile(r'^core::any::TypeId|^core::any::type_name'), 'depends on type identities'),
    (re.compile(r'^libc::|^getrandom::|^rand::|^rand_core::'), 'uses the operating system'),
]
STATE = re.compile(r'(Atomic|core::cell::(Cell|RefCell|UnsafeCell)<|Mutex<|RwLock<)')


def unordered_use(m):
    """None, or why a call with a hash table or one of its iterators depends on the order"""
    texts = [m['self']] + m['args'] + [m['path']]
    if not any(HASHED.search(x) for x in texts):
        return None
    if any(DETERMINISTIC_HASHER.search(x) for x in texts):
        return None
    name = m['path'].rstrip('>').split('::')[-1]
    if name.startswith('{'):
        return None         # a closure, analysed itself
    iterator = any(re.search(r'(Iter|IntoIter|Keys|Values|Drain|IntoKeys|IntoValues|Difference|Intersection|Union|'
                             r'SymmetricDifference|IterMut|ValuesMut)\b', x) and HASHED.search(x)
                   for x in [m['self']] + m['args'])
    if name == 'collect' or name == 'from_iter':
        # the target is the last type argument of collect, self of from_iter
        t = m['self'] if name == 'from_iter' else (m['args'][-1] if m['args'] else '')
        if SORTED_TARGETS.search(t):
            return None
        return 'collects the elements of a hash table in their order'
    if m['trait'].startswith('core::fmt::'):
        return 'prints a hash table in its order'
    if iterator:
        if name in UNORDERED or name in ADAPTERS:
            return None
        return 'goes through a hash table in its order'
    if name == 'extend' and not HASHED.search(m['self']):
        return 'adds the elements of a hash table in their order'
    if name in LOOKUPS or name in ADAPTERS or name in UNORDERED:
        return None
    if HASHED.search(m['self']) or m['crate'] in ('core', 'alloc', 'std'):
        # any other method of the table
        if m['crate'] in ('core', 'alloc') and not HASHED.search(m['path']) and not HASHED.search(m['self']):
            return None if not any(re.match(r'&?(mut )?std::collections::hash', a) for a in m['args']) or \
                name in ('unwrap', 'expect', 'as_ref', 'as_mut', 'take', 'new', 'replace', 'swap', 'default', 'branch',
                         'from_residual', 'into', 'from', 'borrow', 'borrow_mut', 'map', 'unwrap_or_default',
                         'get_or_insert_with', 'deref', 'deref_mut', 'push', 'insert', 'or_insert_with', 'is_some',
                         'is_none', 'ok', 'err', 'ok_or_else', 'and_then', 'unwrap_or_else', 'call_once', 'call',
                         'call_mut', 'drop_glue', 'clone') else 'hands a hash table to ' + name
        return 'uses ' + name + ' of a hash table'
    return None


def deterministic(r, procs=8):
    with build.scratch() as w:
        g = build.crate_graph('hyperderive', w)
    N = g['nodes']
    roots = [i for n, i in g['roots'] if re.match(r'^hyperderive::[^:]+$', n)]
    if len(roots) < 2:
        r.open('entry points not recognised; every function of the crate is taken as one')
        roots = [i for _, i in g['roots']]
    par = reach(g, roots)
    own = [i for i in par if N[i]['local']]
    edges = 0
    seen = set()

    def bad(x, what, where):
        if (x, what, where) not in seen:
            seen.add((x, what, where))
            r.violation('%s (%s)' % (N[x]['path'], N[x]['span']), '%s [%s], reached by %s' % (what, where, chain(g, par, x)))
    for x in own:
        n = N[x]
        for t, k, w in n['edges']:
            edges += 1
            m = N[t]
            if m['local']:
                continue
            u = unordered_use(m) if k != 'drop' else None
            if u:
                bad(x, '%s: %s' % (u, label(m)), w)
            for rx, why in BANNED:
                if rx.search(m['path']) and k != 'drop':
                    if 'RandomState' in m['path'] and not m['path'].startswith(('<std::hash', 'std::hash', 'std::collections')):
                        continue
                    bad(x, '%s: %s' % (why, label(m)), w)
                    break
            if m['foreign']:
                bad(x, 'calls foreign code: ' + m['path'], w)
        for sid, w in n['statics']:
            s = g['statics'][sid]
            if s['mut'] or ((not s['freeze'] or s['tls']) and STATE.search(s['t'])) and s['crate'] not in ('std', 'core', 'alloc'):
                bad(x, 'uses global state: %s: %s' % (s['path'], s['t']), w)
        for w in n['exposes']:
            bad(x, 'uses an address as a number', w)
        for s in n['notes']:
            if s == 'asm':
                bad(x, 'contains assembly', n['span'])
            elif s.startswith('unresolved'):
                r.open('%s: %s' % (n['path'], s))
    # dependencies: the same sources, where their own tables (lookup only or for diagnostics) are not concerned
    dep = 0
    for x in par:
        n = N[x]
        if n['local'] or n['crate'] not in ('syn', 'quote', 'synstructure', 'indexmap', 'proc_macro2'):
            continue
        for t, k, w in n['edges']:
            dep += 1
            m = N[t]
            if k == 'drop':
                continue
            if n['crate'] == 'indexmap':
                continue        # hashes for lookup, keeps its elements in insertion order
            if n['crate'] == 'syn' and n['plain'].startswith('syn::thread::'):
                continue        # only guards against use from another thread
            if n['crate'] == 'proc_macro2' and 'nightly_works' in n['plain']:
                continue        # detects whether it runs inside the compiler
            u = unordered_use(m)
            if u:
                bad(x, '%s: %s' % (u, label(m)), w)
            for rx, why in BANNED:
                if rx.search(m['path']):
                    bad(x, '%s: %s' % (why, label(m)), w)
                    break
    r.coverage = {'functions': len(par), 'own_functions': len(own), 'call_sites': edges + dep, 'own_call_sites': edges,
                  'obligations': edges + dep, 'entry_points': sorted(N[i]['path'] for i in roots),
                  'crates': sorted(set(N[i]['crate'] for i in par)), 'exhaustive': True,
                  'samples': [N[i]['path'] for i in own][:60:3],
                  'explanation': 'rule: no function reachable from the derive entry points observes the order of a hash '
                                 'table, a hash value, time, environment, files, threads, addresses, source positions or '
                                 'mutable global state; IndexMap keeps insertion order'}
    r.assumptions = ['indexmap iterates in insertion order', 'regex and regex-syntax are deterministic',
                     'Hash and Eq of map keys agree']
    return r.finish(len(par), len(par))
