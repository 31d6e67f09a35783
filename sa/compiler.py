"""Batches of witness programs through the compiler: which of them expand, which of them compile."""
import json
import multiprocessing
import os
import subprocess

import build

HEAD = '#![allow(warnings)]\nuse hyperdrive::{FromRequest, RequestContext};\n'


UNFINISHED = ['the compiler does not finish']


class Hang(Exception):
    """the compiler does not finish with a declaration"""


def first(j):
    m = j['message']
    if j.get('children') and 'panicked' in m:
        m += ': ' + j['children'][0]['message']
    return m


def lines_of(j):
    """lines of the witness crate that a diagnostic is about"""
    out = set()
    for s in j.get('spans', ()):
        while s:
            if s['file_name'].endswith('.rs') and os.path.basename(s['file_name']) == 'c.rs' and s.get('is_primary', 1):
                out.add(s['line_start'])
            s = (s.get('expansion') or {}).get('span')
    return out


def _expand(job):
    """macro expansion and name resolution only"""
    items, head = job[:2]
    limit = job[2] if len(job) > 2 else 60 + len(items) // 20
    src = head + ''.join(i.replace('\n', ' ') + '\n' for i in items)
    n0 = head.count('\n')
    with build.scratch() as w:
        f = os.path.join(w, 'c.rs')
        with open(f, 'w') as h:
            h.write(src)
        try:
            r = build.run(['prlimit', '--as=%d' % (6 << 30), 'rustc', '+nightly', f, '--error-format=json', '-Zno-analysis'] +
                          build.rustc_flags(os.path.join(w, 'l.rmeta')), timeout=limit)
        except subprocess.TimeoutExpired:
            return None, None
    if r.returncode < 0:
        return None, None       # out of memory, say
    out = [None] * len(items)
    other = []
    for l in r.stderr.splitlines():
        if not l.startswith('{'):
            if l.strip():
                other.append(l)
            continue
        j = json.loads(l)
        if j.get('level') not in ('error', 'error: internal compiler error'):
            continue
        ls = [x - n0 - 1 for x in lines_of(j) if n0 < x <= n0 + len(items)]
        if not ls and 'aborting' not in j['message'] and 'previous error' not in j['message']:
            other.append(j['message'])
        for x in ls:
            if out[x] is None:
                out[x] = first(j)
    if r.returncode < 0 or r.returncode > 1:
        other.append('the compiler ended with status %d' % r.returncode)
    return out, other


def shard(items, n):
    k = max(1, (len(items) + n - 1) // n)
    return [items[i:i + k] for i in range(0, len(items), k)]


def pmap(f, jobs, procs):
    if procs <= 1 or len(jobs) <= 1:
        return [f(j) for j in jobs]
    with multiprocessing.get_context('fork').Pool(min(procs, len(jobs))) as p:
        return p.map(f, jobs, chunksize=1)


def expand(items, procs=8, head=HEAD):
    """for each item None, or the message with which its expansion fails; and messages that belong to no item"""
    items = list(items)
    n = max(4 * procs if len(items) > 4000 else procs, (len(items) + 3999) // 4000)
    parts = shard(items, n)
    out, other = [], []
    for part, (o, x) in zip(parts, pmap(_expand, [(s, head) for s in parts], procs)):
        if o is None:
            raise Hang(slowest(part, head, procs))
        out += o
        other += x
    return out, other


def slowest(items, head, procs):
    """an item that the compiler does not finish to expand"""
    while len(items) > 1:
        parts = shard(items, procs)
        for part, (o, _) in zip(parts, pmap(_expand, [(s, head) for s in parts], procs)):
            if o is None:
                items = part
                break
        else:
            return ' '.join(items)
    return items[0]


def _compile(job):
    src, kw = job
    try:
        with build.scratch() as w:
            ds, rc = build.diagnostics(src, w, **kw)
    except subprocess.TimeoutExpired:
        return UNFINISHED
    return (None if rc == 0 else [first(d) for d in ds] or ['status %d' % rc])


def compile_each(sources, procs=8, **kw):
    """full compilation of every source on its own: None or its error messages"""
    return pmap(_compile, [(s, dict(kw, timeout=120)) for s in sources], procs)


def _batch(job):
    items, head, kw = job
    items = list(items)
    out = {}
    while items:
        limit = dict(kw, timeout=60 + 2 * len(items))
        n, of = head.count('\n') + 1, {}
        for k, src in items:
            for x in range(n, n + src.count('\n') + 1):
                of[x] = k
            n += src.count('\n') + 1
        try:
            with build.scratch() as w:
                ds, rc = build.diagnostics(head + '\n'.join(s for _, s in items), w, **limit)
        except subprocess.TimeoutExpired:
            ds = None
        if ds is None:
            slow = items
            while len(slow) > 1:
                h = len(slow) // 2
                if _expand(([s for _, s in slow[:h]], head, 20))[0] is None:
                    slow = slow[:h]
                elif _expand(([s for _, s in slow[h:]], head, 20))[0] is None:
                    slow = slow[h:]
                else:
                    break
            if len(slow) == 1:
                raise Hang(slow[0][1])
        elif rc == 0:
            for k, _ in items:
                out[k] = None
            break
        elif len(items) == 1:
            out[items[0][0]] = [first(d) for d in ds] or ['status %d' % rc]
            break
        else:
            # what the compiler reports about single items; the others are compiled again without these
            bad = {}
            for d in ds:
                ks = {of[x] for x in lines_of(d) if x in of}
                if len(ks) == 1:
                    bad.setdefault(ks.pop(), []).append(first(d))
            if bad:
                out.update(bad)
                items = [x for x in items if x[0] not in bad]
                continue
        # bisect
        h = len(items) // 2
        out.update(_batch((items[:h], head, kw)))
        out.update(_batch((items[h:], head, kw)))
        break
    return out


def compile_good(items, procs=8, head='', **kw):
    """items: (key, source) pairs expected to compile; {key: None or error messages}"""
    out = {}
    for o in pmap(_batch, [(s, head, kw) for s in shard(list(items), procs)], procs):
        out.update(o)
    return out
