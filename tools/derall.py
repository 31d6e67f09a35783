#!/usr/bin/env python3
"""All derive checks (C01-C10, C13) in one run, for development: prints every mismatch with the properties it violates."""
import os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'sa'))
sys.setrecursionlimit(20000)
import build, corpus, derive  # noqa: E402

build.prepare()
res, bad = derive.run(corpus.fixed() + corpus.random_decls(int(sys.argv[1]) if len(sys.argv) > 1 else 40, 1), 8, None, 600)
n = 0
for d, m in bad:
    print('does not compile:', d.name, m.splitlines()[0]); n += 1
und = 0
for d, st, viol, unk, prob in res:
    if prob:
        print('PROBLEM', d.name, prob.strip().splitlines()[-1]); n += 1
        continue
    und += len(st['undecided'])
    for u in sorted(set(st['undecided']))[:2]:
        print('UNDECIDED', d.name, u)
    for props, text in viol[:3]:
        print(d.name, ','.join(props), text)
    n += len(viol)
print('VIOLATION %d mismatches, %d undecided, %d declarations' % (n, und, len(res)) if n else 'quiet, %d undecided' % und)
sys.exit(1 if n else 0)
