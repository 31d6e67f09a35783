#!/usr/bin/env python3
"""Writes the behaviour-preserving edits of tools/refspecs*.py as patches: python3 tools/mkref.py DIR"""
import difflib, glob, importlib.util, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
out = sys.argv[1]
os.makedirs(out, exist_ok=True)
for f in sorted(glob.glob(os.path.join(HERE, 'refspecs*.py'))):
    spec = importlib.util.spec_from_file_location('m', f)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    for name, edits in m.R:
        files = {}
        for e in edits:
            p, old, new, how = (tuple(e) + ('',))[:4]
            s = files.setdefault(p, [open('/repo/' + p).read()] * 2)
            cur = s[1]
            if how == 'doc':        # insert before the item's doc comment
                item = old.strip('\n')
                helper = new.strip('\n')
                assert helper.endswith(item)
                lines = cur.split('\n')
                k = next(i for i, l in enumerate(lines) if l == item)
                while lines[k - 1].startswith(('///', '#[')):
                    k -= 1
                cur = '\n'.join(lines[:k] + helper[:-len(item)].split('\n') + lines[k:])
            else:
                n = cur.count(old)
                if n == 0 or (n > 1 and how != 'all'):
                    print('%s: %d occurrences in %s of %r' % (name, n, p, old[:70]))
                    continue
                cur = cur.replace(old, new)
            files[p] = [s[0], cur]
        with open(os.path.join(out, name + '.diff'), 'w') as g:
            for p, (a, b) in files.items():
                g.writelines(difflib.unified_diff(a.splitlines(True), b.splitlines(True), 'a/' + p, 'b/' + p))
