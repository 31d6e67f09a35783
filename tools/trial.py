#!/usr/bin/env python3
"""Tries planted bugs (or refactorings) in private copies: python3 tools/trial.py [-j N] [-c own|all|C01,C02] [-r] ids|patch files

-r: the patches are refactorings: no demo, every check has to stay quiet."""
import argparse, concurrent.futures as cf, json, os, queue, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
INNER = r'''
set -u
mount --bind $SLOT/repo /repo && mount --bind $SLOT/verif /verif && mount --bind $SLOT/vp /opt/vp || exit 9
cd /repo && git checkout -q -- . 
git apply $PATCH || { echo "APPLY fail"; exit 0; }
find . -name '*.rs' -not -path './target/*' | xargs touch
if [ -z "$QUICK" ]; then if ! bash /opt/vp/build.sh > $SLOT/build.log 2>&1; then echo "BUILD fail"; grep -E '^error' -A5 $SLOT/build.log | head -20; git checkout -q -- .; exit 0; fi
bash /opt/vp/test.sh $SLOT/out.json > $SLOT/test.log 2>&1
python3 - <<P
import json
b = json.load(open('/opt/vp/BASELINE.json'))['stable']
o = json.load(open('$SLOT/out.json'))
ok = set(o.get('passed', []))
miss = [x for x in b if x not in ok]
print('TESTS', 'ok' if not miss else 'FAIL ' + ', '.join(miss[:6]))
P
fi
if [ -n "$DEMO" ]; then (cd /repo; bash $DEMO > $SLOT/demo.log 2>&1); echo "DEMO $?"; fi
cd /verif
for c in $CHECKS; do
  s=$(date +%s.%N)
  if [ $c = DER ]; then timeout 900 python3 tools/derall.py > $SLOT/check-$c.log 2>&1; rc=$?; else timeout 900 python3 check.py $c quick > $SLOT/check-$c.log 2>&1; rc=$?; fi
  e=$(date +%s.%N)
  echo "CHECK $c $rc $(grep -c ^VIOLATION $SLOT/check-$c.log) $(echo "$e - $s" | bc | cut -c1-5)"
  if [ $rc -ne 0 ]; then grep -v '^VIOLATION' $SLOT/check-$c.log | head -${LINES_:-6} | cut -c1-600 | sed 's/^/    /'; fi
done
cd /repo; git checkout -q -- .
if [ -n "$DEMO" ] && [ -n "$CLEAN" ]; then find . -name '*.rs' -not -path './target/*' | xargs touch;  bash /opt/vp/build.sh > $SLOT/build.log 2>&1; bash $DEMO > $SLOT/demo2.log 2>&1; echo "CLEANDEMO $?"; tail -5 $SLOT/demo2.log; fi
'''
ap = argparse.ArgumentParser()
ap.add_argument('-j', type=int, default=3)
ap.add_argument('-c', default='own')
ap.add_argument('-r', action='store_true')
ap.add_argument('-q', action='store_true', help='no tests')
ap.add_argument('--clean', action='store_true')
ap.add_argument('-l', default='6')
ap.add_argument('-s', type=int, default=0, help='first slot')
ap.add_argument('ids', nargs='*')
a = ap.parse_args()
allc = [c['property'] for c in json.load(open(os.path.join(VERIF, 'MANIFEST.json'))).get('checks', [])] if True else []
jobs = []
for i in a.ids or sorted(os.listdir(os.path.join(VERIF, 'seeded'))):
    d = os.path.join(VERIF, 'seeded', i)
    if os.path.isfile(i):
        jobs.append((os.path.basename(i), os.path.abspath(i), '', os.path.basename(i)[:3] if a.c == 'own' and os.path.basename(i)[:3] in allc else ' '.join(allc) if a.c in ('own', 'all') else a.c.replace(',', ' ')))
    else:
        p = json.load(open(os.path.join(d, 'meta.json')))['property']
        cs = {'own': p, 'all': ' '.join(allc), 'none': ''}.get(a.c, a.c.replace(',', ' '))
        jobs.append((i, os.path.join(d, 'patch.diff'), os.path.join(d, 'demo.sh'), cs))
slots = queue.Queue()
for k in range(min(a.j, len(jobs))):
    s = '/tmp/trial/%d' % (a.s + k)
    os.makedirs(s, exist_ok=True)
    for n, src in (('repo', '/repo'), ('verif', VERIF), ('vp', '/opt/vp')):
        subprocess.check_call(['rsync', '-a', '--delete', src + '/', s + '/' + n + '/'])
    slots.put(s)


def one(j):
    name, patch, demo, cs = j
    s = slots.get()
    try:
        if demo:
            shutil.rmtree(s + '/demo', ignore_errors=True)
            shutil.copytree(os.path.dirname(demo), s + '/demo')
            demo = s + '/demo/demo.sh'
        shutil.copy(patch, s + '/p.diff')
        t = time.time()
        r = subprocess.run(['unshare', '-Urm', 'bash', '-c', INNER], env=dict(os.environ, SLOT=s, PATCH=s + '/p.diff', DEMO=demo, CHECKS=cs,
                           CLEAN='1' if a.clean else '', QUICK='1' if a.q else '', LINES_=a.l, VERIF_SEED='1'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, encoding='utf-8', errors='replace')
        dl = ''
        if demo and os.path.exists(s + '/demo.log'):
            dl = ''.join('    demo: ' + x for x in open(s + '/demo.log', errors='replace').readlines()[:4])
        return name, r.stdout + dl, time.time() - t
    finally:
        slots.put(s)


with cf.ThreadPoolExecutor(a.j) as ex:
    for name, out, t in ex.map(one, jobs):
        print('=== %s (%.0f s)\n%s' % (name, t, out.rstrip()), flush=True)
