#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the specifications in tools/seedspecs*.py (python3 tools/mkseed.py [ids])."""
import difflib, glob, importlib.util, json, os, shlex, shutil, stat, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(os.path.dirname(HERE), 'seeded')
RUN = '''#!/bin/bash
# run in the repository; exits 0 if the program beside it compiles and succeeds
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
. /opt/vp/env.sh
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src"
cp "$here"/*.rs "$t/src/"
cp "$repo/Cargo.lock" "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2018"
[workspace]
[dependencies]
hyperdrive = { path = "$repo" }
%(deps)sEOF
cd "$t" && CARGO_TARGET_DIR="$t/target" timeout 250 cargo run --offline -q 2> "$t/log"
s=$?
if [ $s -ne 0 ]; then grep -E "^error|panicked" -A6 "$t/log" | head -40; fi
exit $s
'''
REJECT = '''#!/bin/bash
# run in the repository; exits 0 if main.rs compiles and bad.rs is refused by the derive
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
. /opt/vp/env.sh
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src/bin"
cp "$here/main.rs" "$t/src/main.rs"
cp "$here/bad.rs" "$t/src/bin/bad.rs"
cp "$repo/Cargo.lock" "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2018"
[workspace]
[dependencies]
hyperdrive = { path = "$repo" }
%(deps)sEOF
cd "$t" || exit 2
export CARGO_TARGET_DIR="$t/target"
if ! timeout 250 cargo check --offline -q --bin demo 2> "$t/log"; then
  echo "the well-formed twin does not compile"; head -30 "$t/log"; exit 2
fi
if timeout 100 cargo check --offline -q --bin bad 2> "$t/log"; then
  echo "the ill-formed program compiles"; exit 1
fi
%(msg)sexit 0
'''
PRE = '''#![allow(dead_code, unused_imports, unused_variables)]
use hyperdrive::{*, futures::{self, Future, IntoFuture}, http::{self, Request, Response, Method, StatusCode, HttpTryFrom}, hyper::{self, Body, service::Service}};
use std::sync::{Arc, Mutex, atomic::{AtomicUsize, Ordering}};
fn req(m: &str, p: &str) -> Request<Body> {
    let mut r = Request::new(Body::empty());
    *r.method_mut() = m.parse().unwrap();
    *r.uri_mut() = p.parse().unwrap();
    r
}
fn get<R: FromRequest<Context = NoContext>>(m: &str, p: &str) -> Result<R, BoxedError> {
    R::from_request_sync(req(m, p), NoContext)
}
fn status<R>(r: Result<R, BoxedError>) -> u16 {
    match r { Ok(_) => 200, Err(e) => e.downcast_ref::<Error>().map(|e| e.http_status().as_u16()).unwrap_or(999) }
}
fn allowed<R>(r: Result<R, BoxedError>) -> Vec<String> {
    let e = r.err().expect("an error");
    let e = e.downcast_ref::<Error>().expect("a hyperdrive error");
    e.allowed_methods().expect("a 405").iter().map(|m| m.to_string()).collect()
}
'''


def specs():
    out = []
    for f in sorted(glob.glob(os.path.join(HERE, 'seedspecs*.py'))):
        sp = importlib.util.spec_from_file_location('s', f)
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        out += m.SEEDS
    ids = [s['id'] for s in out]
    assert len(ids) == len(set(ids)), [i for i in ids if ids.count(i) > 1]
    return out


def main(only):
    for s in specs():
        if only and s['id'] not in only:
            continue
        d = os.path.join(OUT, s['id'])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        files = {}
        for e in s['edits']:
            f, old, new = e[:3]
            t = files.setdefault(f, open('/repo/' + f).read())
            n = t.count(old)
            want = e[3] if len(e) > 3 else 1
            assert n == want, (s['id'], f, old, n)
            files[f] = t.replace(old, new)
        patch = ''
        for f, t in sorted(files.items()):
            a = open('/repo/' + f).read()
            patch += ''.join(difflib.unified_diff(a.splitlines(True), t.splitlines(True), 'a/' + f, 'b/' + f))
        open(os.path.join(d, 'patch.diff'), 'w').write(patch)
        deps = ''.join(x + '\n' for x in s.get('deps', []))
        open(os.path.join(d, 'demo.sh'), 'w').write((REJECT if 'bad' in s else RUN) % {
            'deps': deps, 'msg': ''.join('grep -qF -e %s "$t/log" || { echo "not said:" %s; head -20 "$t/log"; exit 1; }\n' % (shlex.quote(m), shlex.quote(m)) for m in s.get('msg', []))})
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        pre = '' if s.get('nopre') else PRE
        open(os.path.join(d, 'main.rs'), 'w').write(pre + s['main'])
        if 'bad' in s:
            open(os.path.join(d, 'bad.rs'), 'w').write(pre + s['bad'])
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['what']},
                  open(os.path.join(d, 'meta.json'), 'w'), indent=1)


main(sys.argv[1:])
