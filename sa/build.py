"""Building: the MIR driver, hyperdrive (from /repo's current tree), and witness crates."""
import contextlib
import fcntl
import glob
import json
import os
import shlex
import shutil
import subprocess
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
BUILD = os.path.join(VERIF, '.build')
DRIVER = os.path.join(BUILD, 'driver', 'debug', 'mirdump')
DEPS = os.path.join(BUILD, 'deps')
EXPAND = ('core::option,core::result,core::ops,core::convert,core::cmp,core::clone,core::mem,hyperdrive,'
          'http::status,http::method,http::request,http::response,http::convert,http::header::name,'
          'http::header::value,core::str::<impl str>::parse,core::bool,'
          'hyper::service::service::Service::poll_ready,hyper::service::make_service::MakeService::poll_ready')
FLAGS = '-Zalways-encode-mir -Zmir-opt-level=0 -Awarnings'


class BuildError(Exception):
    pass


def env(**kw):
    e = dict(os.environ)
    for k in ('RUSTFLAGS', 'RUSTC_WRAPPER', 'CARGO_TARGET_DIR', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTUP_TOOLCHAIN'):
        e.pop(k, None)
    e.update(kw)
    return e


def run(cmd, cwd=None, timeout=800, **kw):
    return subprocess.run(cmd, cwd=cwd, env=env(**kw), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                          timeout=timeout, universal_newlines=True, errors='replace')


@contextlib.contextmanager
def lock():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        yield


_sysroot = None


def sysroot():
    global _sysroot
    if _sysroot is None:
        _sysroot = run(['rustc', '+nightly', '--print', 'sysroot']).stdout.strip()
    return _sysroot


def build_driver():
    r = run(['cargo', '+nightly', 'build', '--offline'], cwd=os.path.join(VERIF, 'driver'),
            CARGO_TARGET_DIR=os.path.join(BUILD, 'driver'))
    if r.returncode:
        raise BuildError('driver:\n' + r.stderr[-4000:])


def build_deps():
    """hyperdrive and its derive, always from the current sources of /repo"""
    for p in ('hyperdrive', 'hyperderive'):
        shutil.rmtree(os.path.join(DEPS, 'debug', 'build', p), ignore_errors=True)
        for f in glob.glob(os.path.join(DEPS, 'debug', '.fingerprint', p + '-*')):
            shutil.rmtree(f, ignore_errors=True)
    r = run(['cargo', '+nightly', 'check', '--offline', '-v'], cwd=os.path.join(VERIF, 'witness'), RUSTFLAGS=FLAGS,
            CARGO_TARGET_DIR=DEPS)
    if r.returncode:
        raise BuildError('hyperdrive does not build:\n' + '\n'.join(
            l for l in r.stderr.splitlines() if 'Running `' not in l and ' Fresh ' not in l)[-4000:])
    return r.stderr


def crate_graph(name, d, mode='@all'):
    """call graph of everything reachable from any function of one of the crates of /repo (or what `mode` asks for)"""
    cmd = None
    for l in build_deps().splitlines():
        l = l.strip()
        if l.startswith('Running `') and '--crate-name %s ' % name in l:
            cmd = shlex.split(l[len('Running `'):-1])
    if cmd is None:
        raise BuildError('cargo did not compile ' + name)
    while '=' in cmd[0]:
        cmd.pop(0)
    a, skip = [], False
    for x in cmd[1:]:
        if skip or x.startswith('--json') or x.startswith('--error-format') or x.startswith('--emit'):
            skip = False
            continue
        if x == '--out-dir':
            skip = True
            continue
        a.append(x)
    out = os.path.join(d, 'graph.json')
    a += ['--emit=metadata', '--out-dir', d, '--sysroot', sysroot()]
    r = run([DRIVER, out, mode] + a, cwd=REPO, LD_LIBRARY_PATH=os.path.join(sysroot(), 'lib'))
    if r.returncode:
        raise BuildError('%s: %s' % (name, r.stderr[-4000:]))
    with open(out) as h:
        return json.load(h)


def out_dirs():
    return sorted(glob.glob(os.path.join(DEPS, 'debug', 'build', '*', '*', 'out')) +
                  glob.glob(os.path.join(DEPS, 'debug', 'deps')))


def lib(name):
    c = [f for d in out_dirs() for f in glob.glob(os.path.join(d, 'lib%s-*.rmeta' % name)) +
         glob.glob(os.path.join(d, 'lib%s-*.so' % name))]
    if not c:
        raise BuildError('no library %s' % name)
    return max(c, key=os.path.getmtime)


def rustc_flags(out, emit='metadata', externs=('hyperdrive',)):
    a = ['--crate-type', 'lib', '--edition', '2018', '--emit=' + emit, '-o', out, '--sysroot', sysroot(),
         '-Zmir-opt-level=0', '-Zalways-encode-mir', '-Awarnings']
    for d in out_dirs():
        a += ['-L', 'dependency=' + d]
    for e in externs:
        a += ['--extern', '%s=%s' % (e, lib(e))]
    return a


@contextlib.contextmanager
def scratch():
    os.makedirs(BUILD, exist_ok=True)
    d = tempfile.mkdtemp(prefix='work-', dir=BUILD)
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def dump(src, d, name='w', expand=EXPAND, externs=('hyperdrive',), pre=(), timeout=800):
    """compiles the witness crate and returns its MIR (see driver/) as a dict"""
    f = os.path.join(d, name + '.rs')
    with open(f, 'w') as h:
        h.write(src)
    out = os.path.join(d, name + '.json')
    e = LD = os.path.join(sysroot(), 'lib')
    del e
    r = run([DRIVER, out, expand, f] + list(pre) + rustc_flags(os.path.join(d, 'lib%s.rmeta' % name), externs=externs),
            LD_LIBRARY_PATH=LD, timeout=timeout)
    if r.returncode:
        raise BuildError('witness crate does not compile:\n' + r.stderr[-6000:])
    with open(out) as h:
        return json.load(h)


def diagnostics(src, d, name='c', externs=('hyperdrive',), edition=None, timeout=800):
    """error messages of compiling a witness crate: (list of diagnostics, exit code)"""
    f = os.path.join(d, name + '.rs')
    with open(f, 'w') as h:
        h.write(src)
    a = rustc_flags(os.path.join(d, 'lib%s.rmeta' % name), externs=externs)
    if edition:
        a[a.index('--edition') + 1] = edition
    r = run(['rustc', '+nightly', f, '--error-format=json'] + a, timeout=timeout)
    out = []
    for l in r.stderr.splitlines():
        if l.startswith('{'):
            j = json.loads(l)
            if j.get('level') == 'error':
                out.append(j)
    return out, r.returncode


def prepare():
    """what every check does first: rebuild hyperdrive from /repo"""
    if not os.path.exists(DRIVER):
        build_driver()
    build_deps()
