"""Paths, processes and tool invocations shared by the checks."""
import json, os, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get('VJ_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
DRIVER = os.path.join(VERIF, 'driver')
TLA_JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class Broken(Exception):
    """The machinery (not the code under test) failed: an error exit."""


def log(*a):
    print('[%6.1fs]' % (time.time() - T0), *a, file=sys.stderr, flush=True)


T0 = time.time()


def goenv(**kw):
    e = dict(os.environ)
    e.update(GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOWORK='off', GONOSUMDB='*', GONOSUMCHECK='1', TZ='UTC')
    try:
        out = subprocess.run(['bash', '-c', '. /opt/vp/env.sh >/dev/null 2>&1; env -0'], capture_output=True, timeout=30).stdout
        for kv in out.split(b'\0'):
            k, _, v = kv.decode('utf8', 'replace').partition('=')
            if k in ('PATH', 'GOROOT', 'GOPATH', 'GOMODCACHE', 'GOCACHE', 'GOFLAGS', 'GOTOOLCHAIN', 'GOPROXY', 'GOSUMDB', 'GOWORK', 'GONOSUMDB', 'GOFLAGS'):
                e[k] = v
    except Exception:
        pass
    e.update(kw)
    return e


GOENV = None


def go(args, cwd, timeout=600, **kw):
    global GOENV
    if GOENV is None:
        GOENV = goenv()
    return subprocess.run(['go'] + args, cwd=cwd, env=dict(GOENV, **kw), capture_output=True, text=True, timeout=timeout)


def scratch():
    base = os.environ.get('VJ_TMP') or tempfile.gettempdir()
    return tempfile.mkdtemp(prefix='vj-', dir=base)


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w') as f:
        f.write(text)


def dump(path, obj):
    with open(path, 'w') as f:
        json.dump(obj, f)


def tlc_cmd(module, cfg, metadir, heap='2g', workers=1, extra=()):
    return ['java', '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m', '-XX:TieredStopAtLevel=4',
            '-cp', TLA_JARS, 'tlc2.TLC', '-noGenerateSpecTE', '-metadir', metadir, '-workers', str(workers),
            '-config', cfg, *extra, module]


def tlc(module, cfg, metadir, env, timeout, **kw):
    e = dict(os.environ)
    e.update(env)
    p = subprocess.run(tlc_cmd(module, cfg, metadir, **kw), cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr
