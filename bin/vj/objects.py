"""The object pipeline: behaviours of VJObject -> generated code -> VJTrace."""
import concurrent.futures as cf
import json, os, re, subprocess
from .common import *

SHARDS = 8
FINAL = re.compile(r'^(\d+) states generated, (\d+) distinct states found, 0 states left', re.M)


def catalog(work, tier='quick', seed=1):
    """the declarations of VJCatalog, in order"""
    out = os.path.join(work, 'catalog.json')
    rc, txt = tlc('VJCatalog.tla', 'empty.cfg', os.path.join(work, 'md-cat'), dict(VJ_OUT=out, VJ_TIER=tier, VJ_SEED=str(seed)), 120)
    if not os.path.exists(out):
        raise Broken('VJCatalog: ' + txt[-2000:])
    return json.load(open(out))


def histories(work, prop, shard, envfile, lex, tier, seed):
    env = dict(VJ_ENV=envfile, VJ_LEX=lex, VJ_PROP=prop, VJ_SHARD=str(shard), VJ_SHARDS=str(SHARDS), VJ_TIER=tier, VJ_SEED=str(seed))
    rc, out = tlc('VJObject.tla', 'VJObject.cfg', os.path.join(work, 'md-o%d' % shard), env, 1500, heap='3g')
    if 'Model checking completed. No error has been found.' not in out:
        err = '\n'.join(l for l in out.splitlines() if not l.startswith('"@H'))
        raise Broken('VJObject shard %d: %s' % (shard, err[-3000:]))
    hs = [json.loads(json.loads(l)[3:]) for l in out.splitlines() if l.startswith('"@H ')]
    m = FINAL.search(out)
    for i, h in enumerate(hs):
        h['h'] = i * SHARDS + shard
    return hs, int(m.group(1)), int(m.group(2))


def drive(work, drv, shard, hs, envfile, seed, batch=1):
    """replays; -> trace file, deaths: [(histories, message)], race reports.
    A history (or batch) that kills the driver is recorded as a death."""
    fin, fout = os.path.join(work, 'h%d' % shard), os.path.join(work, 'e%d' % shard)
    deaths, races = [], []
    rest = hs
    open(fout, 'w').close()
    while rest:
        with open(fin, 'w') as f:
            for h in rest:
                f.write(json.dumps(h) + '\n')
        before = sum(1 for _ in open(fout))
        try:
            p = subprocess.run([drv, envfile, os.path.join(SPEC, 'literals.json'), fin, fout, str(seed), str(batch)], capture_output=True, text=True, errors='replace', timeout=1500,
                               env=dict(os.environ, TZ='UTC', GOTRACEBACK='single', GORACE='halt_on_error=0 exitcode=66'))
        except subprocess.TimeoutExpired:
            raise Broken('the driver does not finish')
        races += re.findall(r'(?s)WARNING: DATA RACE.*?\n=====', p.stderr)
        if p.returncode == 0:
            break
        if p.returncode == 3 or p.returncode in (-9, -15):
            raise Broken('driver exit %d: %s' % (p.returncode, p.stderr[-2000:]))
        done = sum(1 for _ in open(fout)) - before
        if done >= len(rest):
            if p.returncode == 66:
                break
            raise Broken('driver exit %d: %s' % (p.returncode, p.stderr[-2000:]))
        deaths.append((rest[done:done + batch], p.stderr[:1500]))
        rest = rest[done + batch:]
        if len(deaths) > 5:
            break
    return fout, deaths, races


def validate(work, shard, trace, envfile, lex, prop, known):
    if os.path.getsize(trace) == 0:
        return [], 0
    env = dict(VJ_ENV=envfile, VJ_LEX=lex, VJ_TRACE=trace, VJ_PROP=prop, VJ_KNOWN=known)
    rc, out = tlc('VJTrace.tla', 'VJTrace.cfg', os.path.join(work, 'md-t%d' % shard), env, 1500, heap='3g')
    if 'Model checking completed. No error has been found.' not in out:
        err = '\n'.join(l for l in out.splitlines() if not l.startswith('"@'))
        raise Broken('VJTrace shard %d: %s' % (shard, err[-3000:]))
    fs = [json.loads(json.loads(l)[3:]) for l in out.splitlines() if l.startswith('"@F ') or l.startswith('"@K ')]
    m = FINAL.search(out)
    events = sum(len(json.loads(l)['s']) + 1 for l in open(trace))
    if int(m.group(2)) != events:
        raise Broken('VJTrace shard %d consumed %s of %d events' % (shard, m.group(2), events))
    return fs, events
