"""C20: histories of VJProc -> real generator runs -> VJProcTrace."""
import concurrent.futures as cf
import json, os, shutil, subprocess
from .objects import FINAL
from .common import *
from .corpus import Corpus, build_generator
from . import objects, run

OK = 'Model checking completed. No error has been found.'


def replayer(work):
    """builds driver/procs in the module of the generator command"""
    build_generator(work)
    d = os.path.join(work, 'gen', 'procs')
    shutil.copytree(os.path.join(DRIVER, 'procs'), d)
    p = go(['build', '-o', os.path.join(work, 'procs'), './procs'], os.path.join(work, 'gen'))
    if p.returncode:
        raise Broken('driver/procs does not build:\n' + p.stderr[-3000:])
    return os.path.join(work, 'procs')


def histories(work, mode, seed, files, cfg='VJProc.cfg', extra=()):
    env = dict(VJ_FILES=files, VJ_PROC=mode)
    rc, out = tlc('VJProc.tla', cfg, os.path.join(work, 'md-%s-%s' % (mode, cfg)), env, 800, heap='4g', workers=4 if mode != 'random' else 1, extra=extra)
    return out


def parse(out):
    return [json.loads(json.loads(l)[3:]) for l in out.splitlines() if l.startswith('"@H ')]


def catalogue(work):
    """the packages of the catalogue as a table of files"""
    lit = json.load(open(os.path.join(SPEC, 'literals.json')))
    cat = objects.catalog(work)
    types = {d['n']: {k: d[k] for k in d if k != 'n'} for d in cat}
    c = Corpus(work, types, [n for n, d in types.items() if d['tag'] and not d.get('pkg') and (d['fam'] != 'foreign' or d['imp'] == run.BOTH)], lit['tokens'])
    c.plan()
    rec = lambda i, path, text, g: dict(id=i, mod=1, path=path, v1=text, v2=text, deps=[], g=g, bad=False, out=path[:-3] + '_json.go' if g else '', dir=os.path.dirname(path) or '.')
    out = []
    for p, names in c.foreign().items():
        for k, f in enumerate(('types.go', 'more.go')):
            out.append(rec('f%d' % len(out), os.path.normpath(os.path.join(p, f)), c.em.source(types[names[0]]['pn'], [n for n in names if (n in c.second(p)) == k], p), False))
    for g, names in c.groups.items():
        out.append(rec(g, g + '/types.go', c.em.source(g, c.local(names)), True))
    return out


def check(rep, work):
    drv = replayer(work)
    log('built')
    own = json.load(open(os.path.join(SPEC, 'procs.json')))
    examine(rep, work, drv, own, 'procs', rep.tier, 'example.com/m')
    sub = os.path.join(work, 'catalogue')
    os.makedirs(sub)
    examine(rep, sub, drv, catalogue(sub), 'catalogue', 'catalogue', 'corp')


def examine(rep, work, drv, rows, name, mode, modname):
    """replays and judges the histories of one table of files"""
    table = {f['id']: f for f in rows}
    files = os.path.join(work, name + '.json')
    dump(files, rows)
    first = name == 'procs'

    def model(mode):
        if mode == 'leak':
            return histories(work, 'quick', 0, files, 'VJProcLeak.cfg')
        if mode == 'random':
            k = 400 if rep.tier == 'quick' else 6000
            return histories(work, mode, 0, files, 'VJProcSim.cfg', ('-simulate', 'num=%d' % k, '-depth', '14', '-seed', str(rep.seed)))
        return histories(work, mode, 0, files)

    modes = ('ref', mode, 'random', 'leak') if first else ('ref', mode)
    with cf.ThreadPoolExecutor(4) as ex:
        outs = dict(zip(modes, ex.map(model, modes)))
    for m in ('ref', mode):
        if OK not in outs[m]:
            raise Broken('VJProc %s: %s' % (m, outs[m][-2000:]))
        g = FINAL.search(outs[m])
        rep.transitions += int(g.group(1))
        rep.states += int(g.group(2))
    if first and 'Invariant Deterministic is violated' not in outs['leak']:
        raise Broken('the model with a memory does not violate Deterministic: ' + outs['leak'][-1500:])
    refs, hs = parse(outs['ref']), parse(outs[mode])
    sims = parse(outs['random']) if first else []
    if first and len(sims) < 100:
        raise Broken('VJProc random: ' + outs['random'][-1500:])
    hs += sims
    log('histories', len(refs), len(hs))

    env = dict(os.environ, TZ='UTC', VJ_STATIC='', VJ_MODULE=modname)
    refdir, tmp = os.path.join(work, 'refs'), os.path.join(work, 'runs')
    os.makedirs(refdir)
    os.makedirs(tmp)
    p = subprocess.run([drv, 'refs', files, refdir, tmp], env=env, capture_output=True, text=True, timeout=300)
    if p.returncode:
        raise Broken('procs refs: ' + p.stderr[-1500:])

    def play(hs, name):
        for i, h in enumerate(hs):
            h['h'] = i + 1
        fin, fout = os.path.join(work, name + '.h'), os.path.join(work, name + '.t')
        with open(fin, 'w') as f:
            for h in hs:
                f.write(json.dumps(h) + '\n')
        p = subprocess.run([drv, 'run', files, refdir, fin, fout, tmp], env=env, capture_output=True, text=True, timeout=1500)
        if p.returncode:
            raise Broken('procs %s: exit %d %s' % (name, p.returncode, p.stderr[-1500:]))
        return fout, [json.loads(l) for l in open(fout)]

    _, rt = play(refs, 'ref')
    table_of = []
    for t in rt:
        vs = {f: 1 for f in table}
        vs.update({e['f']: e['v'] for e in t['s'] if e['op'] == 'edit'})
        g = t['s'][-1]
        f = table[g['f']]
        w = {c['p']: c['c'] for c in g['ch']}
        own = 'm%d/%s' % (f['mod'], f['out'])
        for q in w:
            if q != own and os.path.dirname(q) == os.path.dirname(own):
                env['VJ_STATIC'] = os.path.basename(q)
        if not f['bad']:
            src = [q for q in w if q in {'m%d/%s' % (x['mod'], x['path']) for x in table.values()}]
            if not first and not g['ok']:
                f['bad'] = True              # refused: C19 has it
            elif not g['ok'] or own not in w:
                rep.violation('a run on %s from the root of the module fails: %s' % (f['path'], g['err'] or 'no output'), history=t)
                return
            if src:
                rep.violation('a run on %s changes the source %s' % (f['path'], ' '.join(src)), history=t)
        table_of.append(dict(f=f['id'], v=[vs[x] for x in [f['id']] + f['deps']], w=w))
    rfile = os.path.join(work, 'refs.json')
    with open(rfile, 'w') as f:
        for r in table_of:
            f.write(json.dumps(r) + '\n')
    dump(files, rows)
    fout, ts = play(hs, 'runs')
    log('replayed')
    parts = 8

    def judge(k):
        mine = [t for i, t in enumerate(ts) if i % parts == k]
        tf = os.path.join(work, 'part%d' % k)
        with open(tf, 'w') as f:
            for t in mine:
                f.write(json.dumps(t) + '\n')
        rc, out = tlc('VJProcTrace.tla', 'VJProcTrace.cfg', os.path.join(work, 'md-pt%d' % k), dict(VJ_FILES=files, VJ_TRACE=tf, VJ_REFS=rfile), 800, heap='3g')
        if OK not in out:
            raise Broken('VJProcTrace: ' + '\n'.join(l for l in out.splitlines() if not l.startswith('"@'))[-2000:])
        events = sum(len(t['s']) + 1 for t in mine)
        if int(FINAL.search(out).group(2)) != events:
            raise Broken('VJProcTrace consumed %s of %d events' % (FINAL.search(out).group(2), events))
        return events, [(mine[f['n'] - 1], f) for f in (json.loads(json.loads(l)[3:]) for l in out.splitlines() if l.startswith('"@F '))]

    with cf.ThreadPoolExecutor(parts) as ex:
        res = list(ex.map(judge, range(parts)))
    seen = set()
    raw = 0
    for ev, fs in res:
        rep.events += ev
        rep.states += ev
        rep.transitions += ev
        for t, f in fs:
            raw += 1
            key = (f['f'], str([b['what'] for b in f['bad']]))
            if key in seen:
                continue
            seen.add(key)
            rep.violation('run on %s (step %d): %s\n%s' % (table[f['f']]['path'], f['i'], '; '.join('%s %s' % (b['what'], ' '.join(b['on'])[:300]) for b in f['bad']),
                                                         json.dumps([{k: e[k] for k in ('op', 'f', 'cwd', 'style', 'how', 'v', 'err') if e.get(k)} for e in t['s'][:f['i']]])[:1500]), history=t, failed=f)
    rep.traces += len(ts) + len(rt)
    rep.samples += [t['s'] for t in ts[len(ts) // 2:len(ts) // 2 + 1] + ts[-1:]]
    rep.extra[name] = dict(files=len(rows), references=len(table_of), histories=len(ts), random_histories=len(sims), raw_violations=raw)
    if first:
        rep.assumptions += ['sources are those of spec/procs.json (two modules of one name, packages with clashing names, aliases, inlined types, refused files)',
                        'a run on a file the generator refuses may leave any output of its own']
