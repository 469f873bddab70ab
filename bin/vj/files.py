"""C19: files of VJGen -> real generator -> methods and compiler -> VJGenTrace."""
import concurrent.futures as cf
import json, os, re, shutil, subprocess
from .objects import FINAL
from .common import *
from .corpus import Corpus, build_generator, gomod
from . import objects, run

OK = 'Model checking completed. No error has been found.'
SHARDS = 8
MODES = dict(quick=dict(spell=1, kinds=1, pairs=1, lists=1, inl=1, two=1, chain=1, random=500),
             thorough=dict(spell=1, kinds=1, pairs=1, lists=1, inl=1, two=1, chain=1, random=8000))
SIG = dict(UnmarshalJSON='(data []byte) error { return nil }', FillFromJSON='(v *fastjson.Value) (err error) { return nil }', MarshalJSON='() ([]byte, error) { return nil, nil }',
           MarshalTo='(result *jwriter.Writer) error { return nil }', IsZero='() bool { return false }', Reset='() {}')
GIVES = dict(decode=('UnmarshalJSON', 'FillFromJSON'), encode=('MarshalJSON', 'MarshalTo', 'IsZero', 'Reset'))
VALUE = ('MarshalJSON', 'MarshalTo', 'IsZero')


def kinds(work):
    out = os.path.join(work, 'kinds.json')
    rc, txt = tlc('VJKinds.tla', 'empty.cfg', os.path.join(work, 'md-kinds'), dict(VJ_OUT=out), 120)
    if not os.path.exists(out):
        raise Broken('VJKinds: ' + txt[-1500:])
    return json.load(open(out))


def source(file, kind):
    """-> text of the source file"""
    imps, body = set(), []
    for g in file:
        doc = lambda d, ind: ''.join(ind + l + '\n' if l else '\n' for l in d['l'])
        txt = lambda s: s['n'] + ' ' + kind[s['k']]['pre'] + s['e'] + kind[s['k']]['post']
        for s in g['s']:
            imps |= set(kind[s['k']]['imp'])
        if not g['s']:
            body.append(doc(g['d'], '') + g['o'] + '\n')
        elif not g['p']:
            body.append(doc(g['d'], '') + 'type ' + txt(g['s'][0]) + g['t'] + '\n')
        else:
            body.append(doc(g['d'], '') + 'type (\n' + ''.join(doc(s['d'], '\t') + '\t' + txt(s).replace('\n', '\n\t') + s['d']['t'] + '\n' for s in g['s']) + ')\n')
    return 'package p\n\n' + ''.join('import "%s"\n' % i for i in sorted(imps)) + '\n' + '\n'.join(body)


def rest(promise):
    """the methods the user writes"""
    ms = [(n, m) for n in sorted(promise) for k in ('decode', 'encode') if k not in promise[n] for m in GIVES[k]]
    need = {i for i, w in (('github.com/valyala/fastjson', 'fastjson.'), ('github.com/mailru/easyjson/jwriter', 'jwriter.')) if any(w in SIG[m] for _, m in ms)}
    return 'package p\n\n' + ''.join('import "%s"\n' % i for i in sorted(need)) + ''.join('\nfunc (x %s%s) %s%s\n' % ('' if m in VALUE else '*', n, m, SIG[m]) for n, m in ms)


def exports(work, d):
    p = go(['list', '-export', '-deps', '-f', '{{if .Export}}{{.ImportPath}} {{.Export}}{{end}}', 'fmt', 'errors', 'time', 'math', 'strconv', 'strings', 'bytes', 'sync', 'unsafe', 'encoding/base64', 'encoding/json',
            'github.com/valyala/fastjson', 'github.com/mailru/easyjson/jwriter', 'github.com/google/uuid', 'github.com/pkg/errors'], d)
    if p.returncode:
        raise Broken('go list: ' + p.stderr[-1500:])
    out = os.path.join(work, 'exports.json')
    dump(out, dict(l.split(' ', 1) for l in p.stdout.splitlines()))
    return out


def model(work, mode, count, seed, cfg='VJGen.cfg'):
    rc, out = tlc('VJGen.tla', cfg, os.path.join(work, 'md-%s-%s' % (mode, cfg)), dict(VJ_GEN=mode, VJ_SEED=str(seed), VJ_COUNT=str(count)), 800, heap='3g')
    return out


def check(rep, work):
    build_generator(work)
    d = os.path.join(work, 'gen', 'files')
    shutil.copytree(os.path.join(DRIVER, 'files'), d)
    drv = os.path.join(work, 'files')
    p = go(['build', '-o', drv, './files'], os.path.join(work, 'gen'))
    if p.returncode:
        raise Broken('driver/files does not build:\n' + p.stderr[-3000:])
    kind = kinds(work)
    modes = MODES[rep.tier]
    if os.environ.get('VJ_MODES'):
        modes = {m: int(os.environ.get('VJ_COUNT', 500)) for m in os.environ['VJ_MODES'].split(',')}
    with cf.ThreadPoolExecutor(8) as ex:
        outs = dict(zip(modes, ex.map(lambda m: model(work, m, modes[m], rep.seed), modes)))
        one = model(work, 'two', 0, 0, 'VJGenOne.cfg')
    if 'Invariant Kept is violated' not in one:
        raise Broken('the model in which the first list decides does not violate Kept: ' + one[-1500:])
    hs = []
    for m, out in outs.items():
        if OK not in out:
            raise Broken('VJGen %s: %s' % (m, '\n'.join(l for l in out.splitlines() if not l.startswith('"@'))[-2000:]))
        g = FINAL.search(out)
        rep.transitions += int(g.group(1))
        rep.states += int(g.group(2))
        got = [json.loads(json.loads(l)[3:]) for l in out.splitlines() if l.startswith('"@H ')]
        for h in got:
            h['mode'] = m
        hs += got
    for i, h in enumerate(hs):
        h['h'] = i + 1
        h['src'], h['rest'] = source(h['file'], kind), rest(h['p'])
    log('files', len(hs))
    examine(rep, work, drv, hs)
    if os.environ.get('VJ_MODES'):
        return
    cat = objects.catalog(work, rep.tier, rep.seed)
    for more in ('', 'encode', 'decode'):
        catalogue(rep, os.path.join(work, 'cat' + more), cat, more)


RECV = re.compile(r'(?m)^func \(\w* ?\*?(\w+)\) (\w+)\(')


def catalogue(rep, work, cat, more):
    """every package of the catalogue, all its types tagged more, must be generated and compile"""
    os.makedirs(work)
    if os.path.exists(os.path.join(os.path.dirname(work), 'catalog.json.litter')):
        shutil.copy(os.path.join(os.path.dirname(work), 'catalog.json.litter'), work)
    lit = json.load(open(os.path.join(SPEC, 'literals.json')))
    types = {d['n']: {k: d[k] for k in d if k != 'n'} for d in cat}
    if more:
        for d in types.values():
            if d['tag'] and not d.get('pkg'):
                d['tag'] += ',' + more
    c = Corpus(work, types, [n for n in run.roots_of('C19', types) if not more or not types[n].get('dev')], lit['tokens'])
    os.makedirs(c.dir)
    gomod(c.dir, 'corp')
    c.plan()
    c.sources(os.path.join(os.path.dirname(work), 'gen', 'gencmd'))
    devs = [f['id'] for f in run.findings()['findings'] if f.get('kind') == 'construct' and rep.prop in f['properties']]

    def fail(stage, names, msg):
        for n in names:
            if types[n].get('dev') in devs:
                rep.finding(types[n]['dev'], '%s: %s' % (n, msg[:100].replace('\n', ' ')))
        mine = [n for n in names if types[n].get('dev') not in devs]
        if mine:
            rep.violation('%s: %s for %s' % (stage, msg[:1200], ' '.join(mine)[:300]), stage=stage, types=mine, source=c.em.source('p', sorted(c.em.closure(mine), key=c.order.get)))

    for stage, names, msg in c.failures:
        fail(stage, names, msg)
    p = go(['build', './...'], c.dir)
    rows = []
    pkgs = sorted(g for g, v in c.groups.items() if v)
    if p.returncode:
        for g in pkgs:
            bad, msg = c.compile_errors(g, False)
            if msg:
                fail('compile', [n for n in c.groups[g] if c.em.closure([n]) & bad] or list(c.groups[g]), msg)
                rows.append(g)
    good = [g for g in pkgs if g not in rows]
    tf = os.path.join(work, 'trace')
    with open(tf, 'w') as f:
        for i, g in enumerate(good):
            text = open(os.path.join(c.dir, g, 'types.go.out.go')).read()
            m = {}
            for t, meth in RECV.findall(text):
                m.setdefault(t, []).append(meth)
            ss = []
            for n in c.local(c.groups[g]):
                t = types[n]['t']
                el = t['e']['n'] if t['k'] in ('slice', 'array') and t['e']['k'] == 'ref' and not c.em.pkg(t['e']['n']) else ''
                ss.append(dict(n=c.em.goname(n), k='ofE' if el else 'struct', e=c.em.goname(el) if el else '', g=[w for w in types[n]['tag'].split(',') if w]))
            f.write(json.dumps(dict(h=i + 1, ss=ss, gen=True, comp=True, m=[dict(n=n, ms=ms) for n, ms in m.items()])) + '\n')
    rc, out = tlc('VJGenTrace.tla', 'VJGenTrace.cfg', os.path.join(work, 'md'), dict(VJ_TRACE=tf), 900, heap='3g')
    if OK not in out:
        raise Broken('VJGenTrace: ' + '\n'.join(l for l in out.splitlines() if not l.startswith('"@'))[-2000:])
    for b in (json.loads(json.loads(l)[3:]) for l in out.splitlines() if l.startswith('"@F ')):
        rep.violation('package of %s%s: %s' % (' '.join(c.groups[good[b['h'] - 1]])[:200], ' tagged ' + more if more else '', '; '.join('%s %s' % (x['what'], ' '.join(x['on'])[:300]) for x in b['bad'])), failed=b, types=c.groups[good[b['h'] - 1]])
    rep.events += len(good)
    rep.traces += len(good)
    rep.extra['catalogue' + more] = dict(packages=len(pkgs), types=len(types))
    log('catalogue', more, len(pkgs))


def examine(rep, work, drv, hs):
    exp = None
    for k in range(SHARDS):
        d = os.path.join(work, 'files-%d' % k, 'm')
        os.makedirs(d)
        gomod(d, 'corp')
        if exp is None:
            write(os.path.join(d, 'x.go'), 'package corp\n')
            exp = exports(work, d)
            os.unlink(os.path.join(d, 'x.go'))

    def shard(k):
        w = os.path.join(work, 'files-%d' % k)
        mine = hs[k::SHARDS]
        fin, fout = os.path.join(w, 'in'), os.path.join(w, 'out')
        with open(fin, 'w') as f:
            for h in mine:
                f.write(json.dumps(dict(h=h['h'], src=h['src'], stub=h['rest'])) + '\n')
        p = subprocess.run([drv, os.path.join(w, 'm'), exp, fin, fout], env=goenv(), capture_output=True, text=True, timeout=1500)
        if p.returncode:
            raise Broken('driver/files: exit %d: %s' % (p.returncode, p.stderr[-1500:]))
        evs = [json.loads(l) for l in open(fout)]
        tf = os.path.join(w, 'trace')
        with open(tf, 'w') as f:
            for h, e in zip(mine, evs):
                f.write(json.dumps(dict(h=h['h'], file=h['file'], gen=e['gen'] == '', comp=e['comp'] == '', m=[dict(n=n, ms=ms) for n, ms in e['m'].items()])) + '\n')
        rc, out = tlc('VJGenTrace.tla', 'VJGenTrace.cfg', os.path.join(w, 'md'), dict(VJ_TRACE=tf), 900, heap='3g')
        if OK not in out:
            raise Broken('VJGenTrace: ' + '\n'.join(l for l in out.splitlines() if not l.startswith('"@'))[-2000:])
        if int(FINAL.search(out).group(2)) != 2 * len(mine):
            raise Broken('VJGenTrace judged %s states of %d files' % (FINAL.search(out).group(2), len(mine)))
        fs = [json.loads(json.loads(l)[3:]) for l in out.splitlines() if l.startswith('"@F ')]
        return {e['h']: e for e in evs}, fs

    with cf.ThreadPoolExecutor(SHARDS) as ex:
        res = list(ex.map(shard, range(SHARDS)))
    log('judged')
    byid = {h['h']: h for h in hs}
    seen = {}
    raw = 0
    for evs, fs in res:
        rep.events += len(evs)
        rep.states += 2 * len(evs)
        rep.transitions += len(evs)
        for f in fs:
            raw += 1
            seen.setdefault(str([[b['what'], b['on'][:1] and b['on'][0].split(' ')[0]] for b in f['bad']]) + byid[f['h']]['mode'], (byid[f['h']], evs[f['h']], f))
    rep.traces += len(hs)
    for h, e, f in list(seen.values())[:30]:
        if {b['what'] for b in f['bad']} == {'compile'} and not confirm(work, h):
            raise Broken('the type checker and the compiler disagree on\n%s\n%s' % (h['src'], e['comp']))
        rep.violation('%s\n%s\n%s' % ('; '.join('%s %s' % (b['what'], ' '.join(b['on'])) for b in f['bad']), (e['gen'] or e['comp'])[:600], h['src'][:1200]), source=h['src'], rest=h['rest'], generated=e, failed=f)
    rep.samples += [dict(src=h['src'], promise=h['p']) for h in hs[len(hs) // 3::len(hs) // 3][:2]]
    rep.extra.update(files=len(hs), by_mode={m: sum(1 for h in hs if h['mode'] == m) for m in {h['mode'] for h in hs}}, raw_violations=raw)
    rep.assumptions += ['files are those of spec/VJGen.tla and the packages of spec/VJCatalog.tla', 'methods the generator does not promise are written by hand']


def confirm(work, h):
    """does the compiler refuse the package, too?"""
    d = os.path.join(work, 'confirm')
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    gomod(d, 'corp')
    write(os.path.join(d, 'p', 'types.go'), h['src'])
    p = subprocess.run([os.path.join(work, 'gen', 'gencmd')], input=os.path.join(d, 'p', 'types.go') + '\n', capture_output=True, text=True, timeout=300, cwd=os.path.join(d, 'p'), env=dict(os.environ, TZ='UTC'))
    write(os.path.join(d, 'p', 'rest.go'), h['rest'])
    return go(['build', './p'], d).returncode != 0
