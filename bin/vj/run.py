"""What each property's check runs, and how its outcome is reported."""
import concurrent.futures as cf
import json, os, time
from .common import *
from .corpus import Corpus, build_generator, build_lex
from . import objects

ANY = None
ALLF = {f: ANY for f in 'form fail panic says back value refuse accept path cause touch other own kept pure zero reset bytes prefix'.split()}


def facets(s):
    """'accept:range,kind value' -> {'accept': {'range','kind'}, 'value': ANY}"""
    out = {}
    for w in s.split():
        f, _, c = w.partition(':')
        out[f] = set(c.split(',')) if c else ANY
    return out


# which facets of a step contradict which property
FACETS = {
    'C01': facets('form panic'),
    'C02': facets('says form fail panic'),
    'C03': facets('back fail form panic'),
    'C04': facets('value refuse panic'),
    'C05': facets('accept:unknown path:unknown touch:unknown refuse value panic'),
    'C06': facets('accept:dup path:dup touch:dup refuse value panic'),
    'C07': facets('accept:required path:required refuse value panic'),
    'C08': facets('accept:kind,len,b64,time,uuid panic value'),
    'C09': facets('accept:range,kind value refuse panic'),
    'C10': facets('path cause'),
    'C11': facets('accept refuse value panic'),
    'C12': facets('touch other own kept pure value refuse says form fail bytes panic accept:syntax'),
    'C13': facets('reset value refuse accept says form fail zero other own kept panic'),
    'C14': facets('zero pure panic'),
    'C15': facets('value refuse kept other panic'),
    'C16': facets('other own kept value says form pure panic'),
    'C17': ALLF,
    'C18': facets('pure bytes prefix fail form says value refuse accept panic other own'),
    'C21': ALLF, 'C22': ALLF, 'C23': ALLF, 'C24': ALLF, 'C25': ALLF,
}
# generation or compilation trouble with these families contradicts the property
FAMS = {
    'C07': ('default', 'required'), 'C21': ('foreign', 'names', 'alike'), 'C22': ('inline', 'foreign'), 'C23': ('time',),
    'C24': ('bytes',), 'C25': ('transit', 'derived'),
}


def has(t, pred, types, seen=()):
    """does the type (through names) contain one that satisfies pred?"""
    if pred(t):
        return True
    if t['k'] == 'ref':
        return t['n'] not in seen and has(types[t['n']]['t'], pred, types, seen + (t['n'],))
    if t['k'] == 'struct':
        return any(pred(dict(k='field', f=f)) or has(f['t'], pred, types, seen) for f in t['f'])
    return 'e' in t and has(t['e'], pred, types, seen)


BOTH = [dict(p='ext1/foo', a='a1'), dict(p='ext2/foo', a='a2')]


def roots_of(prop, types):
    """the tagged types a property is checked on"""
    out = []
    for n, d in types.items():
        if not d['tag'] or d.get('pkg'):
            continue
        t = d['t']
        kinds = lambda ks: has(t, lambda x: x['k'] in ks, types)
        refs = lambda: has(t, lambda x: x['k'] == 'ref' and types[x['n']]['t']['k'] not in ('struct', 'slice', 'map', 'array', 'bytes', 'bytesN'), types)
        if d['fam'] in ('names', 'alike') and prop not in ('C19', 'C21'):
            continue
        if d['fam'] == 'foreign' and prop not in ('C21', 'C22') and d['imp'] != BOTH:
            continue                    # one set of imports stands for all of them
        if d['fam'] == 'reqall' and prop not in ('C07', 'C11', 'C19'):
            continue
        if prop == 'C21':
            ok = d['fam'] in ('foreign', 'names', 'alike')
        elif prop == 'C22':
            ok = has(t, lambda x: x['k'] == 'field' and x['f']['em'] == 'y', types)
        elif prop == 'C23':
            ok = kinds(('time',))
        elif prop == 'C24':
            ok = kinds(('bytes', 'bytesN', 'array'))
        elif prop == 'C25':
            ok = t['k'] == 'ref' or t['k'] not in ('struct', 'slice', 'map', 'array', 'bytes', 'bytesN') or refs()
        else:
            ok = True
        if ok:
            out.append(n)
    return out


def findings():
    return json.load(open(os.path.join(VERIF, 'known_findings.json')))


class Report:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.violations, self.known = [], {}
        self.states = self.transitions = self.traces = self.events = 0
        self.samples, self.extra, self.assumptions = [], {}, []
        self.dir = os.path.join(VERIF, 'evidence', 'replay')

    def violation(self, what, **data):
        self.violations.append(dict(what=what, **data))

    def finding(self, dev, what):
        self.known.setdefault(dev, []).append(what)

    def finish(self):
        os.makedirs(self.dir, exist_ok=True)
        for f in os.listdir(self.dir):
            if f.startswith(self.prop + '-'):
                os.unlink(os.path.join(self.dir, f))
        texts = {f['id']: f for f in findings()['findings']}
        for dev in sorted(self.known):
            print('KNOWN-FINDING: property=%s %s: %s (%d times here, e.g. %s)' % (self.prop, dev, texts[dev]['what'], len(self.known[dev]), self.known[dev][0]))
        for i, v in enumerate(self.violations[:20]):
            path = os.path.join(self.dir, '%s-%d.json' % (self.prop, i + 1))
            with open(path, 'w') as f:
                json.dump(v, f, indent=1, ensure_ascii=False)
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
            print('  ' + v['what'][:600].replace('\n', '\n  '))
        if len(self.violations) > 20:
            print('  ... and %d more' % (len(self.violations) - 20))
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level='model_checking', wall_s=round(time.time() - T0, 1),
                  violations=len(self.violations), assumptions=self.assumptions,
                  coverage=dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                                events_validated=self.events, samples=self.samples[:6],
                                known_findings={k: len(v) for k, v in self.known.items()}, **self.extra))
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
        log(self.prop, self.tier, 'traces', self.traces, 'events', self.events, 'violations', len(self.violations))
        return 1 if self.violations else 0


def build(work, prop, rep, race=False):
    lit = json.load(open(os.path.join(SPEC, 'literals.json')))
    cat = objects.catalog(work, rep.tier, rep.seed)
    types = {d['n']: {k: d[k] for k in d if k != 'n'} for d in cat}
    roots = roots_of(prop, types)
    c = Corpus(work, types, roots, lit['tokens'])
    c.skeleton()
    c.plan()
    build_lex(work, c.dir)
    gen = build_generator(work)
    c.build(gen, race)
    live = [r for r in roots if r in c.live()]
    devs = [f['id'] for f in findings()['findings'] if f.get('kind') == 'construct' and prop in f['properties']]
    for stage, names, msg in c.failures:
        log('not usable (%s): %s: %s' % (stage, ' '.join(names), msg[:300]))
        mine = [n for n in names if types[n]['fam'] in FAMS.get(prop, ()) and types[n].get('dev') not in devs]
        for n in names:
            if types[n].get('dev') in devs:
                rep.finding(types[n]['dev'], '%s: %s' % (n, msg[:100].replace('\n', ' ')))
        if mine:
            rep.violation('%s: %s for %s' % (stage, msg[:1500], ' '.join(mine)), stage=stage, types=mine, source=c.em.source('p', sorted(c.em.closure(mine), key=c.order.get)))
    if not live:
        if rep.violations:
            return c, None
        raise Broken('no type of the corpus is usable: %s' % (c.failures[0][2] if c.failures else ''))
    envfile = os.path.join(work, 'env.json')
    dump(envfile, dict(types=types, roots=live))
    return c, envfile


def brief(e):
    return {k: e[k] for k in ('op', 'o', 'ok', 'src', 'txt', 'v', 'bad', 'z') if k in e}


def check(prop, tier, seed, work):
    rep = Report(prop, tier, seed)
    if prop == 'C20':
        from . import procs
        procs.check(rep, work)
    elif prop == 'C19':
        from . import files
        files.check(rep, work)
    elif prop in FACETS:
        object_check(rep, work)
    else:
        raise Broken('no such check: ' + prop)
    return rep.finish()


def object_check(rep, work):
    prop, tier, seed = rep.prop, rep.tier, rep.seed
    conc = prop == 'C17'
    c, envfile = build(work, prop, rep, race=conc)
    if envfile is None:
        return
    log('built', len(c.live()), 'types')
    known = [f['id'] for f in findings()['findings'] if f.get('kind') == 'deviation']
    kf = os.path.join(work, 'known.json')
    dump(kf, known)
    lex = os.path.join(work, 'lex.json')
    drv = os.path.join(work, 'drv')

    def shard(i):
        hs, gen, dist = objects.histories(work, prop, i, envfile, lex, tier, seed)
        if conc:
            import random
            random.Random(seed * 100 + i).shuffle(hs)
        tr, deaths, races = objects.drive(work, drv, i, hs, envfile, seed, 64 if conc else 1)
        fs, ev = objects.validate(work, i, tr, envfile, lex, prop, kf)
        bad = {}
        if fs or i == 0:
            want = {f['n'] for f in fs} | ({1, 2} if i == 0 else set())
            with open(tr) as f:
                for k, l in enumerate(f, 1):
                    if k in want:
                        bad[k] = json.loads(l)
        return hs, gen, dist, deaths, races, fs, ev, bad

    mine = FACETS[prop]
    hit = lambda b: b['f'] in mine and (mine[b['f']] is ANY or b['c'] in mine[b['f']] or b['f'] == 'accept' and b['c'] == '' and 'syntax' in mine['accept'])
    with cf.ThreadPoolExecutor(objects.SHARDS) as ex:
        res = list(ex.map(shard, range(objects.SHARDS)))
    vio = []
    for hs, gen, dist, deaths, races, fs, ev, bad in res:
        rep.states += dist + ev
        rep.transitions += gen + ev
        rep.traces += len(hs)
        rep.events += ev
        byid = {h['h']: h for h in hs}
        for batch, msg in deaths:
            rep.violation('the process dies or hangs: %s\n%s' % (' '.join(sorted({h['t'] for h in batch}))[:300], msg), histories=batch[:64], message=msg)
        for r in races[:5]:
            rep.violation('data race:\n' + r[:3000], report=r)
        for f in fs:
            relevant = [b for b in f['bad'] if hit(b)]
            if not relevant:
                continue
            tr = bad[f['n']]
            e = tr['s'][f['i'] - 1]
            what = '%s: step %d (%s): %s' % (f['t'], f['i'], e['op'], ', '.join('%s %s' % (b['f'], b['c']) for b in relevant))
            if 'dev' in f:
                for d in f['dev']:
                    rep.finding(d, what)
            else:
                vio.append((what, f, tr, byid[f['h']]))
        for k in sorted(bad)[:2]:
            if len(rep.samples) < 3:
                rep.samples.append(dict(type=bad[k]['t'], steps=[brief(e) for e in bad[k]['s']]))
    # one per type and kind of failure first
    seen = {}
    for v in vio:
        seen.setdefault((v[1]['t'], str(v[1]['bad'])), v)
    first = {}
    for v in seen.values():
        first.setdefault(str(v[1]['bad']), v)
    order = list(first.values()) + [v for v in seen.values() if v not in list(first.values())]
    for what, f, tr, h in order:
        rep.violation(what + '\n' + json.dumps([brief(e) for e in tr['s'][:f['i']]], ensure_ascii=False)[:1500],
                      type=f['t'], failed=f['bad'], step=f['i'], history=h, trace=tr['s'][:f['i']],
                      source=c.em.source('p', sorted((n for n in c.em.closure([f['t']])), key=c.order.get)))
    rep.extra.update(types=len(c.live()), not_built=[[s, n, m[:200]] for s, n, m in c.failures], raw_violations=len(vio))
    rep.assumptions += ['types are those of spec/VJCatalog.tla; documents and values those of spec/VJDocs.tla',
                        'numbers and texts are related to what they mean by driver/facts (Go standard library, google/uuid)',
                        'fastjson and easyjson/jwriter are used as they are']
