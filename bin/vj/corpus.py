"""Builds the corpus: Go sources from the catalogue, generated code, driver."""
import concurrent.futures as cf
import json, os, re, shutil, subprocess
from .common import *
from .emit import Emitter, q

CHUNK = 55


def gomod(dst, module):
    src = os.path.join(REPO, 'test/tests/fill')
    s = open(os.path.join(src, 'go.mod')).read()
    s = re.sub(r'(?m)^module .*$', 'module ' + module, s)
    write(os.path.join(dst, 'go.mod'), s)
    shutil.copy(os.path.join(src, 'go.sum'), os.path.join(dst, 'go.sum'))


def build_generator(work):
    d = os.path.join(work, 'gen')
    os.makedirs(d)
    shutil.copy(os.path.join(DRIVER, 'gencmd/main.go'), d)
    req = re.search(r'(?s)require \((.*?)\)', open(os.path.join(REPO, 'go.mod')).read()).group(1)
    write(os.path.join(d, 'go.mod'), 'module gencmd\n\ngo 1.18\n\nrequire github.com/iv-menshenin/valyjson v0.0.0\n\nrequire (%s)\n\nreplace github.com/iv-menshenin/valyjson => %s\n' % (req, REPO))
    shutil.copy(os.path.join(REPO, 'go.sum'), d)
    p = go(['build', '-o', 'gencmd', '.'], d)
    if p.returncode:
        raise Broken('the generator does not build:\n' + p.stderr[-3000:])
    return os.path.join(d, 'gencmd')


def build_lex(work, corp):
    p = go(['build', '-o', os.path.join(work, 'lexcmd'), './lexcmd'], corp)
    if p.returncode:
        raise Broken('lexcmd does not build:\n' + p.stderr[-3000:])
    out = os.path.join(work, 'lex.json')
    subprocess.run([os.path.join(work, 'lexcmd'), os.path.join(SPEC, 'literals.json'), out], check=True)
    return out


class Corpus:
    """types: name -> declaration; roots: names whose methods are driven."""

    def __init__(self, work, types, roots, tokens):
        self.work, self.types, self.roots, self.tokens = work, types, list(roots), tokens
        self.dir = os.path.join(work, 'corp')
        self.em = Emitter(types, tokens)
        self.failures = []     # (stage, type names, message)
        self.order = {n: i for i, n in enumerate(types)}
        self.home = {}         # root -> package

    def skeleton(self):
        os.makedirs(self.dir)
        gomod(self.dir, 'corp')
        for d in ('facts', 'lexcmd', 'engine'):
            shutil.copytree(os.path.join(DRIVER, d), os.path.join(self.dir, d))

    def plan(self):
        """roots -> packages; every package holds the closure of its roots"""
        groups = []
        byfam = {}
        for n in self.roots:
            byfam.setdefault(self.types[n].get('fam', '') + json.dumps([self.types[n].get(k) for k in ('imp', 'std', 'dev')]), []).append(n)
        for fam, names in sorted(byfam.items()):
            for i in range(0, len(names), CHUNK):
                groups.append(names[i:i + CHUNK])
        self.groups = {'p%02d' % i: g for i, g in enumerate(groups)}

    def local(self, names):
        near = {m for n in names for m in self.types[n].get('near') or []}
        return sorted((n for n in self.em.closure(set(names) | near) if not self.em.pkg(n)), key=self.order.get)

    def foreign(self):
        """the other packages of the module, complete, if any root needs one"""
        out = {}
        if any(self.em.pkg(n) for n in self.em.closure(self.roots)):
            for n in self.types:
                if self.em.pkg(n):
                    out.setdefault(self.em.pkg(n), []).append(n)
        return out

    def second(self, p):
        """declarations of a foreign package that stand in its second file"""
        names = self.foreign()[p]
        used = set().union(*(self.em.refs(self.types[n]['t'], set()) for n in names if self.types[n]['tag']))
        return {n for i, n in enumerate(names) if n not in used and not self.em.refs(self.types[n]['t'], set()) and i % 2}

    def copy(self, p, stage):
        os.makedirs(os.path.join(stage, p), exist_ok=True)
        for f in os.listdir(os.path.join(self.dir, p)):
            if f.endswith('.go'):
                shutil.copy(os.path.join(self.dir, p, f), os.path.join(stage, p, f))

    def write_pkg(self, pkg):
        """the sources of one package, in a module of their own with the foreign packages"""
        stage = os.path.join(self.work, 'stage', pkg)
        if not os.path.exists(stage):
            os.makedirs(stage)
            gomod(stage, 'corp')
            for p in self.foreign() if any(self.em.pkg(n) for n in self.em.closure(self.groups[pkg])) else ():
                self.copy(p, stage)
                for l in json.load(open(os.path.join(self.work, 'catalog.json.litter'))):
                    write(os.path.join(stage, l['p']), l['x'])
        d = os.path.join(stage, pkg)
        shutil.rmtree(d, ignore_errors=True)
        names = self.local(self.groups[pkg])
        if int(pkg[1:]) % 3 == 1:     # declarations come in any order
            names.reverse()
        write(os.path.join(d, 'types.go'), self.em.source(pkg, names))
        return os.path.join(d, 'types.go')

    def run_generator(self, f, gen):
        try:
            p = subprocess.run([gen], input=f + '\n', capture_output=True, text=True, timeout=300, cwd=os.path.dirname(f), env=dict(os.environ, TZ='UTC'))
        except subprocess.TimeoutExpired:
            return 'the generator does not finish'
        for l in p.stdout.splitlines():
            if l.startswith('@E\t'):
                return l.split('\t', 2)[2]
        if p.returncode:
            return 'exit %d: %s' % (p.returncode, p.stderr[-400:])
        if not os.path.exists(f + '.out.go'):
            return 'no output'
        return None

    def generate(self, pkg, gen):
        """generates one package, leaving out types the generator refuses"""
        f = self.write_pkg(pkg)
        err = self.run_generator(f, gen)
        if err:
            self.bisect(pkg, list(self.groups[pkg]), gen, err)
            if self.groups[pkg]:
                f = self.write_pkg(pkg)
                err = self.run_generator(f, gen)
                if err:
                    self.failures.append(('generate', list(self.groups[pkg]), err))
                    self.groups[pkg] = []
        dst = os.path.join(self.dir, pkg)
        shutil.rmtree(dst, ignore_errors=True)
        if self.groups[pkg]:
            shutil.copytree(os.path.dirname(f), dst)

    def bisect(self, pkg, names, gen, err):
        if len(names) == 1:
            self.failures.append(('generate', names, err))
            self.groups[pkg] = [n for n in self.groups[pkg] if n not in names]
            return
        for half in (names[:len(names) // 2], names[len(names) // 2:]):
            keep, self.groups[pkg] = self.groups[pkg], half
            e = self.run_generator(self.write_pkg(pkg), gen)
            self.groups[pkg] = keep
            if e:
                self.bisect(pkg, half, gen, e)

    def compile_errors(self, pkg, race):
        """-> set of type names that the compiler complains about, messages"""
        p = go(['build', '-gcflags=-e', './' + pkg], self.dir)
        if p.returncode == 0:
            return set(), ''
        bad = set()
        src = {}
        for m in re.finditer(r'(?m)^([^\s:]+\.go):(\d+):(?:\d+:)? (.*)$', p.stderr):
            fn, line = os.path.join(self.dir, m.group(1)), int(m.group(2))
            if fn not in src:
                try:
                    src[fn] = open(fn).read().split('\n')
                except OSError:
                    continue
            for l in range(min(line, len(src[fn])) - 1, -1, -1):
                r = re.match(r'func \(\w* ?\*?(\w+)\) |type (\w+) |var jsonParser(\w+) ', src[fn][l])
                if r:
                    bad.add(r.group(1) or r.group(2) or r.group(3))
                    break
        return bad, p.stderr

    def sources(self, gen):
        """all packages, generated"""
        for p, names in self.foreign().items():
            for k, f in enumerate(('types.go', 'more.go')):       # in two files
                write(os.path.join(self.dir, p, f), self.em.source(self.types[names[0]]['pn'], [n for n in names if (n in self.second(p)) == k], p))
        for p in self.foreign():
            err = self.run_generator(os.path.join(self.dir, p, 'types.go'), gen) or self.run_generator(os.path.join(self.dir, p, 'more.go'), gen)
            if err:
                self.failures.append(('generate', self.foreign()[p], err))
        with cf.ThreadPoolExecutor(8) as ex:
            list(ex.map(lambda p: self.generate(p, gen), list(self.groups)))
        log('generated')

    def build(self, gen, race=False):
        self.sources(gen)
        for attempt in range(12):
            self.write_main()
            args = ['build', '-o', os.path.join(self.work, 'drv')] + (['-race'] if race else []) + ['./drv']
            p = go(args, self.dir)
            if p.returncode == 0:
                return os.path.join(self.work, 'drv')
            progress = False
            for pkg in [k for k, v in self.groups.items() if v]:
                bad, msg = self.compile_errors(pkg, race)
                if not msg:
                    continue
                drop = [n for n in self.groups[pkg] if self.em.closure([n]) & bad]
                if not drop:
                    # not attributable: give up on the package
                    drop = list(self.groups[pkg])
                self.failures.append(('compile', drop, msg[:1500]))
                self.groups[pkg] = [n for n in self.groups[pkg] if n not in drop]
                progress = True
                if self.groups[pkg]:
                    self.generate(pkg, gen)
                else:
                    shutil.rmtree(os.path.join(self.dir, pkg), ignore_errors=True)
            if not progress:
                raise Broken('the driver does not build:\n' + p.stderr[-3000:])
        raise Broken('the corpus does not build')

    def write_main(self):
        d = os.path.join(self.dir, 'drv')
        shutil.rmtree(d, ignore_errors=True)
        live = {k: v for k, v in self.groups.items() if v}
        self.home = {n: k for k, v in live.items() for n in v}
        s = 'package main\n\nimport (\n\t"corp/engine"\n' + ''.join('\t"corp/%s"\n' % k for k in live) + ')\n\n'
        s += 'func main() { engine.Main(roots) }\n\nvar roots = map[string]engine.Root{\n'
        for k, v in live.items():
            for n in v:
                g = self.em.goname(n)
                s += '\t%s: {New: func() any { return new(%s.%s) }, Nil: (*%s.%s)(nil)},\n' % (q(n), k, g, k, g)
        write(os.path.join(d, 'main.go'), s + '}\n')

    def live(self):
        return set(self.home)
