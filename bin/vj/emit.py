"""Prints catalogue declarations as Go source."""
import json, zlib

SPELL = dict(json=['json', 'json', 'full,json'], strict=['strict', 'full,strict', 'strict,json'])   # tags that mean the same
HEAD = 'package %s\n\n'


def q(s):
    return json.dumps(s, ensure_ascii=False)


class Imports(set):
    """(alias, path) pairs; alias maps a path to the name it must be imported under"""


class Emitter:
    def __init__(self, types, tokens):
        self.types, self.tokens = types, tokens

    def real(self, s):
        return self.tokens.get(s, s)

    def refs(self, t, out):
        """names a type refers to, directly"""
        if t['k'] == 'ref':
            out.add(t['n'])
        for k in ('e', 'key'):
            if isinstance(t.get(k), dict):
                self.refs(t[k], out)
        for f in t.get('f') or []:
            self.refs(f['t'], out)
        return out

    def closure(self, names):
        seen, todo = set(), list(names)
        while todo:
            n = todo.pop()
            if n in seen:
                continue
            seen.add(n)
            todo += self.refs(self.types[n]['t'], set())
        return seen

    def pkg(self, n):
        return self.types[n].get('pkg') or ''

    def goname(self, n):
        return self.types[n].get('gn') or n

    def typ(self, t, here, imports, top=False):
        k = t['k']
        if k == 'ref':
            p = self.pkg(t['n'])
            if p and p != here:
                alias = imports.alias.get(p, '')
                imports.add((alias, 'corp' if p == '.' else 'corp/' + p))
                return (alias or self.types[t['n']]['pn']) + '.' + self.goname(t['n'])
            return self.goname(t['n'])
        if k == 'time':
            a = imports.alias.get('time', '')
            imports.add((a, 'time'))
            return (a or 'time') + '.Time'
        if k == 'uuid':
            a = imports.alias.get('uuid', '')
            imports.add((a, 'github.com/google/uuid'))
            return (a or 'uuid') + '.UUID'
        if k == 'bytes':
            return '[]byte'
        if k == 'bytesN':
            return '[%d]byte' % t['n']
        if k == 'ptr':
            return '*' + self.typ(t['e'], here, imports)
        if k == 'slice':
            return '[]' + self.typ(t['e'], here, imports)
        if k == 'array':
            return '[%d]%s' % (t['n'], self.typ(t['e'], here, imports))
        if k == 'map':
            return 'map[%s]%s' % (self.typ(t['key'], here, imports), self.typ(t['e'], here, imports))
        if k == 'struct':
            s = 'struct {\n'
            for f in t['f'] or []:
                s += (f['g'] + ', ' if s[-2:] == ', ' else '\t' + f['g'] + ', ') if f.get('jn') else ('' if s[-2:] == ', ' else '\t') + self.field(f, here, imports) + '\n'
            return s + '}'
        return k

    def field(self, f, here, imports):
        t = self.typ(f['t'], here, imports)
        tags = []
        if f['n'] or f['o']:
            tags.append('json:' + q(self.real(f.get('tn', f['n'])) + (',' + f['o'] if f['o'] else '')))
        if f['d']:
            tags.append('default:' + q(self.real(f['d'])))
        if f['l']:
            tags.append('layout:' + q(f['l']))
        tag = ' `' + ' '.join(tags) + '`' if tags else ''
        if tags and f.get('tq'):
            tag = ' ' + q(' '.join(tags))
        return (t if f['em'] == 'y' else f['g'] + ' ' + t) + tag

    def source(self, package, names, here=''):
        imports, body = Imports(), ''
        imports.alias = {}
        for n in names:
            for im in self.types[n].get('imp') or []:
                imports.alias[im['p']] = im['a']
            imports.alias.update(self.types[n].get('std') or {})
        group = False
        for n in names:
            d, doc = self.types[n], ''
            if d['tag']:
                doc = '//json:%s\n' % (SPELL[d['tag']][zlib.crc32(n.encode()) % 3] if d['tag'] in SPELL else d['tag'])
            decl = '%s %s\n\n' % (self.goname(n), self.typ(d['t'], here, imports, True))
            grouped = zlib.crc32(b'group' + n.encode()) % 3 == 0      # declared together with its neighbours
            if grouped != group:
                body += 'type (\n' if grouped else ')\n\n'
                group = grouped
            body += doc + decl if grouped else doc + 'type ' + decl
        body += ')\n' if group else ''
        s = HEAD % package
        if imports:
            s += 'import (\n' + ''.join('\t%s"%s"\n' % (a + ' ' if a else '', p) for a, p in sorted(imports, key=lambda x: x[1])) + ')\n\n'
        return s + body
