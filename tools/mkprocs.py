#!/usr/bin/env python3
"""Writes spec/procs.json: the modules on which the histories of VJProc run.
Every source has two versions. g = the generator may be run on it."""
import json
F = []
def f(id, path, v1, v2=None, deps=(), g=True, mod=1, bad=False):
    F.append(dict(id=id, mod=mod, path=path, v1=v1, v2=v2 or v1 + '\n// edited\n', deps=list(deps), g=g, bad=bad,
                  out=path[:-3] + '_json.go' if g else '', dir=path.rpartition('/')[0] or '.'))

DEP = 'package dep\n\nimport "time"\n\n//json:strict\ntype St struct {\n\tA int8 `json:"a"`\n\tT time.Time `json:"t,omitempty"`\n}\n\n//json:tag\ntype Num int16\n\ntype Kind %s\n\ntype Inl struct {\n\tX int `json:"x"`\n\tY *Kind `json:"y,omitempty"`\n\tZ []St `json:"z"`%s\n}\n\n//json:tag\ntype List []St\n'
f('dep', 'go-dep/dep.go', DEP % ('int32', ''), DEP % ('string', '\n\tW bool `json:"w"`'))
f('dep2', 'go-dep/more.go', 'package dep\n\n//json:tag\ntype Q int8\n\n//json:tag\ntype More struct {\n\tN Q `json:"n"`\n\tM map[string]int `json:"m"`\n}\n')
f('odep', 'other/dep/dep.go', DEP.replace('int8', 'string') % ('float32', ''), DEP % ('uint8', ''))
USE = 'package use\n\nimport (\n\t"time"\n\t%s"example.com/m/%s"\n)\n\n//json:tag\ntype %s struct {\n\tdep.Inl `json:",inline"`\n\tS *dep.St `json:"s"`\n\tK dep.Kind `json:"k"`\n\tL []dep.Num `json:"l"`\n\tM map[string]dep.St `json:"m"`\n\tT time.Time `json:"tt"`\n}\n\n//json:tag\ntype %s dep.Num\n'
f('use1', 'use/one.go', USE % ('', 'go-dep', 'U1', 'N1'), USE.replace('json:"k"', 'json:"k,omitempty"') % ('', 'go-dep', 'U1', 'N1'), ['dep', 'dep2'])
f('use2', 'use/two.go', USE % ('', 'other/dep', 'U2', 'N2'), None, ['odep'])
f('use3', 'use3/u.go', USE.replace('package use', 'package use3').replace('dep.', 'errors.') % ('errors ', 'go-dep', 'U1', 'N1'), None, ['dep', 'dep2'])
f('use4', 'use4/u.go', 'package use4\n\nimport (\n\ta "example.com/m/go-dep"\n\tb "example.com/m/other/dep"\n)\n\n//json:tag\ntype Both struct {\n\tA a.St `json:"a"`\n\tB *b.St `json:"b"`\n\tC a.Kind `json:"c"`\n\tD b.Kind `json:"d"`\n\tE []b.Num `json:"e"`\n\tF map[string]a.Num `json:"f"`\n}\n', None, ['dep', 'dep2', 'odep'])
ERR = 'package errors\n\n//json:tag\ntype E struct {\n\tCode int `json:"code,required"`\n}\n\ntype Kind %s\n'
f('errs', 'x/errors/e.go', ERR % 'int8', ERR % 'bool')
f('tim', 'x/time/t.go', 'package time\n\n//json:tag\ntype T struct {\n\tN uint `json:"n"`\n}\n\ntype Time string\n', 'package time\n\n//json:tag\ntype T struct {\n\tN uint8 `json:"n"`\n}\n\ntype Time int\n')
f('uerr', 'uerr/u.go', 'package uerr\n\nimport "example.com/m/x/errors"\n\n//json:tag\ntype U struct {\n\tE errors.E `json:"e"`\n\tP *errors.E `json:"p"`\n\tK errors.Kind `json:"k"`\n}\n', None, ['errs'])
f('utim', 'uerr/v.go', 'package uerr\n\nimport "example.com/m/x/time"\n\n//json:tag\ntype V struct {\n\tE time.T `json:"e"`\n\tP *time.T `json:"p"`\n}\n', None, ['tim'])
f('plain', 'plain/a.go', 'package plain\nimport   "fmt"\n\n\n// comment\n//json:strict\n\ntype   A  struct{ B int8 `json:"b,omitempty"`; C  string `json:"c"  default:"x,y"`\n   D *A  `json:"d"` ; E [3]byte   `json:"e"`\n}\n\n\n\nvar _ = fmt.Sprint   // end\ntype N   map[string]A\n', 'package plain\n\n//json:tag\ntype A struct {\n\tB string `json:"b"`\n}\n')
MANY = 'package plain\n\nimport (\n\t"time"\n\n\t"github.com/google/uuid"\n)\n\n//json:tag\ntype B struct {\n\tT time.Time `json:"t" layout:"%s"`\n\tU uuid.UUID `json:"u"`\n\tI int32 `json:"i" default:"7"`\n\tF float32 `json:"f,required"`\n\tP *time.Time `json:"p"`\n\tY []byte `json:"y"`\n\tS []string `json:"s,omitempty"`\n\tM map[string]*int64 `json:"m"`\n\tN []*string `json:"n"`\n}\n\n//json:encode\ntype G struct {\n\tA uint `json:"a"`\n}\n\n//json:decode\ntype H []B\n'
f('many', 'plain/b.go', MANY % '2006-01-02', MANY % '15:04')
f('std', 'plain/sub/s.go', 'package sub\n\nimport (\n\tid "github.com/google/uuid"\n\tst "time"\n)\n\n//json:tag\ntype A struct {\n\tT st.Time `json:"t"`\n\tU *id.UUID `json:"u"`\n}\n')
f('root', 'root.go', USE.replace('package use', 'package m') % ('', 'go-dep', 'R', 'RN'), None, ['dep', 'dep2'])
f('main', 'cmd/main.go', 'package main\n\n//json:tag\ntype Cfg struct {\n\tA int `json:"a"`\n}\n\nfunc main() {}\n')
f('none', 'none/n.go', 'package none\n\ntype N struct {\n\tA int `json:"a"`\n}\n')
f('synt', 'bad/syntax.go', 'package bad\n\ntype X struct {\n', None, (), True, 1, True)
f('inl', 'bad2/inline.go', 'package bad2\n\n//json:tag\ntype X struct {\n\tNowhere `json:",inline"`\n\tA int `json:"a"`\n}\n', None, (), True, 1, True)
f('uns', 'bad3/uns.go', 'package bad3\n\nimport "example.com/m/x/errors"\n\n//json:tag\ntype X struct {\n\tA errors.Kind `json:"a"`\n\tC func() `json:"c"`\n}\n\n//json:tag\ntype Y func()\n', None, (), True, 1, True)
f('xtest', 'go-dep/x_test.go', 'package dep_test\n\ntype St bool\ntype Kind bool\ntype Inl struct {\n\tQ bool `json:"q"`\n}\n', None, (), False)
# another module of the same name, with other contents
f('m2dep', 'go-dep/dep.go', DEP.replace('int16', 'uint64').replace('int8', 'bool') % ('bool', ''), None, (), True, 2)
f('m2use', 'use/one.go', USE % ('', 'go-dep', 'U1', 'N1'), None, ['m2dep'], True, 2)
f('m2err', 'x/errors/e.go', ERR.replace('int ', 'string ') % 'bool', None, (), True, 2)
f('m2uerr', 'uerr/u.go', 'package uerr\n\nimport "example.com/m/x/errors"\n\n//json:tag\ntype U struct {\n\tE errors.E `json:"e"`\n\tP *errors.E `json:"p"`\n\tK errors.Kind `json:"k"`\n}\n', None, ['m2err'], True, 2)
json.dump(F, open('/verif/spec/procs.json', 'w'), indent=1)
