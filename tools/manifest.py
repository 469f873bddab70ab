import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
done=set(open('/verif/tools/claimed').read().split())
OBJ='TLA+ model of the generated methods (VJSem, VJObject) explored by TLC; every behaviour replayed on freshly generated code, its log validated as a trace of the model (VJTrace)'
T={'C19':'TLA+ model of the generator visiting a source file (VJGen) explored by TLC; its files given to the real generator, the generated code compiled and judged by the model (VJGenTrace)',
 'C20':'TLA+ model of the generator as a process working on files in directories (VJProc) explored by TLC; its histories replayed with the real generator on scratch modules, logs validated as traces of the model (VJProcTrace)',
 'C17':'TLA+ model explored by TLC; behaviours replayed concurrently on freshly generated code built with the race detector, logs validated as traces of the model (VJTrace)'}
import os
L='Exhaustive over the model: every type of the catalogue, every document/value of the pools of VJDocs and every behaviour of the scripts; the real code is checked on exactly these. Assumes Go, fastjson and easyjson; known findings are matched exactly.'
N={'C19':'Exhaustive over the model: every file of the scripts of VJGen, random files, and every package of the catalogue (as it is, encoders only, decoders only). The real generator and the Go type checker run on exactly these.',
 'C20':'Exhaustive over the model: every history of at most the bounded number of runs, calls and edits over the modules of spec/procs.json, plus every package of the catalogue generated repeatedly. The real generator is run on exactly these. Assumes the Go file system and go/packages behave alike in both runs.'}
m=dict(version=1,setup_cmd='python3 bin/setup.py',checks=[],not_applicable=[])
for p in props:
    i=p['id']
    if i in done:
        m['checks'].append(dict(property=i,quick_cmd='python3 bin/check.py %s --tier quick'%i,thorough_cmd='python3 bin/check.py %s --tier thorough'%i,technique=T.get(i,OBJ),level='model_checking',level_note=N.get(i,L)))
    else: m['not_applicable'].append(dict(property=i,reason='check not built yet'))
m['notes']='No hooks: the checks drive the public generator and the generated code; /repo carries only fix: commits. Language: TLA+ with TLC. known_findings.json lists the genuine defects that are recorded and those that were repaired.'
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
