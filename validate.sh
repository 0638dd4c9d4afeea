#!/bin/sh
# checks the files against the schemas
exec python3-vt - <<'P'
import json,jsonschema,glob
bad=0
def v(o,s,n):
    global bad
    for e in jsonschema.Draft202012Validator(s).iter_errors(o): bad+=1; print(n,list(e.path),e.message[:200])
v(json.load(open('/verif/MANIFEST.json')),json.load(open('/root/.vp/MANIFEST.schema.json')),'MANIFEST')
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('/verif/properties.jsonl'):
    o=json.loads(l); v(o,s,o['id'])
s=json.load(open('/root/.vp/EVIDENCE.schema.json'))
for f in glob.glob('/verif/evidence/*.json'): v(json.load(open(f)),s,f)
print('problems:',bad)
P
