#!/opt/veriftools/pyvenv/bin/python
import json, jsonschema, os
ps = json.load(open('/root/.vp/PROPERTIES.schema.json')); ms = json.load(open('/root/.vp/MANIFEST.schema.json'))
es = json.load(open('/root/.vp/EVIDENCE.schema.json'))
jsonschema.validate(json.load(open('/verif/MANIFEST.json')), ms)
for l in open('/verif/properties.jsonl'):
    o = json.loads(l); jsonschema.validate(o, ps)
    for f in o['anchors']['files'] + [m['where'] for m in o['anchors']['mechanism']]:
        if not os.path.exists('/repo/' + f.split()[0]): print(o['id'], f)
for f in os.listdir('/verif/evidence'):
    jsonschema.validate(json.load(open('/verif/evidence/' + f)), es)
