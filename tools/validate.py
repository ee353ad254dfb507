import json, glob, jsonschema
L = lambda p: json.load(open(p))
jsonschema.validate(L('/verif/MANIFEST.json'), L('/root/.vp/MANIFEST.schema.json'))
s = L('/root/.vp/PROPERTIES.schema.json')
for l in open('/verif/properties.jsonl'): jsonschema.validate(json.loads(l), s); 
e = L('/root/.vp/EVIDENCE.schema.json')
for f in glob.glob('/verif/evidence/*.json'): jsonschema.validate(L(f), e)
print('ok')
