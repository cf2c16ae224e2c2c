import json,jsonschema,sys
V='/verif/'
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open(V+'properties.jsonl'): jsonschema.validate(json.loads(l),s)
jsonschema.validate(json.load(open(V+'MANIFEST.json')),json.load(open('/root/.vp/MANIFEST.schema.json')))
print("ok")
