#!/opt/veriftools/pyvenv/bin/python3
import json, jsonschema
s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('/verif/properties.jsonl'):
    p = json.loads(l)
    jsonschema.validate(p, s)
    import re
    n = len(re.findall(r"\.(?:\s|$)", p["statement"]))
    if n > 3: print(p["id"], n, "sentences")
jsonschema.validate(json.load(open('/verif/MANIFEST.json')), json.load(open('/root/.vp/MANIFEST.schema.json')))
print("valid")
