#!/bin/sh
# validate MANIFEST.json and properties.jsonl against the schemas
python3-vt - <<'P'
import json, jsonschema
m = json.load(open('/verif/MANIFEST.json'))
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('/verif/properties.jsonl'):
    jsonschema.validate(json.loads(l), s)
print(len(m['checks']), 'checks')
P
