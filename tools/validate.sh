#!/bin/bash
# regenerate and validate the metadata
cd "$(dirname "$0")" && python3 -B gen_meta.py && python3-vt -B - <<'PY'
import json,jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('../properties.jsonl'): jsonschema.validate(json.loads(l),s)
jsonschema.validate(json.load(open('../MANIFEST.json')),json.load(open('/root/.vp/MANIFEST.schema.json')))
print("valid")
PY
