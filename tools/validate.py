"""python3-vt tools/validate.py: the committed JSON against the task's schemas."""
import json, jsonschema, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
m = json.load(open(here + '/MANIFEST.json'))
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
n = 0
for line in open(here + '/properties.jsonl'):
    jsonschema.validate(json.loads(line), s)
    n += 1
print('valid:', n, 'properties')
