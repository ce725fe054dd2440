#!/usr/bin/env python3-vt
"""Validates properties.jsonl and MANIFEST.json (run with python3-vt)."""
import json, jsonschema, os
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('/verif/properties.jsonl'):
    d=json.loads(l); jsonschema.validate(d,s)
    for f in d['anchors']['files']:
        if not os.path.exists('/repo/'+f): print(d['id'],'missing',f)
jsonschema.validate(json.load(open('/verif/MANIFEST.json')),json.load(open('/root/.vp/MANIFEST.schema.json')))
