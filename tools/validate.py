#!/usr/bin/env python3-vt
import json,jsonschema,glob
S='/root/.vp/'
jsonschema.validate(json.load(open('/verif/MANIFEST.json')),json.load(open(S+'MANIFEST.schema.json')))
sc=json.load(open(S+'PROPERTIES.schema.json'))
for l in open('/verif/properties.jsonl'): jsonschema.validate(json.loads(l),sc)
for f in glob.glob('/verif/evidence/*.json'): jsonschema.validate(json.load(open(f)),json.load(open(S+'EVIDENCE.schema.json')))
print('valid')
