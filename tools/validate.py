#!/usr/bin/env python3-vt
"""Validate MANIFEST.json, properties.jsonl and evidence against the schemas."""
import glob, json, jsonschema
S = "/root/.vp/%s.schema.json"
jsonschema.validate(json.load(open("MANIFEST.json")), json.load(open(S % "MANIFEST")))
ps = json.load(open(S % "PROPERTIES"))
for line in open("properties.jsonl"):
    jsonschema.validate(json.loads(line), ps)
es = json.load(open(S % "EVIDENCE"))
for f in glob.glob("evidence/*.json"):
    jsonschema.validate(json.load(open(f)), es)
print("ok")
