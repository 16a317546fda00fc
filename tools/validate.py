#!/usr/bin/env python3-vt
import json, jsonschema, os, sys
b = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for l in open(b + "/properties.jsonl"): jsonschema.validate(json.loads(l), s)
if os.path.exists(b + "/MANIFEST.json"):
    jsonschema.validate(json.load(open(b + "/MANIFEST.json")), json.load(open("/root/.vp/MANIFEST.schema.json")))
es = json.load(open("/root/.vp/EVIDENCE.schema.json"))
for f in os.listdir(b + "/evidence"):
    if f.endswith(".json"): jsonschema.validate(json.load(open(b + "/evidence/" + f)), es)
print("valid")
