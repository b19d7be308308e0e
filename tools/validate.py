#!/opt/veriftools/pyvenv/bin/python
"""Validates properties, manifest and evidence against the schemas in /root/.vp."""
import json, glob, os, jsonschema
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = lambda n: json.load(open("/root/.vp/%s.schema.json" % n))
ps = S("PROPERTIES")
n = 0
for l in open(V + "/properties.jsonl"):
    jsonschema.validate(json.loads(l), ps)
    n += 1
jsonschema.validate(json.load(open(V + "/MANIFEST.json")), S("MANIFEST"))
e = glob.glob(V + "/evidence/C??.json")
for f in e:
    jsonschema.validate(json.load(open(f)), S("EVIDENCE"))
print(n, "properties, manifest and", len(e), "evidence files valid")
