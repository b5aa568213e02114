"""Refreshes the "fixed" entries of known_findings.json from /repo's fix: commits
(run by hand; the property of each commit is given in the table)."""
import json, os, subprocess

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = {
    "keep every attribute of a nullable union": "C01",
    "don't register nested aliases twice": "C01",
    "clean dictionaries whose type is a list": "C01",
    "don't modify the original type in make_nullable": "C02",
    "don't modify the dictionary given to alias_dict": "C02",
    "validate the types nested in a union": "C03",
    "don't drop lists nested in a type list": "C07",
    "apply doc, logical and bytes overrides": "C05",
    "convert strings and bytes without a length to Avro": "C08",
    "resolve built-in aliases of simple types in Avro": "C08",
    "allow aliased strings as map keys in Avro": "C08",
    "read Avro arrays and maps of unions": "C09",
    "keep the doc of Avro fields": "C09",
    "only register Avro named types": "C09",
    "don't replace a JSON schema definition": "C11",
    "reference aliases of struct fields in JSON": "C11",
    "keep the default and doc of optional fields in JSON": "C11",
    "recognize nulls with attributes in is_optional": "C06",
}
PROP.update(json.load(open(os.path.join(V, "tools", "fixed_more.json"))) if os.path.exists(os.path.join(V, "tools", "fixed_more.json")) else {})
p = os.path.join(V, "known_findings.json")
kf = json.load(open(p))
kf["findings"] = [f for f in kf["findings"] if f["status"] != "fixed"]
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
for line in log.splitlines():
    h, s = line.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    prop = next(v for k, v in PROP.items() if k in s)
    kf["findings"].append({"status": "fixed", "property": prop, "what": f"fixed: property={prop} {h} {s[5:]}"})
json.dump(kf, open(p, "w"), indent=1)
open(p, "a").write("\n")
