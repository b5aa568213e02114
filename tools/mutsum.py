"""Summary of mutate.py's results"""
import sys, json, collections
c = collections.Counter()
seen = set(sys.argv[2:])
for l in open(sys.argv[1]):
    d = json.loads(l)
    c[d["result"]] += 1
    if d["result"] not in ("tests", "caught"):
        print(d["result"], d["key"][:260], d.get("by", ""), d.get("rc", ""), d.get("out", "")[-200:] if d["result"] != "MISSED" else "")
print(c)
