import json, sys, collections
rs = [json.loads(l) for l in open(sys.argv[1])]
by = collections.defaultdict(collections.Counter)
for r in rs: by[r["f"]][r["v"]] += 1
for f, c in sorted(by.items()): print(f"{f:60s} {dict(c)}")
print(sum((c for c in by.values()), collections.Counter()))
