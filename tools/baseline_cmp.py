"""python3 tools/baseline_cmp.py OUT.json : stable tests that did not pass."""
import json, sys
b = json.load(open("/opt/vp/BASELINE.json")); o = json.load(open(sys.argv[1]))
def passed(d):
    for k in ("stable", "stable_pass", "passed", "pass", "tests"):
        if k in d:
            v = d[k]
            return set(v if isinstance(v, list) else [t for t, r in v.items() if r in ("passed", "pass", True)])
    raise SystemExit(list(d))
m = passed(b) - passed(o)
print(len(passed(b)), "stable;", len(m), "missing", sorted(m)[:20])
