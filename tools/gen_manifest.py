"""Writes MANIFEST.json from the checks present in checks/."""
import importlib.util, json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
NOTES = json.load(open(os.path.join(root, "tools", "notes.json")))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    n = NOTES.get(i, {})
    if os.path.exists(os.path.join(root, "checks", i.lower() + ".py")):
        checks.append(dict(property=i, quick_cmd=f"bash run.sh {i} quick", thorough_cmd=f"bash run.sh {i} thorough",
            evidence_file=f"evidence/{i}.json", technique=n.get("technique", "property-based testing (Hypothesis)"),
            level=n.get("level", "exploration"), level_note=n.get("note", "Generated cases only; see evidence for counts.")))
    else:
        na.append(dict(property=i, reason=n.get("na", "check not built yet")))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
    notes="No hooks in /repo. run.sh isolates HOME/caches in a scratch directory; all randomness derives from VERIF_SEED.")
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "n/a")
