"""Writes DESIGN.md from properties.jsonl, the checks, known_findings.json, seeded/*/meta.json and tools/design/*.md."""
import glob
import importlib.util
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.environ.setdefault("VP_SCRATCH", "/tmp")
sys.path.insert(0, os.path.join(ROOT, "lib"))
sys.path.insert(0, os.path.join(ROOT, "checks"))
import boot  # noqa


def read(name):
    with open(os.path.join(ROOT, "tools", "design", name)) as f:
        return f.read().strip() + "\n"


props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
out = [read("head.md")]
out.append("## The properties\n")
for p in props:
    i = p["id"]
    out.append(f"### {i} {p['title']}\n")
    path = os.path.join(ROOT, "checks", i.lower() + ".py")
    spec = importlib.util.spec_from_file_location(i.lower(), path)
    m = importlib.util.module_from_spec(spec)
    sys.modules[i.lower()] = m
    spec.loader.exec_module(m)
    out.append(f"*Anchored in* {', '.join(x.replace('src/earthkit/regrid/', '') for x in p['anchors']['files'])}.\n")
    out.append("*Generated and compared.* " + m.RULE + "\n")
    q = {x.name: x for x in m.parts("quick")}
    t = {x.name: x for x in m.parts("thorough")}
    out.append(
        "*Cases (quick / thorough, upper bounds; the evidence holds the actual numbers).* "
        + ", ".join(f"{n}: {q[n].quick if n in q else 0} / {t[n].thorough if n in t else 0}" for n in t) + ".\n"
    )
    out.append("*Why tests cannot settle it.* " + p["why_tests_cant"] + "\n")
    out.append("*Assumed / left out.* " + "; ".join(m.ASSUMPTIONS) + ".\n")
    caught = sorted(x for x in os.listdir(os.path.join(ROOT, "seeded")) if x.startswith(i + "-"))
    if caught:
        out.append("*Planted bugs caught.* " + ", ".join(caught) + ".\n")
out.append(read("alarms.md"))
out.append("## Genuine defects found\n")
k = json.load(open(os.path.join(ROOT, "known_findings.json")))
out.append(
    f"The checks found {len(k['fixed'])} defects that are repaired in /repo by separate `fix:` commits (each one was "
    "reported by the check named, with a replay file, before the repair) "
    f"and {len(k['findings'])} that are recorded as findings.\n"
)
for x in k["fixed"]:
    a, b, c, d = x.split(" ", 3)
    out.append(f"- {b.split('=')[1]} ({c}): {d}")
out.append("")
out.append(read("planted.md"))
out.append("| planted bug | what it breaks | needs |\n|---|---|---|")
for d in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
    m = json.load(open(d))
    out.append(f"| {os.path.basename(os.path.dirname(d))} | {m['what_it_breaks']} | {m['needs']} |")
out.append("")
out.append(read("tail.md"))
with open(os.path.join(ROOT, "DESIGN.md"), "w") as f:
    f.write("\n".join(out))
