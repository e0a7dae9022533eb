"""Make planted bugs: python3 tools/mkseed.py FILE, where FILE defines SEEDS (dicts with id, property, needs,
breaks, edits [(file below src/earthkit/regrid, old, new)], demo (python source), sh (optional shell instead))."""
import json, os, shutil, subprocess, sys, tempfile
ns = {}
exec(open(sys.argv[1]).read(), ns)
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "seeded")
only = sys.argv[2:]
HEAD = '''#!/bin/bash
# run in the root of the repository; everything is written below a scratch directory
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d /tmp/demo.XXXXXX) || exit 99
trap 'rm -rf "$w"' EXIT
mkdir -p "$w/home" "$w/tmp"
for v in $(compgen -e | grep '^EARTHKIT_REGRID_'); do unset "$v"; done
export PYTHONPATH="$PWD/src" HOME="$w/home" TMPDIR="$w/tmp" XDG_CACHE_HOME="$w/home/.cache" MIR_CACHE_PATH="$w/mir"
export ECKIT_GEO_CACHE_PATH="$w/geo" PYTHONDONTWRITEBYTECODE=1 SCRATCH="$w"
unset http_proxy https_proxy HTTP_PROXY HTTPS_PROXY
/opt/venv/bin/python "$here/demo.py"
'''
for s in ns["SEEDS"]:
    if only and s["id"] not in only:
        continue
    d = os.path.join(out, s["id"])
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="/tmp/mkseed")
    subprocess.check_call(["git", "clone", "-q", os.environ.get("SEEDBASE", "/repo"), w + "/r"])
    for f, a, b in s["edits"]:
        p = f"{w}/r/src/earthkit/regrid/{f}"
        t = open(p).read()
        assert t.count(a) == 1, (s["id"], f, t.count(a), a)
        open(p, "w").write(t.replace(a, b))
    diff = subprocess.check_output(["git", "-C", w + "/r", "diff"], text=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.sh", "w").write(HEAD)
    open(d + "/demo.py", "w").write(s["demo"].lstrip("\n"))
    json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
    shutil.rmtree(w)
    print(s["id"])
