import contextlib
import io
import json
import logging
import os
import runpy
import sys

import inv
import numpy as np
from boot import REPO
from c29 import METHOD, ident
from hypothesis import strategies as st
from published import System, publish
from vp import Part, check, fail

PROPERTY = "C30"
RULE = (
    "subset: a published inventory of 1-8 conversions (plus entries of unknown kinds) on a loopback server, a YAML selection "
    "of 0-6 conversions (present, missing or repeated, grids spelled in several ways, method given or left out), the options "
    "--strict, --allow-missing, --dry-run, and an output directory that is missing, empty, holds another file or an earlier "
    "subset; the command's exit, the files written, and regrid() with the output directory as inventory for every pair are "
    "compared with a model. merge: a built index and the published one with disjoint entries, merged in local and system "
    "mode, with and without --dry-run. Non-trivial: a subset that leaves something out, or a merge of two non-empty indexes."
)
ASSUMPTIONS = ["merged indexes have no entry in common (the command refuses others after writing)"]


@st.composite
def conversions(draw, n=8):
    item = st.tuples(inv.st_grid(), inv.st_grid(), METHOD)
    return draw(st.lists(item, min_size=1, max_size=n, unique_by=lambda t: (ident(t[0]), ident(t[1]), t[2])))


FOREIGN = dict(
    input=dict(grid="X5"),
    output=dict(grid="O32"),
    interpolation=dict(engine="mir", version=16, method="linear"),
    nnz=1,
    memory=10,
)
CHOICE = st.tuples(st.integers(0, 7), st.sampled_from(["as", "as", "as", "lower", "default"]))
MISSING = st.tuples(st.just("missing"), st.integers(0, 2))
SUBSET = st.fixed_dictionaries(
    dict(
        pairs=conversions(),
        chosen=st.lists(st.one_of([CHOICE] * 9 + [MISSING]), max_size=6),
        foreign=st.booleans(),
        strict=st.sampled_from([False, False, True]),
        allow=st.sampled_from([False, True, True]),
        dry=st.sampled_from([False, False, False, True]),
        out=st.sampled_from(["missing", "missing", "empty", "other", "earlier"]),
        seed=st.integers(0, 2**20),
    )
)
MERGE = st.fixed_dictionaries(
    dict(
        pairs=conversions(10),
        split=st.integers(0, 10),
        mode=st.sampled_from(["local", "system"]),
        dry=st.sampled_from([False, False, True]),
        out=st.sampled_from(["missing", "empty", "earlier"]),
        foreign=st.booleans(),
        seed=st.integers(0, 2**20),
    )
)


def tool(path, *args):
    """runs a command of /repo/tools; None when it succeeds"""
    argv, syspath = sys.argv, list(sys.path)
    root = logging.getLogger()
    handlers, level = list(root.handlers), root.level
    mods = {k: v for k, v in sys.modules.items() if k == "utils" or k.startswith("utils.")}
    sys.argv = [path] + list(args)
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            runpy.run_path(os.path.join(REPO, "tools", path), run_name="__main__")
    except SystemExit as e:
        return e if e.code else None
    except (ImportError, SyntaxError, NameError, AttributeError) as e:
        fail(f"tools/{path} cannot run: {e!r}", "runs")
    except Exception as e:
        return e
    finally:
        sys.argv, sys.path[:] = argv, syspath
        for k in [k for k in sys.modules if k == "utils" or k.startswith("utils.")]:
            del sys.modules[k]
        sys.modules.update(mods)
        for h in root.handlers[:]:
            if h not in handlers:
                root.removeHandler(h)
        root.setLevel(level)


def tree(d):
    res = {}
    for base, _, files in os.walk(d):
        for f in files:
            p = os.path.join(base, f)
            with open(p, "rb") as h:
                res[os.path.relpath(p, d)] = h.read()
    return res


def serves(path, entries, present, seed):
    """regrid() with `path` as inventory knows exactly the conversions `present`"""
    from earthkit.regrid.array import regrid

    for i, e in enumerate(entries):
        x = inv.array([e.cols], seed + i)
        where = f"{inv.request_grid(e.gin)} -> {inv.request_grid(e.gout)} {e.method}"
        try:
            y, _ = regrid(
                x,
                inv.request_grid(e.gin),
                inv.request_grid(e.gout),
                interpolation=e.method,
                backend="precomputed",
                inventory=path,
            )
        except ValueError:
            check(i not in present, f"{where}: not available", "serves")
            continue
        check(i in present, f"{where}: available, but not asked for", "serves")
        check(
            y.shape == e.out_shape() and inv.same_values(y, e.expected(x), e.tol(x)),
            f"{where}: other values than with the original inventory",
            "serves",
        )


MISSES = [
    dict(input=dict(grid=[7, 7]), output=dict(grid=[11, 11])),
    dict(input=dict(grid="O1280"), output=dict(grid=[0.1, 0.1]), method="linear"),
    dict(input=dict(grid="H1024", order="nested"), output=dict(grid="N640"), method="nearest-neighbour"),
]


def run_subset(case, ctx):
    import yaml

    entries = [inv.Entry(a, b, m, case["seed"] + i, name=f"{i:02d}x") for i, (a, b, m) in enumerate(case["pairs"])]
    raw = {e.name: e.index_entry() for e in entries}
    items = ([("f0", FOREIGN)] if case["foreign"] else []) + list(raw.items())
    filters = []
    present, missing = set(), False
    for c in case["chosen"]:
        if c[0] == "missing":
            filters.append(MISSES[c[1]])
            missing = True
            continue
        i = c[0] % len(entries)
        e = entries[i]
        item = dict(input=inv.request_grid(e.gin), output=inv.request_grid(e.gout), method=e.method)
        if c[1] == "lower":
            for k in ("input", "output"):
                g = item[k]["grid"]
                item[k]["grid"] = g.lower() if isinstance(g, str) and "ORCA" not in g and g[0] in "ON" else g
        elif c[1] == "default" and e.method == "linear":
            del item["method"]
        filters.append(item)
        present.add(i)
    base = ctx.newdir("s")
    conf, out = os.path.join(base, "conf.yaml"), os.path.join(base, "out")
    with open(conf, "w") as f:
        yaml.safe_dump(filters, f)
    if case["out"] != "missing":
        os.mkdir(out)
    if case["out"] == "other":
        with open(os.path.join(out, "notes.txt"), "w") as f:
            f.write("mine")
    elif case["out"] == "earlier":
        old = [inv.Entry(("ll", 90, 90), ("ll", 180, 90), "linear", 1, name="old")]
        inv.write_inventory(out, old)
        # an older version of a matrix that may be in the new subset
        e = entries[0]
        inv.write_inventory(out, old + [inv.Entry(e.gin, e.gout, e.method, case["seed"] + 99, name=e.name)])
    before = tree(out)

    args = ["--conf", conf, "--out-dir", out, "--log-level", "error"]
    args += ["--strict"] * case["strict"] + ["--allow-missing"] * case["allow"] + ["--dry-run"] * case["dry"]
    with System(ctx, dict(version=1, matrix=dict(items)), entries):
        err = tool("subset/subset_remote_db.py", *args)
    after = tree(out)

    occupied = case["out"] in ("other", "earlier")
    refused = (missing and not case["allow"]) or (case["strict"] and occupied and not case["dry"])
    check((err is not None) == refused, f"the command {'fails: %r' % err if err else 'succeeds'}", "exit")
    if refused or case["dry"]:
        check(after == before, f"files changed: {sorted(set(after) ^ set(before))}", "unchanged")
        check(case["out"] != "missing" or refused or not os.path.exists(out), "the directory was created", "unchanged")
        ctx.label("refused" if refused else "dry run")
        return
    index = json.loads(after["index.json"])
    check(index["version"] == 1, "the version is not that of the inventory", "index")
    check(
        index["matrix"] == json.loads(json.dumps({entries[i].name: raw[entries[i].name] for i in present})),
        lambda: f"the index holds {sorted(index['matrix'])}, asked for were {sorted(entries[i].name for i in present)}",
        "index",
    )
    for k, v in before.items():
        if k == "notes.txt":
            check(after.get(k) == v, "another file of the directory changed", "unchanged")
    serves(out, entries, present, case["seed"])
    if 0 < len(present) < len(entries):
        ctx.nontrivial()
    ctx.label(f"subset into {case['out']}")


def run_merge(case, ctx):
    entries = [inv.Entry(a, b, m, case["seed"] + i, name=f"{i:02d}x") for i, (a, b, m) in enumerate(case["pairs"])]
    k = min(case["split"], len(entries))
    built, known = entries[:k], entries[k:]
    base = ctx.newdir("s")
    src, out = os.path.join(base, "in"), os.path.join(base, "out")
    if case["out"] != "missing":
        os.mkdir(out)
    if case["out"] == "earlier":
        with open(os.path.join(out, "index.json"), "w") as f:
            json.dump(dict(version=1, matrix=dict(old=FOREIGN)), f)
    mine = inv.write_inventory(src, built, extra=[(0, "f1", FOREIGN)] if case["foreign"] else None)
    theirs = dict(version=1, matrix={e.name: e.index_entry() for e in known})
    if case["foreign"]:
        theirs["matrix"]["f0"] = FOREIGN
    old = tree(out).get("index.json")
    args = ["--mode", case["mode"], "--input-dir", src, "--output-dir", out] + ["--dry-run"] * case["dry"]
    with System(ctx, theirs, known):
        err = tool("manage/merge_index.py", *args)
    check(err is None, f"the command fails: {err!r}", "exit")
    new = tree(out).get("index.json")
    if case["dry"]:
        check(new == old, "a dry run wrote the index", "unchanged")
        return
    want = dict(mine["matrix"])
    if case["mode"] == "system":
        want.update(theirs["matrix"])
    got = json.loads(new)
    check(got["version"] == 1, "the version is not that of the inventory", "index")
    check(
        got["matrix"] == json.loads(json.dumps(want)),
        lambda: f"the merged index holds {sorted(got['matrix'])}, there were {sorted(want)}",
        "index",
    )
    # all matrices below the merged index
    inv.write_inventory(out, entries)
    with open(os.path.join(out, "index.json"), "wb") as f:
        f.write(new)
    serves(out, entries, set(range(len(entries) if case["mode"] == "system" else k)), case["seed"])
    if case["mode"] == "system" and built and known:
        ctx.nontrivial()
    ctx.label(case["mode"])


def parts(tier):
    return [
        Part("subset", SUBSET, run_subset, quick=500, thorough=5000, budget=25),
        Part("merge", MERGE, run_merge, quick=300, thorough=3000, budget=15),
    ]
