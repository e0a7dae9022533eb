import json
import os
import random

import inv
import numpy as np
from hypothesis import strategies as st
from vp import Part, check, fail

PROPERTY = "C06"
RULE = (
    "A case is an index of 1-6 supported entries (five kinds of grids, four methods, some written twice with other "
    "weights so that the first one has to win, some with a dictionary as method) with 0-5 foreign or malformed entries "
    "(unknown grid names and types, missing or ill-typed grid, area, order, input, output) put anywhere between them, of "
    "the supported or another version. Every entry is requested by each documented name of its method; then a random "
    "selection is subset and copied to a new inventory, which is asked for every entry again. Non-trivial: at least "
    "one foreign entry or duplicate together with a supported one, or a subset that leaves something out."
)
ASSUMPTIONS = [
    "foreign entries have a method; values outside JSON's number range are not generated",
]

GRIDS = inv.st_grid()
ENTRY = st.tuples(GRIDS, GRIDS, st.sampled_from(inv.METHODS + ["nearest-neighbour"]), st.integers(0, 2**20), st.integers(0, 5))

BAD_GRIDS = [
    {"grid": "_nonexisting"},
    {"grid": "X5"},
    {"grid": "ORCA2_X"},
    {"grid": "H4x"},
    {"grid": "H0"},
    {"grid": ""},
    {"grid": None},
    {"grid": 5},
    {"grid": [5]},
    {"grid": [5, 5, 5]},
    {"grid": ["a", "b"]},
    {"grid": [90, None]},
    {"grid": {"a": 1}},
    {"grid": [90, 90], "type": "mercator"},
    {"grid": [90, 90], "type": "healpix"},
    {"grid": "H1", "type": "regular_ll"},
    {"grid": "H1", "type": "reduced_gg"},
    {"type": "regular_ll"},
    {"type": "reduced_gg"},
    {"type": "healpix"},
    {"type": "orca"},
    {"grid": [90, 90], "area": [90, 0, -90]},
    {"grid": [90, 90], "area": None},
    {"grid": [90, 90], "area": "global"},
    {"grid": [90, 90], "area": ["a", "b", "c", "d"]},
    {"grid": [90, 90], "area": {"north": 90}},
    {"grid": "O2", "area": [None, None, None, None]},
    {"grid": "H1", "order": "spiral"},
    {"grid": "H2", "ordering": 3},
    {"grid": "H1", "order": ["ring"]},
    {"grid": [90, 90, 90], "type": "regular_ll"},
    {"grid": ["a", 90], "type": "regular_ll"},
    {"grid": "unstructured", "shape": [10]},
    {},
    [],
    None,
    "O32",
    17,
    # supported kinds of grid under which nobody asks here
    {"grid": "O5", "shape": "abc"},
    {"grid": [7, 7], "shape": None},
]
FOREIGN = st.one_of(
    st.tuples(st.just("bad_in"), st.integers(0, 7), st.integers(0, len(BAD_GRIDS) - 1), st.integers(0, 5)),
    st.tuples(st.just("bad_out"), st.integers(0, 7), st.integers(0, len(BAD_GRIDS) - 1), st.integers(0, 5)),
    st.tuples(st.just("no_in"), st.integers(0, 7), st.integers(0, 1), st.integers(0, 5)),
    st.tuples(st.just("raw"), st.integers(0, 7), st.integers(0, 4), st.integers(0, 5)),
)
CASE = st.fixed_dictionaries(
    dict(
        entries=st.lists(ENTRY, min_size=1, max_size=6),
        dup=st.lists(st.tuples(st.integers(0, 5), st.integers(0, 2**20)), max_size=2),
        foreign=st.one_of(st.just([]), st.lists(FOREIGN, min_size=1, max_size=5), st.lists(FOREIGN, min_size=1, max_size=5)),
        shuffle=st.integers(0, 10**6),
        version=st.sampled_from([1] * 20 + [0, 2, "1", None, "missing", [1], 1.5]),
        select=st.lists(st.integers(0, 5), max_size=6),
        missing_ok=st.booleans(),
        seed=st.integers(0, 2**20),
    )
)
GBA = {
    "type": "grid-box-average",
    "nonLinear": [{"type": "missing-if-heaviest-missing"}],
    "solver": {"type": "multiply"},
    "cropping": False,
    "lsmWeightAdjustment": 0.2,
    "pruneEpsilon": 1e-10,
    "poleDisplacement": 0,
}
ALIASES = ["nearest-neighbour", "nn", "nearest-neighbor"]


def gkey(g):
    return (g[0],) + tuple(g[1:3] if g[0] != "la" else g[1:])


def run(case, ctx):
    from earthkit.regrid import config
    from earthkit.regrid.array import regrid
    from earthkit.regrid.backends.db import MatrixDb
    from scipy.sparse import save_npz

    inv.reset_package()
    config.set("weights-memory-cache-policy", "off")
    path = ctx.newdir("inv")
    entries, first = [], {}
    for i, (gin, gout, method, seed, var) in enumerate(case["entries"]):
        k = (gkey(gin), gkey(gout), method)
        if k in first:
            continue
        e = inv.Entry(gin, gout, method, seed, name=f"e{i}")
        e.var = var
        first[k] = e
        entries.append(e)
    order = list(entries)
    for i, seed in case["dup"]:
        src = entries[i % len(entries)]
        e = inv.Entry(src.gin, src.gout, src.method, seed, name=f"d{len(order)}")
        e.var = src.var + 1
        e.dup = True
        order.append(e)
    items = []
    for e in order:
        raw = e.index_entry()
        if e.method == "grid-box-average" and e.var % 2:
            raw["interpolation"]["method"] = GBA
        if e.var % 3 == 0:
            raw.pop("nnz")
        if e.var % 5 == 0:
            raw["extra"] = {"anything": 1}
            raw["input"]["comment"] = "x"
        if e.gout[0] in ("gg", "hp", "orca") and e.var == 4:
            raw["output"].pop("shape", None)
        items.append((e.name, raw, e))
    nforeign = 0
    good = [json.dumps(r) for _, r, _ in items]
    for n, (kind, pos, which, src) in enumerate(case["foreign"]):
        base = json.loads(good[src % len(good)])
        if kind == "bad_in":
            base["input"] = BAD_GRIDS[which]
        elif kind == "bad_out":
            base["output"] = BAD_GRIDS[which]
        elif kind == "no_in":
            base.pop("input" if which else "output")
        else:
            base = [{}, [], None, "text", 5][which]
        items.insert(pos % (len(items) + 1), (f"f{n}", base, None))
        nforeign += 1
    # the order among duplicates decides: shuffle everything
    random.Random(case["shuffle"]).shuffle(items)
    winner = {}
    for name, raw, e in items:
        if e is not None:
            winner.setdefault((gkey(e.gin), gkey(e.gout), e.method), e)
            d = f"{path}/mir_16_{e.method}"
            os.makedirs(d, exist_ok=True)
            save_npz(f"{d}/{name}.npz", e.matrix())
    index = dict(version=case["version"], matrix={n: r for n, r, _ in items})
    if case["version"] == "missing":
        del index["version"]
    with open(f"{path}/index.json", "w") as f:
        json.dump(index, f)

    def ask(p, e, method, seed):
        x = inv.array(inv.shape(e.gin), seed)
        return x, regrid(x, inv.request_grid(e.gin), inv.request_grid(e.gout), interpolation=method, backend="precomputed", inventory=p)[0]

    e0 = entries[0]
    if case["version"] != 1:
        for again in (1, 2):
            try:
                ask(path, e0, e0.method, 1)
            except ValueError:
                ctx.label("version-rejected")
            else:
                fail(f"index version {case['version']!r} accepted")
        ctx.nontrivial(True)
        return

    db = MatrixDb.from_path(path)
    check(len(db) <= len(items), "more entries than the index has")
    check(len(db) >= len(order), f"only {len(db)} of {len(order)} supported entries loaded")
    for k, e in winner.items():
        names = ALIASES if e.method == "nearest-neighbour" else [e.method]
        for m in names:
            x, y = ask(path, e, m, case["seed"])
            check(
                y.shape == e.out_shape() and inv.same_values(y, e.expected(x), e.tol(x)),
                lambda: f"{e.gin} -> {e.gout} {m}: not the values of the first matching entry {e.name}",
            )
            ctx.label("alias" if m != e.method else "canonical")
    if nforeign:
        ctx.label("foreign")
    if case["dup"]:
        ctx.label("duplicates")
    ctx.nontrivial(nforeign > 0 or len(case["dup"]) > 0)

    # subset
    want = {}
    filters = []
    for i in case["select"]:
        e = entries[i % len(entries)]
        k = (gkey(e.gin), gkey(e.gout), e.method)
        want[k] = winner[k]
        f = dict(input=inv.request_grid(e.gin), output=inv.request_grid(e.gout), method=e.method)
        if e.method == "linear" and i % 2:
            f.pop("method")
        filters.append(f)
    absent = dict(input={"grid": "O7"}, output={"grid": [10, 10]})
    if case["missing_ok"]:
        filters.insert(len(filters) // 2, absent)
    else:
        try:
            db.subset_index(filters + [absent])
        except ValueError:
            pass
        else:
            fail("a subset with an absent entry did not fail")
    sub = db.subset_index(filters, fail_on_missing=not case["missing_ok"])
    check(len(sub) == len(want), f"subset has {len(sub)} entries, expected {len(want)}")
    taken = db.subset_index(filters, fail_on_missing=not case["missing_ok"], raw=True)
    check(dict(taken) == {n: index["matrix"][n] for n in sub}, lambda: f"raw subset {dict(taken)}")
    out = ctx.newdir("sub")
    for _, entry in sub.items():
        planned = db.copy_matrix_file(entry, out, dry_run=True)
        check(not os.path.lexists(planned), "a dry run copied the matrix file")
        target = db.copy_matrix_file(entry, out)
        check(os.path.isfile(target) and target == planned, "copied matrix file missing")
        before = open(target, "rb").read()
        try:
            db.copy_matrix_file(entry, out)
        except FileExistsError:
            pass
        else:
            fail("an existing matrix file was overwritten without exist_ok")
        db.copy_matrix_file(entry, out, exist_ok=True)
        check(open(target, "rb").read() == before, "copy differs")
    raw = sub.to_raw()
    for n, r in raw["matrix"].items():
        check(r == index["matrix"][n], f"raw copy of entry {n} differs: {r} / {index['matrix'][n]}")
    with open(f"{out}/index.json", "w") as f:
        json.dump(raw, f)
    for k, e in winner.items():
        if k in want:
            x, y = ask(out, e, e.method, case["seed"] + 1)
            x0, y0 = ask(path, e, e.method, case["seed"] + 1)
            check(y.shape == y0.shape and np.array_equal(y, y0, equal_nan=True), "the subset inventory gives other values")
            check(inv.same_values(y, e.expected(x), e.tol(x)), "the subset inventory gives wrong values")
            ctx.label("subset-hit")
        else:
            try:
                ask(out, e, e.method, 1)
            except ValueError:
                ctx.label("subset-miss")
                ctx.nontrivial(True)
            else:
                fail(f"{k} is not in the subset but a result was returned")


def parts(tier):
    return [Part("index", CASE, run, quick=6000, thorough=12000, budget=110)]
