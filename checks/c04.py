import copy

import inv
import numpy as np
import specs
from hypothesis import strategies as st
from vp import Part, check, fail

PROPERTY = "C04"
RULE = (
    "A case is an inventory of 2-7 entries over distinct semantic grids (global, shifted and limited-area lat-lon with "
    "all published increments, reduced Gaussian, healpix, ocean grids, scanning flags), each written to the index in one "
    "of its forms, and requests that name an entry's grids in random equivalent spellings; the weights identify the "
    "entry. The equality part compares pairs of spelled gridspecs both ways. Non-trivial: a request whose spelling "
    "differs from the plain one in at least two respects."
)
ASSUMPTIONS = [
    "increments with noise above 1e-9 are combined with the full-circle form of an explicit area",
    "whole-turn shifts are applied where the increment divides the circle (all published ones except 0.7 and 1.4)",
]

ENTRY = st.tuples(specs.st_sem(), specs.st_sem(), st.sampled_from(["linear", "nearest-neighbour"]), specs.st_opts, specs.st_opts)
CASE = st.fixed_dictionaries(
    dict(
        entries=st.lists(ENTRY, min_size=2, max_size=7),
        reqs=st.lists(st.tuples(st.integers(0, 6), specs.st_opts, specs.st_opts), min_size=2, max_size=10),
    )
)
COLS = 3


def build(case_entries, path):
    """Writes the inventory; returns list of (gin, gout, method, shapes, marker)."""
    import json
    import os

    from scipy.sparse import csr_array, save_npz

    seen = set()
    out = []
    index = {}
    for i, (gin, gout, method, oi, oo) in enumerate(case_entries):
        if (gin, gout, method) in seen:
            continue
        seen.add((gin, gout, method))
        # the shapes: the true one where it is known and small; the matrix has COLS columns
        si = specs.true_shape(gin)
        so = specs.true_shape(gout)
        if so is None or int(np.prod(so)) > 20000:
            so, so_true = [2 + len(gout)], False
        else:
            so_true = True
        di = specs.spell(gin, oi, index=True, shape=si if oi["shape"] else None)
        do = specs.spell(gout, oo, index=True, shape=so)
        name = f"m{i}"
        mark = float(i + 1)
        rows = int(np.prod(so))
        m = csr_array((np.full(rows, mark), (np.arange(rows), np.zeros(rows, dtype=int))), shape=(rows, COLS))
        d = os.path.join(path, f"mir_1_{method}")
        os.makedirs(d, exist_ok=True)
        save_npz(os.path.join(d, name + ".npz"), m)
        index[name] = dict(input=di, output=do, interpolation=dict(engine="mir", version=1, method=method), nnz=rows)
        # a request may give the true shape only if the index has that one
        out.append((gin, gout, method, si, so if so_true else None, so, mark))
    with open(os.path.join(path, "index.json"), "w") as f:
        json.dump(dict(version=1, matrix=index), f)
    return out


def spelled(gi, o, shape):
    d = specs.spell(gi, o, shape=shape)
    p = specs.spell(gi, specs.PLAIN)
    n = sum(1 for k in set(d) | set(p) if k != "grid" and d.get(k) != p.get(k))
    n += type(d["grid"]) is not type(p["grid"])
    n += d["grid"] != p["grid"] and not isinstance(d["grid"], tuple)
    return d, n


def run(case, ctx):
    from earthkit.regrid.array import regrid

    inv.reset_package()
    path = ctx.newdir("inv")
    entries = [e for e in case["entries"] if specs.in_domain(e[0]) and specs.in_domain(e[1])]
    items = build(entries, path)
    if not items:
        return
    x = np.array([1.0, 7.0, 11.0])
    for n, oi, oo in case["reqs"]:
        gin, gout, method, si, so_req, so, mark = items[n % len(items)]
        di, n1 = spelled(gin, oi, si)
        do, n2 = spelled(gout, oo, so_req)
        keep = copy.deepcopy((di, do))
        try:
            y, spec = regrid(x, di, do, interpolation=method, backend="precomputed", inventory=path)
        except ValueError as e:
            fail(f"{di} -> {do} {method} not found although the inventory has {gin} -> {gout}: {e}")
        check(y.shape == tuple(so) and np.all(y == mark), lambda: f"{di} -> {do} served by entry {y.flat[0] - 1}, expected {mark - 1}")
        check((di, do) == keep, "request gridspec modified")
        ctx.nontrivial(n1 + n2 >= 2)
        ctx.label("in-" + gin[0])
        ctx.label("out-" + gout[0])
        if gin[0] == "ll":
            ctx.label(f"ll-form-{oi['area']}" if gin[3] == "global" else "ll-limited")


EQ = st.tuples(specs.st_sem(), specs.st_opts, specs.st_opts, specs.st_sem(), specs.st_opts, st.booleans())


def run_eq(case, ctx):
    from earthkit.regrid.gridspec import GridSpec

    g, o1, o2, h, o3, idx = case
    if not specs.in_domain(g) or not specs.in_domain(h):
        return
    a = GridSpec.from_dict(specs.spell(g, o1, shape=specs.true_shape(g)))
    b = GridSpec.from_dict(specs.spell(g, o2, index=idx, shape=specs.true_shape(g)))
    c = GridSpec.from_dict(specs.spell(h, o3, shape=specs.true_shape(h)))
    for u in (a, b, c):
        check(u == u, f"{dict(u)} is not equal to itself")
        check(u == GridSpec.from_dict(dict(u)), f"{dict(u)} is not equal to a copy")
    for u, v in ((a, b), (a, c), (b, c)):
        check((u == v) == (v == u), f"equality of {dict(u)} and {dict(v)} is not symmetric")
    if any(x[0] == "ll" and not specs.divides(x[1]) for x in (g, h)):
        # 0.7 and 1.4: the last point is not 360 - dx, a full-circle area only matches an index entry
        return
    if any(x[0] == "gg" for x in (g, h)) and any(o["area"] in (1, 3) for o in (o1, o2, o3)):
        # limits rounded to print only match an index entry (marked as global)
        return
    check((a == c) == (b == c) or g == h, "equal gridspecs compare differently with a third") if a == b else None
    if abs(o1["noise"]) < 1e-9 and (abs(o2["noise"]) < 1e-9 or idx):
        check(a == b, f"{dict(a)} and {dict(b)} both describe {g} but are not equal")
    if g != h:
        check(not (a == c), f"{dict(a)} equals {dict(c)}")
    else:
        ctx.label("same")
    ctx.nontrivial(o1 != o2)


def parts(tier):
    return [
        Part("spelling", CASE, run, quick=3000, thorough=20000, budget=90),
        Part("equality", EQ, run_eq, quick=12000, thorough=80000, budget=40),
    ]
