import copy

import inv
import numpy as np
from hypothesis import strategies as st
from vp import Part, check, fail

PROPERTY = "C01"
RULE = (
    "A case is an inventory of 1-6 generated entries (grids of five kinds, sparse matrices with empty rows and "
    "stored zeros, four methods) written to disk, plus 1-6 requests: matching ones with generated arrays (dtype, "
    "memory order, NaN/inf), requests for grids or methods not in the inventory, and arrays of a wrong size. "
    "Oracle: the product computed from the generated (row, col, weight) triples. Non-trivial: at least one matching "
    "request on an entry with at least one stored weight."
)
ASSUMPTIONS = [
    "inventories are local directories in the published layout; sizes below 1000 points per grid",
    "the index records the target shape for every entry",
]

ENTRY = st.tuples(
    inv.st_grid(),
    inv.st_grid(),
    st.sampled_from(inv.METHODS),
    st.integers(0, 2**31 - 1),
    st.integers(1, 5),
    st.sampled_from(["float64", "float64", "float32"]),
    st.sampled_from(["csr_array", "csr_matrix"]),
)
REQ = st.one_of(
    st.tuples(st.just("hit"), st.integers(0, 5), st.integers(0, 2**31 - 1), inv.st_value_kind, inv.st_order),
    st.tuples(st.just("hit"), st.integers(0, 5), st.integers(0, 2**31 - 1), inv.st_value_kind, inv.st_order),
    st.tuples(st.just("miss"), inv.st_grid(), inv.st_grid(), st.sampled_from(inv.METHODS + ["cubic"]), st.integers(0, 99)),
    st.tuples(st.just("size"), st.integers(0, 5), st.sampled_from([-1, 1, 2, 7, "empty", "double"]), st.integers(0, 99)),
)
CASE = st.fixed_dictionaries(
    dict(
        entries=st.lists(ENTRY, min_size=1, max_size=6),
        reqs=st.lists(REQ, min_size=1, max_size=6),
        policy=st.sampled_from(["largest", "largest", "off", "lru", "unlimited"]),
    )
)


def gkey(g):
    return (g[0],) + tuple(g[1:3] if g[0] != "la" else g[1:])


def run(case, ctx):
    from earthkit.regrid import config
    from earthkit.regrid.array import regrid

    inv.reset_package()
    config.set("weights-memory-cache-policy", case["policy"])
    path = ctx.newdir("inv")
    entries = []
    keys = {}
    for gin, gout, method, seed, per_row, dtype, kind in case["entries"]:
        k = (gkey(gin), gkey(gout), method)
        if k in keys:
            continue
        e = inv.Entry(gin, gout, method, seed, per_row=per_row, dtype=dtype, kind=kind)
        keys[k] = e
        entries.append(e)
    inv.write_inventory(path, entries)

    for req in case["reqs"]:
        if req[0] == "hit":
            _, i, seed, vkind, order = req
            e = entries[i % len(entries)]
            x = inv.array(inv.shape(e.gin), seed, vkind, order)
            keep = x.copy()
            gi, go = inv.request_grid(e.gin), inv.request_grid(e.gout)
            gi0, go0 = copy.deepcopy(gi), copy.deepcopy(go)
            y, spec = regrid(x, gi, go, interpolation=e.method, backend="precomputed", inventory=path)
            want = e.expected(keep)
            check(isinstance(y, np.ndarray), f"result type {type(y)}")
            check(y.shape == e.out_shape(), f"result shape {y.shape}, expected {e.out_shape()} for {e.gout}")
            check(
                inv.same_values(y, want, e.tol(keep)),
                lambda: f"values differ from W @ x: entry {e.gin}->{e.gout} {e.method}; max diff "
                f"{np.nanmax(np.abs(np.where(np.isfinite(want), y.reshape(-1) - want, 0)))} "
                f"nan got {int(np.isnan(y).sum())} want {int(np.isnan(want).sum())}",
            )
            check(dict(spec) == go0, f"returned grid {spec} is not the requested {go0}")
            check(x.dtype == keep.dtype and np.array_equal(x, keep, equal_nan=x.dtype.kind == "f"), "input array modified")
            check(x.shape == keep.shape, "input array reshaped")
            check(gi == gi0 and go == go0, "grid arguments modified")
            ctx.nontrivial(len(e.triples[0]) > 0)
            ctx.label("hit-" + vkind)
            ctx.label("order-" + order)
            ctx.label("in-" + e.gin[0])
        elif req[0] == "miss":
            _, gin, gout, method, seed = req
            if (gkey(gin), gkey(gout), method) in keys:
                continue
            x = inv.array(inv.shape(gin), seed)
            try:
                r = regrid(x, inv.request_grid(gin), inv.request_grid(gout), interpolation=method, backend="precomputed", inventory=path)
            except ValueError:
                ctx.label("miss")
            else:
                fail(f"no entry for {gin}->{gout} {method} but a result of shape {r[0].shape} was returned")
        else:
            _, i, how, seed = req
            e = entries[i % len(entries)]
            n = inv.size(e.gin)
            m = 0 if how == "empty" else 2 * n if how == "double" else max(0, n + how)
            if m == n:
                continue
            x = inv.array([m], seed)
            try:
                r = regrid(x, inv.request_grid(e.gin), inv.request_grid(e.gout), interpolation=e.method, backend="precomputed", inventory=path)
            except ValueError:
                ctx.label("wrong-size")
            else:
                fail(f"array of {m} values accepted for a grid of {n} points; result shape {r[0].shape}")


def parts(tier):
    return [Part("apply", CASE, run, quick=1600, thorough=6000, budget=100)]
