import contextlib

import inv
import numpy as np
from hypothesis import strategies as st
from vp import Part, check, fail

PROPERTY = "C02"
RULE = (
    "A case is 2-4 inventories on disk built over a small shared pool of grid pairs and methods (so that the same "
    "request exists in several inventories with different weights, or only in some), with or without grids that differ "
    "from one another in one increment or limit only, and a history of 3-25 operations: "
    "regrid, repeat an earlier regrid, regrid other values in the same array, mutate an earlier result or input, clear the memory cache, change memory-cache "
    "policy/size/strict or the disk-cache policy (temporary contexts included). Every regrid is compared with the "
    "history-free oracle. Non-trivial: the history asks at least two inventories for the same grids and method, or "
    "repeats a request after a mutation or configuration change."
)
ASSUMPTIONS = ["the content of an inventory directory does not change while the process runs"]

PAIRS = [
    (("ll", 45, 45), ("ll", 90, 90)),
    (("gg", "O", 1, inv.gg_points("O", 1)), ("ll", 90, 90)),
    (("hp", 1, "ring"), ("hp", 1, "nested")),
    (("hp", 1, "nested"), ("hp", 1, "ring")),
    (("ll", 90, 90), ("ll", 45, 45)),
    (("ll", 90, 45), ("ll", 45, 90)),
    (("orca", "eORCA1_T", 30), ("gg", "N", 1, 12)),
    (("orca", "eORCA1_U", 30), ("gg", "N", 1, 12)),
]
METHODS = ["linear", "nearest-neighbour"]

# grids that are almost the same one: (field of a limited-area grid, change)
NEAR = st.tuples(
    st.tuples(st.sampled_from([5, 2.5, 1.25]), st.sampled_from([45.5, 10, 7.5]), st.sampled_from([12.5, 10, 200])),
    st.booleans(),
    st.lists(
        st.tuples(st.sampled_from(["dx", "dy", "both", "north", "west", "east", "swap", "mirror"]), st.sampled_from([1e-4, 1e-3, -1e-3, 0.004, 0.01, -0.05, 0.1, 0.5, 1, 10])),
        min_size=1,
        max_size=3,
        unique=True,
    ),
)


def near_pairs(near):
    (d, north, west), out, changes = near
    base = ("la", d, 2 * d, north, west, 3, 4)
    grids = [base]
    for what, x in changes:
        _, dx, dy, n, w, nj, ni = base
        if what in ("dx", "both"):
            dx += abs(x) / 3
        if what in ("dy", "both"):
            dy += abs(x) / 3
        if what == "north":
            n += x
        if what in ("west", "east"):
            w += x
        if what == "swap":
            dx, dy, nj, ni = dy, dx, ni, nj
        if what == "mirror":
            # the other hemisphere, the same digits
            n = dy * (nj - 1) - n
            w = -w - dx * (ni - 1)
        g = ("la", dx, dy, n, w, nj, ni)
        if g not in grids:
            grids.append(g)
    return [(("ll", 90, 90), g) if out else (g, ("hp", 1, "ring")) for g in grids]


OP = st.one_of(
    st.tuples(st.just("regrid"), st.integers(0, 3), st.integers(0, 7), st.integers(0, 1), st.integers(0, 9)),
    st.tuples(st.just("regrid"), st.integers(0, 3), st.integers(0, 7), st.integers(0, 1), st.integers(0, 9)),
    st.tuples(st.just("again"), st.integers(0, 30)),
    st.tuples(st.just("reuse"), st.integers(0, 30), st.integers(0, 2**20)),
    st.tuples(st.just("again_other_inv"), st.integers(0, 30), st.integers(0, 3)),
    st.tuples(st.just("mutate_result"), st.integers(0, 30)),
    st.tuples(st.just("mutate_input"), st.integers(0, 30)),
    st.tuples(st.just("clear")),
    st.tuples(st.just("policy"), st.sampled_from(["off", "lru", "largest", "unlimited"])),
    st.tuples(st.just("size"), st.sampled_from([1, 201, 601, 1201, 5001, 10**6 + 1, None])),
    st.tuples(st.just("strict"), st.booleans()),
    st.tuples(st.just("disk"), st.sampled_from(["off", "user", "temporary"])),
    st.tuples(st.just("push"), st.sampled_from(["off", "lru", "largest", "unlimited"]), st.sampled_from([1, 301, 2001])),
    st.tuples(st.just("pop")),
)
CASE = st.fixed_dictionaries(
    dict(
        pairs=st.lists(st.integers(0, len(PAIRS) - 1), min_size=1, max_size=3, unique=True),
        near=st.one_of(st.none(), NEAR),
        have=st.lists(
            st.lists(st.tuples(st.integers(0, 7), st.integers(0, 1), st.integers(0, 2**20)), min_size=1, max_size=5),
            min_size=2,
            max_size=4,
        ),
        ops=st.lists(OP, min_size=3, max_size=25),
        layout=st.sampled_from(["names", "parents", "nested", "case", "long"]),
        slash=st.sampled_from([False, False, True]),
    )
)


def place(layout, n):
    """where an inventory is: with other last, first and longer names"""
    if layout == "parents":
        return f"{n}/db"
    if layout == "nested":
        return "/".join(["db"] * (n + 1))
    if layout == "case":
        return "".join(c.upper() if n >> i & 1 else c for i, c in enumerate("inv"))
    if layout == "long":
        return "a" * (120 + n)
    return f"db{n}"


def run(case, ctx):
    from earthkit.regrid import clear_memory_cache, config
    from earthkit.regrid.array import regrid

    inv.reset_package()
    root = ctx.newdir("inv")
    pairs = [PAIRS[i] for i in case["pairs"]]
    if case.get("near"):
        pairs = pairs[:1] + near_pairs(case["near"])
        ctx.label("near grids")
        ctx.nontrivial()
    invs = []
    for n, have in enumerate(case["have"]):
        path = f"{root}/{place(case.get('layout'), n)}"
        entries = {}
        for pi, mi, seed in have:
            k = (pi % len(pairs), mi)
            if k not in entries:
                gin, gout = pairs[k[0]]
                entries[k] = inv.Entry(gin, gout, METHODS[mi], seed)
        inv.write_inventory(path, list(entries.values()))
        invs.append((path, entries))

    log = []
    stack = contextlib.ExitStack()
    frames = []
    asked = {}
    dirty = False

    def call(ii, k, seed, x=None):
        nonlocal dirty
        path, entries = invs[ii]
        if case.get("slash") and seed % 2:
            path += "/"
        gin, gout = pairs[k[0]]
        new = inv.array(inv.shape(gin), seed)
        if x is None:
            x = new
        else:
            # the array of an earlier request, with other values
            x[...] = new
        keep = x.copy()
        asked.setdefault(k, set()).add(ii)
        ctx.nontrivial(len(asked[k]) > 1)
        e = entries.get(k)
        a = dict(interpolation=METHODS[k[1]], backend="precomputed", inventory=path)
        if e is None:
            try:
                y, _ = regrid(x, inv.request_grid(gin), inv.request_grid(gout), **a)
            except ValueError:
                ctx.label("not-available")
                return
            fail(f"{gin}->{gout} {a['interpolation']} is not in inventory {ii} but a result was returned")
        strict = config.get("weights-memory-cache-strict-mode")
        maxi = config.get("maximum-weights-memory-cache-size")
        pol = config.get("weights-memory-cache-policy")
        try:
            y, _ = regrid(x, inv.request_grid(gin), inv.request_grid(gout), **a)
        except ValueError as err:
            if strict and pol in ("lru", "largest") and maxi is not None and e.nbytes() > maxi:
                ctx.label("strict-refused")
                return
            fail(f"{gin}->{gout} in inventory {ii} failed: {err!r} (policy {pol} max {maxi} strict {strict})")
        check(y.shape == e.out_shape(), f"shape {y.shape} != {e.out_shape()}")
        check(
            inv.same_values(y, e.expected(keep), e.tol(keep)),
            lambda: f"inventory {ii} {gin}->{gout} {a['interpolation']}: wrong values (another inventory or stale data?)",
        )
        check(np.array_equal(x, keep), "input modified")
        log.append((ii, k, seed, x, y))

    try:
        for op in case["ops"]:
            ctx.label(op[0])
            if op[0] == "regrid":
                call(op[1] % len(invs), (op[2] % len(pairs), op[3]), op[4])
            elif op[0] == "again" and log:
                ii, k, seed, _, _ = log[op[1] % len(log)]
                ctx.nontrivial(dirty)
                call(ii, k, seed)
            elif op[0] == "reuse" and log:
                ii, k, _, x, _ = log[op[1] % len(log)]
                ctx.nontrivial()
                call(ii, k, op[2], x)
            elif op[0] == "again_other_inv" and log:
                _, k, seed, _, _ = log[op[1] % len(log)]
                call(op[2] % len(invs), k, seed)
            elif op[0] == "mutate_result" and log:
                y = log[op[1] % len(log)][4]
                if y.flags.writeable:
                    y[...] = -777.0
                dirty = True
            elif op[0] == "mutate_input" and log:
                log[op[1] % len(log)][3][...] = 555.0
                dirty = True
            elif op[0] == "clear":
                clear_memory_cache()
                dirty = True
            elif op[0] == "policy":
                config.set("weights-memory-cache-policy", op[1])
                dirty = True
            elif op[0] == "size":
                config.set("maximum-weights-memory-cache-size", op[1])
                dirty = True
            elif op[0] == "strict":
                config.set("weights-memory-cache-strict-mode", op[1])
            elif op[0] == "disk":
                config.set("cache-policy", op[1])
            elif op[0] == "push":
                cm = config.temporary(
                    {"weights-memory-cache-policy": op[1], "maximum-weights-memory-cache-size": op[2]}
                )
                cm.__enter__()
                frames.append(cm)
                dirty = True
            elif op[0] == "pop" and frames:
                frames.pop().__exit__(None, None, None)
                dirty = True
    finally:
        while frames:
            frames.pop().__exit__(None, None, None)
        stack.close()


def parts(tier):
    return [Part("history", CASE, run, quick=2400, thorough=8000, budget=110)]
