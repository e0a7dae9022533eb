import copy
import gzip
import hashlib
import os
import warnings

import gribs
import httpd
import inv
import mirg
import numpy as np
from hypothesis import strategies as st
from vp import Part, check

PROPERTY = "C22"
RULE = (
    "arrays: a case is 1-2 inventories on disk, one served over HTTP and the system inventory (replaced by a served one), 1-6 "
    "entries each, and 1-12 requests (the grids of an entry, of another inventory's entry or of none, written in various ways, "
    "aliases of the method, arrays of all layouts and types, wrong sizes) made with interpolate() and with regrid() in either order, "
    "with the memory cache cleared or its policy changed in between; oracle: both give the product of the matrix and the "
    "values, or both fail. fieldlists: lists of 0-4 GRIB messages with known, unknown and given grids; oracle: regrid() "
    "of the list, and of each array. rejected: values of unsupported types, a backend argument. Non-trivial: a request that is served."
)
ASSUMPTIONS = [
    "the system inventory is replaced by one on a loopback server (earthkit.regrid.backends.db.SYS_DB)",
    "an input grid given for a list of fields is used for each of them (the documentation says both that and that it is rejected)",
]

GRID = inv.st_grid()
ENTRY = st.tuples(GRID, GRID, st.sampled_from(inv.METHODS), st.integers(0, 2**20))
REQUEST = st.fixed_dictionaries(
    dict(
        source=st.sampled_from(["a", "a", "b", "url", "system", "default"]),
        entry=st.integers(0, 5),
        of=st.sampled_from(["own", "own", "own", "own", "other", "swap", "method", "bad"]),
        spell=st.integers(0, 3),
        alias=st.integers(0, 2),
        seed=st.integers(0, 2**31 - 1),
        kind=inv.st_value_kind,
        order=inv.st_order,
        size=st.sampled_from([0, 0, 0, 0, 0, 0, 1, -1]),
        first=st.booleans(),
        between=st.sampled_from([None, None, None, "clear", "off", "unlimited", "largest"]),
    )
)
CASE = st.fixed_dictionaries(
    dict(
        a=st.lists(ENTRY, min_size=1, max_size=6),
        b=st.lists(ENTRY, min_size=0, max_size=3),
        requests=st.lists(REQUEST, min_size=1, max_size=12),
    )
)

SERVED = [
    (("ll", 30, 30), ("ll", 60, 45), "linear", 11),
    (("gg", "O", 2, 88), ("ll", 60, 45), "nearest-neighbour", 12),
    (("hp", 2, "nested"), ("ll", 30, 30), "linear", 13),
    (("ll", 30, 30), ("hp", 2, "ring"), "grid-box-average", 14),
    (("orca", "eORCA1_T", 40), ("ll", 30, 30), "nearest-neighbour", 15),
]
_remote = {}


def remote(ctx):
    """the URL of an inventory, and the system inventory, both on a loopback server"""
    if not _remote:
        from earthkit.regrid.backends import db

        httpd.fast_sleep()
        srv = httpd.Server()
        for top, shift in (("url", 0), ("system", 100)):
            path = os.path.join(ctx.newdir("served"), "inv")
            entries = [inv.Entry(i, o, m, s + shift) for i, o, m, s in SERVED]
            inv.write_inventory(path, entries)
            for root, _, files in os.walk(path):
                for f in files:
                    full = os.path.join(root, f)
                    with open(full, "rb") as fh:
                        data = fh.read()
                    name = os.path.relpath(full, path)
                    if name == "index.json":
                        srv.put(f"/{top}/index.json.sha256", hashlib.sha256(data).hexdigest().encode() + b"\n")
                        srv.put(f"/{top}/index.json.gz", gzip.compress(data))
                    else:
                        srv.put(f"/{top}/{name}", data)
            _remote[top] = entries
        _remote["base"] = srv.url + "/url"
        db.SYS_DB = db.MatrixDb.from_url(srv.url + "/system")
        # (one directory for all the cases)
        _remote["cache"] = ctx.newdir("cache")
    return _remote


def spell(g, how):
    d = inv.request_grid(g)
    if how == 1 and g[0] in ("gg", "hp"):
        d["grid"] = d["grid"].lower()
    elif how == 2 and g[0] == "ll":
        d["area"] = [90, 0, -90, 360]
    elif how == 2 and g[0] == "hp":
        d["order"] = g[2]
    elif how == 3 and g[0] == "ll":
        d["grid"] = tuple(float(x) for x in d["grid"])
    return d


def outcome(f):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        try:
            r = f()
        except Exception as e:
            return "failed", e, w
    return "ok", r, w


def length(x, what):
    try:
        return len(x)
    except Exception as e:
        check(False, f"{what}: the length of the result raises {e!r}")


def warned(w):
    return any(issubclass(x.category, DeprecationWarning) and "interpolate" in str(x.message) for x in w)


def run(case, ctx):
    from earthkit.regrid import clear_memory_cache, config, interpolate
    from earthkit.regrid.array import regrid

    inv.reset_package()
    rem = remote(ctx)
    config.set("user-cache-directory", rem["cache"])
    config.set("cache-policy", "user")
    entries = {"url": rem["url"], "system": rem["system"], "default": rem["system"]}
    paths = {"url": rem["base"], "system": "ecmwf", "default": None}
    for k in "ab":
        entries[k] = [inv.Entry(*e) for e in case[k]]
        paths[k] = os.path.join(ctx.newdir("inv"), "i")
        inv.write_inventory(paths[k], entries[k])
    try:
        for i, r in enumerate(case["requests"]):
            own = entries[r["source"]]
            e = own[r["entry"] % len(own)] if own else entries["a"][0]
            gin, gout, method = e.gin, e.gout, e.method
            of = r["of"]
            if of == "other":
                o = entries["url" if r["source"] in "ab" else "a"]
                o = o[r["entry"] % len(o)]
                gin, gout, method = o.gin, o.gout, o.method
            elif of == "swap":
                gin, gout = gout, gin
            elif of == "method":
                method = inv.METHODS[(inv.METHODS.index(method) + 1) % 4]
            sin, sout = spell(gin, r["spell"]), spell(gout, (r["spell"] + 1) % 4)
            if of == "bad":
                sin = [None, {"grid": "X3"}, {}, {"grid": [5, "a"]}][r["spell"]]
            hit = next((x for x in own if (x.gin, x.gout, x.method) == (gin, gout, method)), None) if of != "bad" else None
            names = inv.ALIASES.get(method, [method])
            name = names[r["alias"] % len(names)]
            x = inv.array(inv.shape(gin), r["seed"], r["kind"], r["order"])
            if r["size"]:
                x = np.resize(x.ravel(), x.size + r["size"])
            src = paths[r["source"]]
            what = f"request {i}: {sin} -> {sout} {name} from {r['source']}"
            keep = x.copy(), copy.deepcopy(sin), copy.deepcopy(sout)

            def old():
                kw = {} if src is None else dict(matrix_source=src)
                if name != "linear" or r["alias"]:
                    kw["method"] = name
                if r["alias"] == 2:
                    return interpolate(x, sin, sout, **kw)
                return interpolate(x, in_grid=sin, out_grid=sout, **kw)

            def new():
                kw = {} if src is None else dict(inventory=src)
                return regrid(x, sin, sout, interpolation=name, backend="precomputed", **kw)

            def between():
                b = r["between"]
                if b == "clear":
                    clear_memory_cache()
                elif b:
                    config.set("weights-memory-cache-policy", b)

            if r["first"]:
                a = outcome(old)
                between()
                b = outcome(new)
            else:
                b = outcome(new)
                between()
                a = outcome(old)
            check(warned(a[2]), f"{what}: no deprecation warning of interpolate()")
            check(not warned(b[2]), f"{what}: regrid() gave a deprecation warning")
            check(np.array_equal(x, keep[0], equal_nan=x.dtype.kind == "f") and (sin, sout) == keep[1:], f"{what}: arguments were changed")
            check(a[0] == b[0], lambda: f"{what}: interpolate() {a[0]} {a[1]!r:.200}, regrid() {b[0]} {b[1]!r:.200}")
            if hit is None or r["size"]:
                check(a[0] == "failed", f"{what}: no matrix or wrong size but gave a result")
                check(hit is not None or all(isinstance(z[1], ValueError) for z in (a, b)), f"{what}: failed with {a[1]!r} and {b[1]!r}")
                ctx.label("refused")
                continue
            check(a[0] == "ok", lambda: f"{what}: failed with {a[1]!r} and {b[1]!r}")
            y, (z, _) = a[1], b[1]
            check(isinstance(y, np.ndarray) and y.shape == hit.out_shape(), f"{what}: interpolate() gave {type(y)} {getattr(y, 'shape', None)}")
            check(y.dtype == z.dtype and y.shape == z.shape and np.array_equal(y, z, equal_nan=True), f"{what}: interpolate() and regrid() differ")
            check(inv.same_values(y, hit.expected(x), hit.tol(x)), f"{what}: not the product of the matrix and the values")
            ctx.nontrivial()
            ctx.label(r["source"])
    finally:
        config.reset()


SEED = st.integers(0, 2**31 - 1)
MESSAGE = st.fixed_dictionaries(
    dict(
        grid=st.one_of(
            st.tuples(st.just("ll"), st.sampled_from([10, 15, 18, 30, 22.5, 45]), st.sampled_from([10, 15, 18, 30, 22.5, 45])),
            st.tuples(st.just("o"), st.integers(2, 12)),
            st.just(("n", 32, 6114)),
            st.tuples(st.just("h"), st.sampled_from([1, 2, 4, 8]), st.sampled_from(["ring", "nested"])),
        ),
        seed=SEED,
        meta=gribs.st_meta,
    )
)
LCASE = st.fixed_dictionaries(
    dict(
        messages=gribs.st_messages(MESSAGE, max_size=4),
        same=st.booleans(),
        gout=st.one_of(
            *[st.tuples(st.just("ll"), st.sampled_from([20, 30, 45, 22.5, 60]), st.sampled_from([15, 30, 45, 22.5, 18]))] * 5,
            st.sampled_from([("gg", "O", 2, 88), ("hp", 2, "ring"), ("orca", "eORCA1_T", 40)]),
        ),
        method=st.sampled_from(inv.METHODS),
        seed=SEED,
        unknown=st.sampled_from([None] * 7 + [0, 1, 3]),
        given=st.sampled_from([None] * 5 + ["right", "right", "wrong"]),
        form=st.sampled_from(["memory", "array", "fields"]),
        first=st.booleans(),
    )
)


def inv_grid(g):
    k = g[0]
    if k == "ll":
        return g
    if k == "o":
        return ("gg", "O", g[1], mirg.size(g))
    if k == "n":
        return ("gg", "N", g[1], g[2])
    return ("hp", g[1], g[2])


KEYS = gribs.META_KEYS + ["number", "paramId", "gridType", "Ni", "Nj", "numberOfPoints"]


def run_lists(case, ctx):
    import earthkit.data as ekd

    from earthkit.regrid import interpolate, regrid
    from earthkit.regrid.array import regrid as regrid_array

    inv.reset_package()
    ms = [dict(m) for m in case["messages"]]
    if case["same"]:
        for m in ms:
            m["grid"] = ms[0]["grid"]
    messages = [gribs.message(m["grid"], mirg.field(m["grid"], m["seed"]), m["meta"]) for m in ms]
    gout, method = case["gout"], case["method"]
    entries = {}
    for i, m in enumerate(ms):
        entries.setdefault(m["grid"], inv.Entry(inv_grid(m["grid"]), gout, method, case["seed"] % 1000 + i))
    unknown = ms[case["unknown"] % len(ms)]["grid"] if ms and case["unknown"] is not None else None
    path = os.path.join(ctx.newdir("inv"), "i")
    inv.write_inventory(
        path, [e for g, e in entries.items() if g != unknown] + [inv.Entry(("ll", 90, 90), ("ll", 90, 90), "linear", 1)]
    )
    if ms:
        ds = ekd.from_source("memory", b"".join(messages))
    else:
        # an empty selection
        ds = ekd.from_source("memory", b"".join([gribs.message(("ll", 90, 90), np.ones((3, 4)), dict(param="2t", level=500, step=0, date=20240101, time=0, number=None, edition=2, bits=16))]))[0:0]
    if ms and case["form"] == "array":
        ds = ds.to_fieldlist()
    elif ms and case["form"] == "fields":
        ds = ekd.FieldList.from_fields([f for f in ds])
    sout = inv.request_grid(gout)
    given = None
    if case["given"] and ms:
        g = ms[0]["grid"] if case["given"] == "right" else ("ll", 90, 90)
        given = inv.request_grid(inv_grid(g))
    keep = [f.to_numpy(flatten=True) for f in ds]
    keep_out = copy.deepcopy(sout)
    what = f"list ({case['form']}) of {[m['grid'] for m in ms]} -> {sout} {method} in_grid={given}"

    def old():
        kw = {} if given is None else dict(in_grid=given)
        return interpolate(ds, out_grid=sout, method=method, matrix_source=path, **kw)

    def new():
        if given is not None:
            # each with the given grid
            if gout[0] != "ll":
                raise ValueError("only regular")
            return [regrid_array(f.to_numpy(flatten=True), given, sout, interpolation=method, backend="precomputed", inventory=path)[0] for f in ds]
        return regrid(ds, grid=sout, interpolation=method, backend="precomputed", inventory=path)

    if case["first"]:
        a, b = outcome(old), outcome(new)
    else:
        b, a = outcome(new), outcome(old)
    check(warned(a[2]), f"{what}: no deprecation warning")
    check(sout == keep_out, f"{what}: the target was changed")
    for f, v in zip(ds, keep):
        check(np.array_equal(f.to_numpy(flatten=True), v), f"{what}: the input was changed")
    if given is None or a[0] == "ok":
        check(a[0] == b[0], lambda: f"{what}: interpolate() {a[0]} {a[1]!r:.200}, regrid() {b[0]} {b[1]!r:.200}")
    if a[0] == "failed":
        if given is None:
            check(isinstance(a[1], ValueError), lambda: f"{what}: failed with {a[1]!r}")
            check(gout[0] != "ll" or unknown is not None, lambda: f"{what}: failed with {a[1]!r}")
        ctx.label("refused")
        return
    check(gout[0] == "ll", f"{what}: a target that is not regular lat-lon gave a result")
    r, q = a[1], b[1]
    check(isinstance(r, ekd.FieldList) and length(r, what) == len(ms) == length(q, what), f"{what}: gave {type(r)} of {len(r)}")
    ctx.nontrivial(len(ms) > 0)
    ctx.label(f"{len(ms)} fields")
    for i in range(len(ms)):
        v = r[i].to_numpy()
        check(v.shape == tuple(inv.shape(gout)), f"{what}: field {i} has shape {v.shape}")
        if given is None:
            e = entries[ms[i]["grid"]]
            check(inv.same_values(v, e.expected(keep[i]), e.tol(keep[i])), f"{what}: field {i} is not the product")
            check(np.array_equal(v, q[i].to_numpy()), f"{what}: field {i} differs from regrid()")
            for k in KEYS:
                x, y = r[i].metadata(k, default=None), q[i].metadata(k, default=None)
                check(str(x) == str(y), f"{what}: field {i}: {k} is {x}, with regrid() {y}")
        else:
            check(np.array_equal(v, q[i]), f"{what}: field {i} differs from the array regridded from the given grid")
        for k in gribs.META_KEYS + ["number", "paramId"]:
            x, y = r[i].metadata(k, default=None), ds[i].metadata(k, default=None)
            check(str(x) == str(y), f"{what}: field {i}: {k} was {y}, is {x}")
        gs = r[i].metadata().gridspec
        check([float(z) for z in gs["grid"]] == [float(z) for z in sout["grid"]], f"{what}: field {i} is on {gs}")


BAD = st.fixed_dictionaries(
    dict(
        kind=st.sampled_from(["backend", "backend", "list", "tuple", "none", "str", "bytes", "scalar", "field", "xarray", "dict"]),
        backend=st.sampled_from(["precomputed", "mir", None, "other"]),
        lists=st.booleans(),
        seed=SEED,
        after=st.booleans(),
    )
)


def run_bad(case, ctx):
    import earthkit.data as ekd
    import xarray as xr

    from earthkit.regrid import config, interpolate, memory_cache_info

    inv.reset_package()
    e = inv.Entry(("ll", 30, 30), ("ll", 90, 90), "linear", case["seed"] % 2**20)
    path = os.path.join(ctx.newdir("inv"), "i")
    inv.write_inventory(path, [e])
    x = inv.array([7, 12], case["seed"])
    msg = gribs.message(("ll", 30, 30), x, dict(param="2t", level=500, step=0, date=20240101, time=0, number=None, edition=2, bits=16))
    kw = dict(in_grid={"grid": [30, 30]}, out_grid={"grid": [90, 90]}, method="linear", matrix_source=path)
    kind = case["kind"]
    if case["after"]:
        interpolate(x, **kw)
    before = memory_cache_info(), list(config.dump())
    v = {
        "backend": ekd.from_source("memory", msg) if case["lists"] else x,
        "list": x.tolist(),
        "tuple": tuple(x.ravel()),
        "none": None,
        "str": "values",
        "bytes": msg,
        "scalar": 1.5,
        "field": ekd.from_source("memory", msg)[0],
        "xarray": xr.DataArray(x, dims=["latitude", "longitude"]),
        "dict": {"values": x},
    }[kind]
    if kind == "backend":
        kw["backend"] = case["backend"]
    ctx.label(kind)
    ctx.nontrivial()
    a = outcome(lambda: interpolate(v, **kw))
    check(a[0] == "failed" and isinstance(a[1], ValueError), lambda: f"interpolate() of {kind} ({case['backend']}): {a[0]} {a[1]!r:.200}")
    check((memory_cache_info(), list(config.dump())) == before, f"a rejected call ({kind}) changed the cache or the configuration")
    kw.pop("backend", None)
    y = interpolate(x, **kw)
    check(inv.same_values(y, e.expected(x), e.tol(x)), "the call after the rejected one is wrong")


def parts(tier):
    return [
        Part("arrays", CASE, run, quick=2400, thorough=30000, budget=40, budget_thorough=500),
        Part("fieldlists", LCASE, run_lists, quick=600, thorough=8000, budget=40, budget_thorough=400),
        Part("rejected", BAD, run_bad, quick=200, thorough=2000, budget=20, budget_thorough=100),
    ]
