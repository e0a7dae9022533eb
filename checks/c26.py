import copy
import io
import os

import gribs
import inv
import mirg
import numpy as np
from hypothesis import strategies as st
from vp import Part, check

PROPERTY = "C26"
RULE = (
    "A case is a history of 2-12 calls of regrid(), of its array form and of interpolate(), valid and invalid ones mixed: 20 kinds "
    "of data (fields, lists of fields from memory, file and arrays, messages, Xarray objects, arrays, and types that are not "
    "supported), backends (known, unknown, none), grids (right, missing, without weights, unknown), methods and inventories (right, "
    "empty, without entries), in any order and with a configuration and memory cache in any state. Oracles: which requests must be "
    "served and which rejected with ValueError; the results of the calls made alone; caches, configuration and arguments before and after. "
    "Non-trivial: a served call after a rejected one."
)
ASSUMPTIONS = [
    "options unknown to a backend and grids that MIR does not know are not generated (MIR ignores or refuses them in its own ways)",
    "hits and misses may be counted for a rejected request; entries and sizes of the cache may not change",
]

DATA = ["field", "list", "file", "arraylist", "bytes", "bytesio", "dataarray", "dataset", "ndarray"]
BAD_DATA = ["pylist", "tuple", "none", "str", "path", "int", "float", "dict", "set", "bytearray", "memoryview", "object", "generator", "class", "matrix0", "masked"]
CALL = st.fixed_dictionaries(
    dict(
        api=st.sampled_from(["regrid", "regrid", "regrid", "regrid", "array", "interpolate"]),
        data=st.one_of(st.sampled_from(DATA), st.sampled_from(DATA), st.sampled_from(DATA), st.sampled_from(BAD_DATA)),
        backend=st.sampled_from(["mir", "mir", "precomputed", "precomputed", "precomputed", "default", "other", "None", "MIR", ""]),
        grid=st.sampled_from(["good", "good", "good", "good", "none", "missing", "noweights", "unknown"]),
        method=st.sampled_from(["linear", "linear", "default", "nn", "nearest-neighbour", "grid-box-average"]),
        inventory=st.sampled_from(["good", "good", "good", "good", "empty", "noentries"]),
        source=st.integers(0, 1),
    )
)
CASE = st.fixed_dictionaries(
    dict(
        calls=st.lists(CALL, min_size=2, max_size=12),
        policy=st.sampled_from(["largest", "lru", "unlimited", "off"]),
        size=st.sampled_from([0, 1000, 10**6, 500 * 1024 * 1024]),
    )
)

# two sources, one target with weights, one without
SOURCES = [("ll", 30, 30), ("o", 2)]
INV = {("ll", 30, 30): ("ll", 30, 30), ("o", 2): ("gg", "O", 2, 88)}
TARGET, OTHER = ("ll", 60, 45), ("ll", 45, 30)
METHODS = ["linear", "nearest-neighbour"]
_made = {}


def setup(ctx):
    """data and references are made once per process"""
    if _made:
        return _made
    import earthkit.data as ekd
    import xarray as xr

    m = _made
    m["dir"] = os.path.join(os.environ["VP_SCRATCH"], f"dispatch-{os.getpid()}")
    os.makedirs(m["dir"], exist_ok=True)
    m["inv"] = os.path.join(m["dir"], "inv")
    m["entries"] = {(g, k): inv.Entry(INV[g], TARGET, k, 7 + i) for i, g in enumerate(SOURCES) for k in METHODS}
    inv.write_inventory(m["inv"], list(m["entries"].values()))
    m["noentries"] = os.path.join(m["dir"], "noentries")
    inv.write_inventory(m["noentries"], [])
    m["data"] = {}
    meta = dict(param="2t", level=500, step=6, date=20240101, time=0, number=None, edition=2, bits=24)
    for i, g in enumerate(SOURCES):
        v = mirg.field(g, 5 + i)
        if v.ndim == 2:
            v[0], v[-1] = v[0, 0], v[-1, 0]
        msg = gribs.message(g, v, meta)
        v = gribs.decode(msg)[0].reshape(v.shape)
        path = os.path.join(m["dir"], f"{i}.grib")
        with open(path, "wb") as f:
            f.write(msg + msg)
        ds = ekd.from_source("memory", msg)
        da = xr.DataArray(v, dims=["latitude", "longitude"] if v.ndim == 2 else ["values"], attrs={"gridspec": mirg.spec(g)})
        dset = xr.Dataset({"a": da, "b": da + 1})
        dset.attrs["gridspec"] = mirg.spec(g)
        m["data"][i] = dict(
            field=ds[0], list=ds, file=ekd.from_source("file", path), arraylist=ds.to_fieldlist(), bytes=msg, bytesio=msg,
            dataarray=da, dataset=dset, ndarray=v, pylist=v.tolist(), tuple=tuple(v.ravel()), none=None, str="values", path=path,
            int=3, float=2.5, dict={"values": v}, set={1.0, 2.0}, bytearray=bytearray(msg), memoryview=memoryview(msg), object=object(),
            generator=(x for x in [1.0]), **{"class": dict}, matrix0=np.float64(3), masked=None,
        )
    return m


def values(r, api, kind):
    """the result as a list of flat arrays"""
    if api == "array":
        return [np.asarray(r[0]).ravel()]
    if api == "interpolate" and kind == "ndarray":
        return [np.asarray(r).ravel()]
    if kind in ("bytes", "bytesio"):
        return [gribs.decode(r)[0]]
    if kind == "dataarray":
        return [r.values.ravel()]
    if kind == "dataset":
        return [r[k].values.ravel() for k in r.data_vars]
    if kind == "field":
        return [r.to_numpy(flatten=True)]
    return [f.to_numpy(flatten=True) for f in r]


def expected(c, m):
    """None when the request has to be rejected, else the values of the result"""
    api, kind, g = c["api"], c["data"], SOURCES[c["source"]]
    backend = {"default": "mir", "None": None}.get(c["backend"], c["backend"])
    if api == "interpolate":
        backend = "precomputed"
        if kind not in ("ndarray", "list", "file", "arraylist"):
            return None
        if c["backend"] != "default":
            return None
    elif api == "array":
        if kind != "ndarray":
            return None
    elif kind not in DATA or kind == "ndarray":
        return None
    if c["grid"] == "unknown" and (backend == "mir" or kind in ("dataarray", "dataset")):
        # (left to MIR)
        return "skip"
    if backend not in ("mir", "precomputed"):
        return None
    if c["grid"] in ("none", "missing"):
        return None
    method = {"default": "linear", "nn": "nearest-neighbour"}.get(c["method"], c["method"])
    v = m["data"][c["source"]]["ndarray"]
    vs = [v, v + 1] if kind == "dataset" else [v, v] if kind == "file" else [v]
    if backend == "precomputed":
        if kind in ("bytes", "bytesio"):
            return None
        if c["inventory"] != "good" or c["grid"] != "good":
            return None
        e = m["entries"].get((g, method))
        if e is None:
            return None
        return [e.expected(x) for x in vs]
    if c["inventory"] != "good":
        return "skip"
    target = TARGET if c["grid"] == "good" else OTHER
    key = ("mir", c["source"], method, target)
    if key not in m:
        m[key] = mirg.direct(v, mirg.spec(g), mirg.spec(target), interpolation=method)[0].ravel()
    if kind == "dataset":
        k2 = key + (1,)
        if k2 not in m:
            m[k2] = mirg.direct(v + 1, mirg.spec(g), mirg.spec(target), interpolation=method)[0].ravel()
        return [m[key], m[k2]]
    return [m[key]] * len(vs)


def state():
    from earthkit.regrid import config, memory_cache_info

    i = memory_cache_info()
    return (i.maxsize, i.currsize, i.count, i.policy), list(config.dump())


def run(case, ctx):
    import warnings

    from earthkit.regrid import config, interpolate, regrid
    from earthkit.regrid.array import regrid as regrid_array

    m = setup(ctx)
    inv.reset_package()
    config.set("weights-memory-cache-policy", case["policy"])
    config.set("maximum-weights-memory-cache-size", case["size"])
    rejected = False
    for i, c in enumerate(case["calls"]):
        api, kind = c["api"], c["data"]
        want = expected(c, m)
        if isinstance(want, str):
            continue
        g = SOURCES[c["source"]]
        data = m["data"][c["source"]][kind]
        if kind == "masked":
            data = np.ma.masked_array(m["data"][c["source"]]["ndarray"])
            if api != "regrid":
                continue
        if kind == "matrix0" and api == "array":
            continue
        keep = None
        if kind == "bytesio":
            data = io.BytesIO(data)
            data.seek(3)
        elif isinstance(data, np.ndarray):
            data = data.copy()
            keep = data.copy()
        elif kind in ("dataarray", "dataset"):
            data = data.copy(deep=True)
            keep = data.copy(deep=True)
        if api == "array" and kind in BAD_DATA:
            # (the array interface is for arrays: other types are not looked at)
            continue
        if api == "array" and kind != "ndarray":
            continue
        grid = {"good": mirg.spec(TARGET), "none": None, "noweights": mirg.spec(OTHER), "unknown": {"grid": "X3"}}.get(c["grid"])
        kw = {}
        backend = {"default": None, "None": "None"}.get(c["backend"], c["backend"])
        precomputed = backend == "precomputed" or api == "interpolate"
        if c["backend"] != "default":
            kw["backend"] = None if c["backend"] == "None" else c["backend"]
        if precomputed or c["inventory"] != "good":
            kw["matrix_source" if api == "interpolate" else "inventory"] = {"good": m["inv"], "empty": "", "noentries": m["noentries"]}[c["inventory"]]
        if backend not in ("precomputed",) and api != "interpolate":
            kw.pop("inventory", None)
        if c["method"] != "default":
            kw["method" if api == "interpolate" else "interpolation"] = c["method"]
        if api == "regrid":
            fn = regrid
            if c["grid"] != "missing":
                kw["grid"] = grid
        else:
            fn = regrid_array if api == "array" else interpolate
            if api == "array" or kind not in ("list", "file", "arraylist"):
                kw["in_grid"] = mirg.spec(g)
            if c["grid"] != "missing":
                kw["out_grid"] = grid
        what = f"call {i}: {api}({kind}, {kw})"
        kw0 = copy.deepcopy(kw)
        before = state()
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                r = fn(data, **kw)
        except Exception as e:
            check(want is None, f"{what}: failed with {e!r}")
            check(isinstance(e, ValueError), f"{what}: rejected with {e!r} instead of ValueError")
            check(state() == before, lambda: f"{what}: rejected, but the state is {state()[0]} instead of {before[0]}")
            rejected = True
            ctx.label("rejected")
        else:
            check(want is not None, f"{what}: served, it has to be rejected")
            got = values(r, api, kind)
            check(len(got) == len(want), f"{what}: {len(got)} results instead of {len(want)}")
            for a, b in zip(got, want):
                scale = np.abs(b).max(initial=0)
                packed = 1e-4 if kind in ("field", "list", "file", "arraylist", "bytes", "bytesio") else 1e-12
                check(a.shape == b.shape and np.abs(a - b).max(initial=0) <= packed * max(scale, 1), f"{what}: not the result of the call alone{' (after a rejected one)' if rejected else ''}")
            check(state()[1] == before[1], f"{what}: the configuration was changed")
            ctx.nontrivial(rejected)
            ctx.label(f"served {api} {kind}")
        check(kw == kw0, f"{what}: arguments were changed to {kw}")
        if kind == "bytesio":
            check(data.getvalue() == m["data"][c["source"]]["bytes"] and data.tell() == 3, f"{what}: the BytesIO was changed")
        elif isinstance(data, np.ndarray):
            check(np.array_equal(data, keep), f"{what}: the array was changed")
        elif keep is not None:
            check(data.identical(keep), f"{what}: the Xarray object was changed")


def parts(tier):
    return [Part("calls", CASE, run, quick=3600, thorough=60000, budget=60, budget_thorough=600)]
