import copy
import os

import gribs
import inv
import mirg
import numpy as np
from hypothesis import strategies as st
from vp import Part, check

PROPERTY = "C21"
RULE = (
    "A case is an Xarray object: a DataArray or a Dataset of 1-3 variables over a generated grid, with 0-3 further "
    "dimensions in any order (numbers, text, dates as coordinates, or none), scalar and auxiliary coordinates, float and integer types, eager or in dask chunks "
    "(horizontal ones too), or made from GRIB messages; the grid is given as attribute, keyword or by earthkit-data; target, method and "
    "backend are generated. Oracles: the array interface for every horizontal slice; the coordinates and points of the target; the "
    "coordinates and names of the input; the untouched input. Non-trivial: at least two slices that differ."
)
ASSUMPTIONS = [
    "float32 variables stay float32, so their slices agree to 1e-6 of the largest value; all others exactly",
    "variables of a Dataset all have the horizontal dimensions last (others are rejected or not looked at here)",
    "input coordinates that depend on horizontal dimensions and attributes may be dropped",
]

EXTRA = ["time", "level", "number", "step", "my dim"]
VAR = st.fixed_dictionaries(
    dict(
        dims=st.lists(st.integers(0, 2), max_size=3, unique=True),
        dtype=st.sampled_from(["float64", "float64", "float32", "int32", "int64", "int16", ">f8", ">f4"]),
        seed=st.integers(0, 2**31 - 1),
        nan=st.booleans(),
        # slices and variables that are alike except in few points
        like=st.sampled_from([None, None, None, "slices", "variable"]),
    )
)
CASE = st.fixed_dictionaries(
    dict(
        gin=mirg.st_global(kinds=("ll", "o", "f", "h"), big=False),
        gout=st.one_of(mirg.st_global(kinds=("ll", "o", "f", "h"), big=False), mirg.st_area(1)),
        method=st.sampled_from(mirg.METHODS),
        names=st.permutations(EXTRA).map(lambda p: p[:3]),
        sizes=st.tuples(*[st.integers(1, 3)] * 3),
        labels=st.tuples(*[st.sampled_from(["none", "int", "float", "text", "date"])] * 3),
        vars=st.lists(VAR, min_size=1, max_size=3),
        dataset=st.booleans(),
        aux=st.lists(st.sampled_from(["scalar", "text", "aux", "latlon", "2d"]), max_size=3, unique=True),
        chunks=st.sampled_from([None, None, "one", "whole", "auto", "cut"]),
        grid_from=st.sampled_from(["attrs", "kwarg", "kwarg"]),
        rename=st.sampled_from([False, False, True]),
        precomputed=st.sampled_from([None, None, 1, 2]),
        view=st.booleans(),
        # a source that is not global, and a target inside of it
        box=st.one_of(st.none(), st.none(), st.none(), mirg.st_area(3)),
    )
)


def labels(how, n):
    if how == "int":
        return np.arange(n) * 3 + 1
    if how == "float":
        return np.linspace(0.5, 99, n)
    if how == "text":
        return np.array([f"l{i}" for i in range(n)])
    return np.datetime64("2024-01-01T06", "ns") + np.arange(n) * np.timedelta64(6, "h").astype("timedelta64[ns]")


def inv_grid(g):
    k = g[0]
    if k == "ll" and 90 % g[2] == 0:
        return g
    if k == "o":
        return ("gg", "O", g[1], mirg.size(g))
    if k == "h":
        return ("hp", g[1], g[2])
    return None


def build(case, hdims):
    import xarray as xr

    gin = case["gin"]
    hshape = mirg.shape(gin)
    coords = {}
    for name, n, how in zip(case["names"], case["sizes"], case["labels"]):
        if how != "none":
            coords[name] = (name, labels(how, n), {"about": name})
    out = {}
    vs = case["vars"] if case["dataset"] else case["vars"][:1]
    used = set()
    for i, v in enumerate(vs):
        dims = [case["names"][k] for k in v["dims"]]
        shape = [case["sizes"][k] for k in v["dims"]]
        used.update(dims)
        rs = np.random.RandomState(v["seed"])
        dt = np.dtype(v["dtype"])
        x = rs.uniform(-300, 300, shape + list(hshape))
        if v.get("like"):
            first = rs.uniform(-300, 300, hshape) if v["like"] == "slices" else np.random.RandomState(vs[0]["seed"]).uniform(-300, 300, hshape)
            # (the values of `x` are kept in one point of every slice)
            flat = x.reshape((-1, int(np.prod(hshape))))
            for row in flat:
                k = rs.randint(0, row.size)
                keep = row[k]
                row[:] = first.ravel()
                row[k] = keep
            x = flat.reshape(x.shape)
        if v["nan"] and dt.kind == "f" and case["precomputed"]:
            x[rs.uniform(size=x.shape) < 0.05] = np.nan
        x = x.astype(dt)
        if case["view"]:
            big = np.zeros(x.shape[:-1] + (2 * x.shape[-1],), dtype=dt)
            big[..., ::2] = x
            x = big[..., ::2]
        out[f"v{i}"] = (dims + hdims, x, {"units": "K"})
    aux = {k: c for k, c in coords.items() if k in used}
    for how in case["aux"]:
        if how == "scalar":
            aux["height"] = ((), 2.0, {"units": "m"})
        elif how == "text":
            aux["origin"] = ((), "somewhere")
        elif how == "aux" and used:
            k = sorted(used)[0]
            n = case["sizes"][case["names"].index(k)]
            aux["valid"] = (k, np.arange(n) * 1.5)
        elif how == "latlon":
            if len(hdims) == 2:
                aux[hdims[0]] = (hdims[0], np.arange(hshape[0]) * -1.0)
                aux[hdims[1]] = (hdims[1], np.arange(hshape[1]) * 1.0)
            else:
                aux["latitude"] = (hdims[0], np.arange(hshape[0]) * 1.0)
                aux["longitude"] = (hdims[0], np.arange(hshape[0]) * 1.0)
        elif how == "2d":
            aux["mask"] = (hdims, np.zeros(hshape))
    ds = xr.Dataset({k: v for k, v in out.items()}, coords=aux)
    if not case["dataset"]:
        return ds["v0"].rename("the name"), used
    return ds, used


def chunk(obj, how, hdims):
    if how == "one":
        return obj.chunk({d: 1 for d in obj.dims if d not in hdims})
    if how == "whole":
        return obj.chunk()
    if how == "auto":
        return obj.chunk({d: 2 for d in obj.dims if d not in hdims})
    if how == "cut":
        return obj.chunk({hdims[-1]: max(1, obj.sizes[hdims[-1]] // 2 + 1)})
    return obj


def compare(r, src, case, hdims, reference, ctx, what):
    """r: result, src: input DataArray"""
    gout = case["gout"]
    oshape = mirg.shape(gout)
    odims = ("latitude", "longitude") if len(oshape) == 2 else ("values",)
    extra = tuple(d for d in src.dims if d not in hdims)
    check(tuple(r.dims) == extra + odims, f"{what}: dimensions {r.dims}, expected {extra + odims}")
    check(tuple(r.shape) == tuple(src.sizes[d] for d in extra) + oshape, f"{what}: shape {r.shape}")
    v = r.values
    check(v.shape == r.shape, f"{what}: computed shape {v.shape}, declared {r.shape}")
    # (what is declared before computing)
    check(v.dtype == r.dtype, f"{what}: computed type {v.dtype}, declared {r.dtype}")
    s = src.values
    hs = mirg.shape(case["gin"])
    s2 = s.reshape((-1,) + hs)
    v2 = v.reshape((-1,) + oshape)
    check(len(s2) == len(v2), f"{what}: number of slices")
    for a, b in zip(s2, v2):
        want = reference(a)
        tol = 1e-6 * max(np.nanmax(np.abs(want)) if np.isfinite(want).any() else 0, 1e-30) if s.dtype.kind == "f" and s.dtype.itemsize == 4 else 0
        with np.errstate(invalid="ignore"):
            ok = (np.abs(b - want) <= tol) | (np.isnan(b) & np.isnan(want))
        check(ok.all(), lambda: f"{what}: a slice differs from the array interface by {np.nanmax(np.abs(b - want))} ({s.dtype})")
    for name, c in src.coords.items():
        if set(c.dims) & set(hdims):
            continue
        check(name in r.coords, f"{what}: coordinate {name} is lost: {list(r.coords)}")
        check(r.coords[name].identical(c.drop_vars([x for x in c.coords if x not in r.coords[name].coords])) or r.coords[name].variable.identical(c.variable), f"{what}: coordinate {name} was changed")
    if len(s2) > 1 and not np.array_equal(s2[0], s2[1]):
        ctx.nontrivial()


def geography(r, case, what):
    gout = case["gout"]
    la, lo = points(gout)
    shape = mirg.shape(gout)
    check("latitude" in r.coords and "longitude" in r.coords, f"{what}: no coordinates of the target: {list(r.coords)}")
    if len(shape) == 2:
        check(r["latitude"].dims == ("latitude",) and r["longitude"].dims == ("longitude",), f"{what}: coordinates have dimensions {r['latitude'].dims} {r['longitude'].dims}")
        gla, glo = np.meshgrid(r["latitude"].values, r["longitude"].values, indexing="ij")
    else:
        check(r["latitude"].dims == ("values",) and r["longitude"].dims == ("values",), f"{what}: coordinates have dimensions {r['latitude'].dims} {r['longitude'].dims}")
        gla, glo = r["latitude"].values, r["longitude"].values
    check(gla.shape == shape, f"{what}: coordinates of shape {gla.shape}")
    ok = np.abs(gla.ravel() - la).max() < 1e-8 and np.abs((glo.ravel() - lo + 180) % 360 - 180).max() < 1e-8
    check(ok, f"{what}: the coordinates are not those of the target: {gla.ravel()[:3]} {glo.ravel()[:3]}, {la[:3]} {lo[:3]}")


def points(gout):
    import mir

    if gout[0] in ("ll", "la"):
        # computed here: rows and columns of the increments
        if gout[0] == "la":
            n, w, _, _ = mirg.area(gout)
        else:
            n, w = int(90 // gout[2]) * gout[2], 0
        rows, cols = mirg.shape(gout)
        la, lo = np.meshgrid([n - i * gout[2] for i in range(rows)], [w + j * gout[1] for j in range(cols)], indexing="ij")
        return la.ravel(), lo.ravel()
    la, lo = mir.Grid(**mirg.spec(gout)).to_latlons()
    return np.array(la), np.array(lo)


def run(case, ctx):
    import xarray as xr

    from earthkit.regrid import regrid
    from earthkit.regrid.array import regrid as regrid_array

    gin, gout, method = case["gin"], case["gout"], case["method"]
    method = mirg.method_for(method, gout)
    backend = {}
    if case.get("box") and case["box"][6] > 2:
        gin = _, dx, dy, n, w, rows, cols = case["box"]
        gout = ("la", dx, dy, n, w + 1, rows, cols - 1)
        case = dict(case, gin=gin, gout=gout)
        method = mirg.method_for(case["method"], gout)
        ctx.label("limited area")
    if case["precomputed"] and (inv_grid(gin) is None or inv_grid(gout) is None):
        case = dict(case, precomputed=None)
    if case["precomputed"]:
        inv.reset_package()
        path = os.path.join(ctx.newdir("inv"), "i")
        inv.write_inventory(path, [inv.Entry(inv_grid(gin), inv_grid(gout), method, case["precomputed"])])
        backend = dict(backend="precomputed", inventory=path)
        ctx.label("precomputed")
    two = len(mirg.shape(gin)) == 2
    hdims = ["latitude", "longitude"] if two else ["values"]
    kw = dict(backend, interpolation=method)
    if case["rename"]:
        hdims = ["y", "x"] if two else ["cell"]
        kw["in_dims"] = list(hdims)
        ctx.label("in_dims")
    obj, _ = build(case, hdims)
    obj = chunk(obj, case["chunks"], hdims)
    if case["chunks"]:
        ctx.label("dask " + case["chunks"])
    sin, sout = mirg.spec(gin), mirg.spec(gout)
    if case["grid_from"] == "attrs":
        obj.attrs["gridspec"] = sin
    else:
        kw["grid_spec"] = sin
    ctx.label("dataset" if case["dataset"] else "array")
    before = obj.copy(deep=True)
    chunks_before = obj.chunks if case["chunks"] else None
    kw0, sout0 = copy.deepcopy(kw), copy.deepcopy(sout)
    r = regrid(obj, grid=sout, **kw)
    what = f"{'Dataset' if case['dataset'] else 'DataArray'} {dict(obj.sizes)} {sin} -> {sout} {method} chunks={case['chunks']} {'precomputed' if backend else 'mir'}"
    check(type(r) is type(obj), f"{what}: result is {type(r)}")
    check(sin == mirg.spec(gin) and kw == kw0 and sout == sout0, f"{what}: arguments changed")

    def reference(x):
        return regrid_array(x, sin, sout0, interpolation=method, **backend)[0]

    if case["chunks"]:
        # other regridding before the result is computed does not matter
        regrid_array(mirg.field(("ll", 30, 30), 1), {"grid": [30, 30]}, {"grid": [45, 45]})
    geography(r, case, what)
    if case["dataset"]:
        check(list(r.data_vars) == list(obj.data_vars), f"{what}: variables {list(r.data_vars)}, expected {list(obj.data_vars)}")
        for k in obj.data_vars:
            ctx.label(str(obj[k].dtype))
            compare(r[k], before[k], case, hdims, reference, ctx, f"{what}: {k}")
    else:
        check(r.name == "the name", f"{what}: the name is {r.name}")
        ctx.label(str(obj.dtype))
        compare(r, before, case, hdims, reference, ctx, what)
    check(obj.identical(before), f"{what}: the input was changed")
    check(list(obj.coords) == list(before.coords), f"{what}: the coordinates of the input were changed")
    if case["chunks"]:
        check(obj.chunks == chunks_before, f"{what}: the chunks of the input were changed")
    ctx.label(f"{len(obj.dims) - len(hdims)} extra dims")


GCASE = st.fixed_dictionaries(
    dict(
        grid=gribs.st_grid().filter(lambda g: g[0] != "n"),
        steps=st.lists(st.sampled_from([0, 6, 12, 24]), min_size=1, max_size=3, unique=True),
        levels=st.lists(st.sampled_from([1000, 850, 500]), min_size=1, max_size=2, unique=True),
        params=st.lists(st.sampled_from(["t", "u", "z"]), min_size=1, max_size=2, unique=True),
        seed=st.integers(0, 2**31 - 1),
        gout=st.one_of(mirg.st_global(kinds=("ll", "o", "f", "h"), big=False), mirg.st_area(1)),
        method=st.sampled_from(mirg.METHODS),
        whole=st.booleans(),
        chunks=st.sampled_from([None, None, "one"]),
    )
)


def run_grib(case, ctx):
    """objects made by earthkit-data know their grid"""
    import earthkit.data as ekd

    from earthkit.regrid import regrid
    from earthkit.regrid.array import regrid as regrid_array

    g, gout, method = case["grid"], case["gout"], case["method"]
    method = mirg.method_for(method, gout)
    msgs = []
    n = 0
    for p in case["params"]:
        for lev in case["levels"]:
            for s in case["steps"]:
                n += 1
                v = mirg.field(g, (case["seed"] + n) % 2**31)
                msgs.append(gribs.message(g, v, dict(param=p, level=lev, step=s, date=20240101, time=0, number=None, edition=2, bits=16)))
    ds = ekd.from_source("memory", b"".join(msgs)).to_xarray()
    if case["chunks"]:
        ds = ds.chunk({d: 1 for d in ds.dims if d not in ("latitude", "longitude", "values")})
    import mir

    if int(np.prod(mir.Grid(**ds.earthkit.grid_spec).shape)) != mirg.size(g):
        # the area in messages is rounded: earthkit-data and MIR see another grid than the one of the message
        ctx.label("skipped")
        return
    names = case["params"]
    sout = mirg.spec(gout)
    what = f"GRIB {mirg.spec(g)} as Xarray {dict(ds.sizes)} -> {sout} {method}"
    hdims = ["latitude", "longitude"] if len(mirg.shape(g)) == 2 else ["values"]
    c = dict(case, gin=g)

    def reference(x):
        return regrid_array(x, mirg.spec(g), sout, interpolation=method)[0]

    if case["whole"]:
        r = regrid(ds, grid=sout, interpolation=method)
        check(sorted(r.data_vars) == sorted(names), f"{what}: variables {list(r.data_vars)}")
        geography(r, c, what)
        for k in names:
            compare(r[k], ds[k], c, hdims, reference, ctx, f"{what}: {k}")
    else:
        r = regrid(ds[names[0]], grid=sout, interpolation=method)
        geography(r, c, what)
        check(r.name == names[0], f"{what}: the name is {r.name}")
        compare(r, ds[names[0]], c, hdims, reference, ctx, what)
    ctx.label("in-" + g[0])


BAD = st.fixed_dictionaries(
    dict(
        gin=mirg.st_global(kinds=("ll", "o", "h"), big=False),
        gout=mirg.st_global(kinds=("ll", "o", "h"), big=False),
        kind=st.sampled_from(["no grid", "no target", "names", "order", "size"]),
        dataset=st.booleans(),
        seed=st.integers(0, 999),
    )
)


def run_bad(case, ctx):
    import xarray as xr

    from earthkit.regrid import regrid

    gin = case["gin"]
    x = np.stack([mirg.field(gin, case["seed"]), mirg.field(gin, case["seed"] + 1)])
    hdims = ["latitude", "longitude"] if x.ndim == 3 else ["values"]
    dims = ["time"] + hdims
    kind = case["kind"]
    kw = dict(grid=mirg.spec(case["gout"]), grid_spec=mirg.spec(gin))
    if kind == "no grid":
        del kw["grid_spec"]
    elif kind == "no target":
        del kw["grid"]
    elif kind == "names":
        dims = ["time", "a", "b"][: len(dims)]
    elif kind == "order":
        x = np.moveaxis(x, 0, -1)
        dims = dims[1:] + ["time"]
    elif kind == "size":
        x = x[..., :-1]
    da = xr.DataArray(x, dims=dims)
    obj = xr.Dataset({"a": da}) if case["dataset"] else da
    before = obj.copy(deep=True)
    ctx.nontrivial()
    ctx.label(kind)
    try:
        r = regrid(obj, **kw)
    except Exception as e:
        check(kind == "size" or isinstance(e, ValueError), f"{kind}: raised {e!r} instead of ValueError")
    else:
        check(False, f"{kind}: {dict(obj.sizes)} with {kw} gave {r.sizes}")
    check(obj.identical(before), "the input of a rejected call was changed")


def parts(tier):
    return [
        Part("slices", CASE, run, quick=500, thorough=8000, budget=60, budget_thorough=900),
        Part("grib", GCASE, run_grib, quick=100, thorough=1500, budget=40, budget_thorough=400),
        Part("rejected", BAD, run_bad, quick=100, thorough=1000, budget=30, budget_thorough=100),
    ]
