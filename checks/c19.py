import copy

import gribs
import mirg
import numpy as np
from hypothesis import strategies as st
from vp import Part, check

PROPERTY = "C19"
RULE = (
    "A case is one to three requests, each with generated grids, values, interpolation method, any subset of the "
    "documented options (nearest_method in its documented or MIR spelling, distance, distance_tolerance, nclosest, "
    "area in list, tuple or text form, on the points of the target or between them, extra MIR options), passed through the array, GRIB (bytes, BytesIO, field) or "
    "Xarray interface. Oracle: a mir.Job configured in the check with MIR's names of the same options and the "
    "documented defaults for those left out. Non-trivial: the options change the result of their method or select an area."
)
ASSUMPTIONS = [
    "\"sample\" and \"sorted_sample\" choose points at random, so only acceptance is checked for them",
    "distances are chosen around the point spacing of the input grid, so that the options matter",
]

# documented name -> MIR name
NEAREST = {
    "distance": "distance",
    "nclosest": "nclosest",
    "distance_and_nclosest": "distance-and-nclosest",
    "distance_or_nclosest": "distance-or-nclosest",
    "nclosest_or_nearest": "nclosest-or-nearest",
    "nearest_neighbour_with_lowest_index": "nearest-neighbour-with-lowest-index",
    "automatic": None,
}
RANDOM = {"sample": "sample", "sorted_sample": "sorted-sample"}
INTERPOLATION = ["nearest-neighbour", "k-nearest-neighbours", "k-nearest-neighbours", "linear", "grid-box-average", "bilinear"]
WEIGHTING = ["no", "inverse-distance-weighting", "inverse-distance-weighting-squared", "nearest-neighbour", "shepard"]

st_options = st.fixed_dictionaries(
    {},
    optional=dict(
        interpolation=st.sampled_from(INTERPOLATION),
        nearest_method=st.sampled_from(sorted(NEAREST) + sorted(v for v in NEAREST.values() if v) + (["sample", "sorted_sample"])),
        # in units of the spacing of the input points
        distance=st.one_of(st.sampled_from([0.3, 0.8, 1.0, 1.5, 2.5]), st.floats(0.3, 3)),
        distance_tolerance=st.sampled_from([0, 1, 1000, 0.2, 0.9, 100000]),
        nclosest=st.integers(1, 9),
        extra=st.sampled_from([{"distance_weighting": w} for w in WEIGHTING]),
    ),
)
GIN = mirg.st_global(kinds=("ll", "o", "f", "h"), big=False)
REQUEST = st.fixed_dictionaries(
    dict(
        gin=GIN,
        gout=st.one_of(mirg.st_global(big=False), mirg.st_area()),
        options=st.one_of(
            st_options,
            st_options.map(lambda o: {**o, "interpolation": "k-nearest-neighbours"}),
            st_options.map(lambda o: {**o, "interpolation": "nearest-neighbour", "nearest_method": "nclosest"}),
        ),
        area_form=st.sampled_from(["list", "tuple", "text", "ints"]),
        # limits between the points of the target, a little or a lot
        shift=st.one_of(st.none(), st.tuples(*[st.sampled_from([0, 0, 1e-3, 1.25e-4, 2e-5, 1e-5, 1 / 3, 0.12345])] * 4)),
        integers=st.booleans(),
        seed=st.integers(0, 2**31 - 1),
        interface=st.sampled_from(["array", "array", "bytes", "bytesio", "field", "xarray", "dataset"]),
        named=st.sampled_from(["kwarg", "attrs"]),
    )
)


def target(req, exact):
    """the target as a user writes it, and as the job gets it"""
    g = req["gout"]
    s = mirg.spec(g)
    if "area" in s:
        a = s["area"]
        if not exact:
            a = [a[0] - req["shift"][0], a[1] + req["shift"][1], a[2] + req["shift"][2], a[3] - req["shift"][3]]
        m = {**s, "area": list(a)}
        how = req["area_form"]
        if how == "text":
            s["area"] = "/".join(str(x) for x in a)
        elif how == "tuple":
            s["area"] = tuple(a)
        elif how == "ints":
            s["area"] = [int(x) if x == int(x) else x for x in a]
        else:
            s["area"] = [float(x) for x in a]
        return s, m
    return s, dict(s)


def spacing(g):
    return {"ll": lambda: min(g[1], g[2]), "o": lambda: 90 / g[1], "f": lambda: 90 / g[1], "h": lambda: 58.6 / g[1]}[g[0]]() * 111e3


def one(req, ctx, outcomes):
    from earthkit.regrid import regrid
    from earthkit.regrid.array import regrid as regrid_array

    gin, interface = req["gin"], req["interface"]
    if interface in ("bytes", "bytesio", "field") and gin[0] in "of" and gin[1] < 2:
        gin = (gin[0], 2)
    opts = dict(req["options"])
    extra = opts.pop("extra", {})
    if extra and opts.get("interpolation") != "k-nearest-neighbours":
        extra = {}
    if "distance" in opts:
        opts["distance"] = opts["distance"] * spacing(gin)
        if req["integers"]:
            opts["distance"] = int(opts["distance"])
    if "nclosest" in opts:
        # (MIR aborts the process when asked for more points than there are)
        opts["nclosest"] = min(opts["nclosest"], mirg.size(gin))
    # (a job is configured with the names and types MIR knows)
    method = opts.get("interpolation", "linear")
    mo = {
        "interpolation": method,
        "distance": float(opts.get("distance", 1)),
        "distance_tolerance": float(opts.get("distance_tolerance", 1)),
        "nclosest": opts.get("nclosest", 4),
    }
    nm = opts.get("nearest_method", "automatic")
    nmir = NEAREST.get(nm, RANDOM.get(nm, nm))
    if nmir:
        mo["nearest_method"] = nmir
    mo.update({k.replace("_", "-"): v for k, v in extra.items()})
    g = req["gout"]
    # (the grid of an Xarray result is made of the points named by the target)
    exact = req.get("shift") is None or g[0] != "la" or min(g[5:7]) < 4 or interface in ("xarray", "dataset") or not 0 < g[3] < mirg.size(("ll",) + g[1:3]) // int(360 // g[1]) - g[5]
    sin, (sout, mout) = mirg.spec(gin), target(req, exact)
    f = mirg.field(gin, req["seed"])
    what = f"{interface} {sin}->{sout} {opts} {extra}"
    given = {**opts, **extra}
    before = copy.deepcopy((sin, sout, given))

    message = None
    if interface in ("bytes", "bytesio", "field"):
        message = gribs.message(gin, f, dict(param="2t", level=0, step=0, date=20240101, time=0, number=None, edition=2, bits=24))

    def reference(**o):
        if message is not None:
            return gribs.decode(gribs.direct(message, mout, **o))[0]
        return mirg.direct(f, sin, mout, **o)[0]

    try:
        want = reference(**mo)
        failed = None
    except Exception as e:
        want, failed = None, e
    try:
        if interface == "array":
            got, spec = regrid_array(f, sin, sout, **given)
        elif interface == "bytes":
            got = regrid(message, sout, **given)
        elif interface == "bytesio":
            import io

            got = regrid(io.BytesIO(message), grid=sout, **given)
        elif interface == "field":
            import earthkit.data

            got = regrid(earthkit.data.from_source("memory", message)[0], grid=sout, **given)
        else:
            import xarray as xr

            dims = ["latitude", "longitude"] if f.ndim == 2 else ["values"]
            da = xr.DataArray(f.copy(), dims=dims)
            if interface == "dataset":
                da = xr.Dataset({"v": da})
            if req["named"] == "attrs":
                da.attrs["gridspec"] = sin
                got = regrid(da, grid=sout, **given)
            else:
                got = regrid(da, grid=sout, grid_spec=sin, **given)
    except Exception as e:
        if failed is None:
            raise
        ctx.label("both fail")
        outcomes.append(type(e).__name__)
        return
    check(failed is None, f"{what}: gave a result, but MIR rejects these options: {failed!r}")
    check(before == (sin, sout, given), f"{what}: the arguments were changed to {(sin, sout, given)}")
    if interface == "array":
        v = got
        area = sout.get("area")
        check(("area" in spec) == (area is not None), f"{what}: returned gridspec {spec}")
    elif interface in ("bytes", "bytesio"):
        check(isinstance(got, bytes), f"{what}: result is {type(got)}")
        v = gribs.decode(got)[0]
    elif interface == "field":
        v = got.to_numpy(flatten=True)
    elif interface == "dataset":
        v = got["v"].values
    else:
        v = got.values
    size = mirg.size(g) if exact else want.size
    check(v.size == size, f"{what}: {v.size} values, target has {size}")
    v, want = np.asarray(v, dtype="float64").ravel(), want.ravel()
    if nm in RANDOM or nm in RANDOM.values():
        ctx.label("random")
        return
    check(
        np.array_equal(v, want, equal_nan=True),
        lambda: f"{what}: differs from the MIR job: {v[:5]} instead of {want[:5]}; {np.isnan(v).sum()} missing, {np.isnan(want).sum()} in the job",
    )
    ctx.label(method)
    ctx.label("interface " + interface)
    if mout.get("area"):
        ctx.label("area" if exact else "area between the points")
    base = {"interpolation": method, "distance": 1.0, "distance_tolerance": 1.0, "nclosest": 4}
    try:
        plain = reference(**base).ravel()
    except Exception:
        plain = None
    changed = plain is None or plain.shape != want.shape or not np.array_equal(plain, want, equal_nan=True)
    if changed:
        ctx.label("options matter")
    ctx.nontrivial(changed or "area" in mout)
    outcomes.append(len(v))


def run(case, ctx):
    outcomes = []
    for req in case:
        one(req, ctx, outcomes)


def parts(tier):
    return [Part("options", st.lists(REQUEST, min_size=1, max_size=3), run, quick=1200, thorough=6000, budget=60, budget_thorough=900)]
