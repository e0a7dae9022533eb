import copy

import mirg
import numpy as np
from hypothesis import strategies as st
from vp import Part, check

PROPERTY = "C18"
RULE = (
    "relations: a case is a global input grid (lat-lon, regular, octahedral and classical reduced Gaussian, HEALPix ring and "
    "nested), a target (those, or a box of a lat-lon grid), a method, two generated fields and weights a, b, a "
    "memory layout and other calls made in between. limited: from a box to a box inside of it with the same, larger or smaller increments. Oracles: closed-form shapes; constants, ranges, membership and "
    "linearity of the results; identity; a box equals the points of the global result; repetition. Non-trivial: the "
    "grids differ and the field is not constant."
)
ASSUMPTIONS = [
    "targets lie inside of the source (MIR crops them or leaves points outside missing) and the sizes are below 7000 points",
    "values are finite; tolerance 1e-10 relative to the largest absolute value for sums, none for membership",
]

KIND = st.sampled_from(["random", "random", "positive", "integer", "spike"])
SEED = st.integers(0, 2**31 - 1)
CASE = st.fixed_dictionaries(
    dict(
        gin=mirg.st_global(),
        gout=st.one_of(mirg.st_global(), mirg.st_global(), mirg.st_area(1)),
        method=st.sampled_from(mirg.METHODS),
        f=st.tuples(SEED, KIND),
        g=st.tuples(SEED, KIND),
        a=st.sampled_from([1.0, -1.0, 0.5, 3.0, 0.0, 1e-3]),
        b=st.sampled_from([1.0, -2.0, 0.25, 10.0]),
        layout=st.sampled_from(mirg.LAYOUTS),
        dtype=st.sampled_from(["float64", "float64", "float32", "int64", "int32", "uint8", "uint16", "uint64", "int16", "float16", ">f4", ">f8", ">i4"]),
        others=st.lists(st.tuples(mirg.st_global(big=False), mirg.st_global(big=False), st.sampled_from(mirg.METHODS), SEED), max_size=2),
        default=st.booleans(),
    )
)


def run(case, ctx):
    from earthkit.regrid.array import regrid

    gin, gout, method = case["gin"], case["gout"], case["method"]
    method = mirg.method_for(method, gout)
    f = mirg.field(gin, *case["f"])
    g = mirg.field(gin, *case["g"])
    sin, sout = mirg.spec(gin), mirg.spec(gout)
    kw = {} if case["default"] and method == "linear" else dict(interpolation=method)

    def call(values, **more):
        a, b = copy.deepcopy(sin), copy.deepcopy(sout)
        before = np.array(values, copy=True)
        r, spec = regrid(values, a, b, **kw, **more)
        check(a == sin and b == sout, f"the gridspecs were modified: {a} {b}")
        check(np.array_equal(values, before), "the input array was modified")
        check(isinstance(r, np.ndarray) and r.dtype == np.float64, f"result is {type(r)} {getattr(r, 'dtype', None)}")
        check(r.shape == mirg.shape(gout), f"{sin}->{sout} {method}: shape {r.shape}, expected {mirg.shape(gout)}")
        check_spec(spec)
        return r

    def check_spec(spec):
        import mir

        check(isinstance(spec, dict) and "grid" in spec, f"returned grid is {spec!r}")
        want = mir.Grid(**sout)
        check(mir.Grid(**spec).spec == want.spec, f"returned gridspec {spec} is not the target {sout}")

    rf = call(f)
    scale = max(np.abs(f).max(), 1e-300)
    what = f"{sin}->{sout} {method}"
    ctx.label(method)
    ctx.label("in-" + gin[0])
    ctx.label("out-" + gout[0])
    ctx.nontrivial(gin != gout and f.min() != f.max())
    eps = 1e-10
    check(np.isfinite(rf).all(), f"{what}: missing values in the result of complete values")
    check(
        rf.min() >= f.min() - eps * scale and rf.max() <= f.max() + eps * scale,
        lambda: f"{what}: result range {rf.min()}..{rf.max()}, input range {f.min()}..{f.max()}",
    )
    if method == "nearest-neighbour":
        check(np.isin(rf, f).all(), lambda: f"{what}: values that are no input values: {rf[~np.isin(rf, f)][:3]}")
    if gin == gout:
        ctx.label("identity")
        check(np.array_equal(rf, f), f"{what}: regridding to the same grid changed the values")

    # constant
    c = mirg.field(gin, case["f"][0], "const")
    rc = call(c)
    check(np.abs(rc - c.flat[0]).max() <= eps * max(abs(c.flat[0]), 1), f"{what}: constant {c.flat[0]} became {rc.min()}..{rc.max()}")

    # linearity
    a, b = case["a"], case["b"]
    rg = call(g)
    comb = a * f + b * g
    rcomb = call(comb)
    tol = 1e-10 * (abs(a) * scale + abs(b) * max(np.abs(g).max(), 1e-300))
    if method == "nearest-neighbour":
        tol = 1e-12 * (abs(a) * scale + abs(b) * np.abs(g).max())
    check(np.abs(rcomb - (a * rf + b * rg)).max() <= tol, lambda: f"{what}: not linear, off by {np.abs(rcomb - (a * rf + b * rg)).max()}")

    # a box is a part of the global target
    # (a box average depends on the extent of the grid at its edge)
    if gout[0] == "la" and method != "grid-box-average":
        r, _ = regrid(f, sin, mirg.spec(("ll", gout[1], gout[2])), **kw)
        diff = np.abs(r[mirg.box_of(gout)] - rf)
        if gin == ("ll", gout[1], gout[2]):
            # (nothing is interpolated on the global target, so the poles keep their many values; in a box they have one)
            north = mirg.area(gout)[0]
            diff = diff[[abs(north - i * gout[2]) < 90 for i in range(gout[5])]]
            if not diff.size:
                diff = np.zeros(1)
        check(diff.max() <= eps * scale, lambda: f"{what}: differs from the points of the global result by {diff.max()}")

    # form of the input
    lay = mirg.relayout(f, case["layout"])
    rl = call(lay)
    check(np.array_equal(rl, rf), f"{what}: the result depends on the layout {case['layout']}")
    if case["dtype"] != "float64":
        dt = np.dtype(case["dtype"])
        lo = (np.abs(f) % 250 if dt.kind == "u" else np.clip(f, -1000, 1000) if dt.itemsize == 2 else f).astype(dt)
        rlo = call(lo)
        ref = call(lo.astype("float64"))
        tol = 1e-5 * scale if dt.kind == "f" and dt.itemsize == 4 else 0
        check(np.abs(rlo - ref).max() <= tol, f"{what}: dtype {case['dtype']} changes the result by {np.abs(rlo - ref).max()}")

    # other calls do not matter, and an earlier result is not touched
    keep = rf.copy()
    if lay.flags.writeable:
        lay[...] = 0
    for oin, oout, m, seed in case["others"]:
        regrid(mirg.field(oin, seed), mirg.spec(oin), mirg.spec(oout), interpolation=m)
    check(np.array_equal(rf, keep), f"{what}: an earlier result changed")
    again = call(f)
    check(np.array_equal(again, keep), f"{what}: the same call gives other values after other calls")
    rf[...] = -1
    check(np.array_equal(call(f), keep), f"{what}: modifying a result changes later ones")


REJECT = st.fixed_dictionaries(
    dict(
        gin=mirg.st_global(big=False),
        gout=mirg.st_global(big=False),
        method=st.sampled_from(mirg.METHODS),
        bad=st.sampled_from(["short", "long", "half", "double", "empty", "method"]),
        seed=SEED,
    )
)


def rejects(case, ctx):
    from earthkit.regrid.array import regrid

    gin, gout = case["gin"], case["gout"]
    f = mirg.field(gin, case["seed"])
    sin, sout = mirg.spec(gin), mirg.spec(gout)
    method = case["method"]
    first = regrid(f, sin, sout, interpolation=method)[0]
    v = f.ravel()
    bad = {
        "short": v[:-1],
        "long": np.append(v, 1.0),
        "half": v[: v.size // 2],
        "double": np.append(v, v),
        "empty": v[:0],
        "method": v,
    }[case["bad"]]
    # (MIR does not look at the method when there is nothing to interpolate)
    if case["bad"] == "method" and gin == gout:
        return
    ctx.nontrivial()
    ctx.label(case["bad"])
    try:
        r = regrid(bad, sin, sout, interpolation="no-such-method" if case["bad"] == "method" else method)
    except Exception:
        pass
    else:
        check(False, f"{sin}->{sout}: bad input ({case['bad']}) gave a result of shape {r[0].shape}")
    check(np.array_equal(regrid(f, sin, sout, interpolation=method)[0], first), "the result changed after a rejected call")


LIMITED = st.fixed_dictionaries(
    dict(
        steps=st.sampled_from([(1, 1), (2, 5), (10, 10), (0.5, 2.5), (5, 2.5)]),
        n=st.integers(1, 60),
        w=st.integers(-30, 60),
        rows=st.integers(3, 9),
        cols=st.integers(3, 9),
        cut=st.tuples(*[st.integers(0, 6)] * 4),
        step=st.sampled_from([(1, 1), (1, 1), (0.5, 0.5), (0.5, 1), (1, 2), (2, 2), (0.25, 1)]),
        method=st.sampled_from(mirg.METHODS),
        f=st.tuples(SEED, KIND),
        g=st.tuples(SEED, KIND),
        tuples=st.booleans(),
        dtype=st.sampled_from(["float64", "float64", "float32"]),
    )
)


def limited(case, ctx):
    """from a box to a box inside of it"""
    from earthkit.regrid.array import regrid

    dx, dy = case["steps"]
    north = min(max(80 - case["n"], -60), 80) // dy * dy
    west = case["w"] * dx
    rows, cols = case["rows"], case["cols"]
    # one point of the box stays around the target
    i0, j0 = min(case["cut"][0], rows - 2), min(case["cut"][1], cols - 2)
    kx, ky = case["step"]
    i1 = max(rows - 1 - case["cut"][2], i0 + 1)
    j1 = max(cols - 1 - case["cut"][3], j0 + 1)
    if north - (rows - 1) * dy < -85:
        rows = int((north + 85) // dy) + 1
        i1 = min(i1, rows - 1)
        i0 = min(i0, i1 - 1)
        if rows < 2:
            return
    if (i1 - i0) % ky:
        ky = 1
    if (j1 - j0) % kx:
        kx = 1
    method = case["method"]
    orows, ocols = int((i1 - i0) / ky) + 1, int((j1 - j0) / kx) + 1
    a_in = [north, west, north - (rows - 1) * dy, west + (cols - 1) * dx]
    a_out = [north - i0 * dy, west + j0 * dx, north - i1 * dy, west + j1 * dx]
    sin, sout = {"grid": [dx, dy], "area": a_in}, {"grid": [dx * kx, dy * ky], "area": a_out}
    if case["tuples"]:
        sout = {"grid": [dx * kx, dy * ky], "area": tuple(a_out)}
    what = f"{sin}->{sout} {method}"

    def field(seed, kind):
        return mirg.field(("la", dx, dy, 0, 0, rows, cols), seed, kind).astype(case["dtype"])

    def call(x):
        y, spec = regrid(x, sin, sout, interpolation=method)
        check(y.shape == (orows, ocols), f"{what}: shape {y.shape}, expected {(orows, ocols)}")
        import mir

        check(mir.Grid(**spec).spec == mir.Grid(grid=sout["grid"], area=a_out).spec, f"{what}: returned grid {spec}")
        return y

    f, g = field(*case["f"]), field(*case["g"])
    f0 = f.copy()
    rf = call(f)
    check(np.array_equal(f, f0), f"{what}: the input was changed")
    scale = max(float(np.abs(f).max()), 1e-300)
    eps = 1e-10 if case["dtype"] == "float64" else 1e-5
    check(np.isfinite(rf).all(), f"{what}: missing values inside of the source")
    check(rf.min() >= f.min() - eps * scale and rf.max() <= f.max() + eps * scale, f"{what}: range {rf.min()}..{rf.max()}, input {f.min()}..{f.max()}")
    if method == "nearest-neighbour":
        check(np.isin(rf, f).all(), f"{what}: values that are no input values")
    if (kx, ky) == (1, 1):
        d = np.abs(rf - f[i0 : i1 + 1, j0 : j1 + 1]).max()
        check(d <= (0 if method == "nearest-neighbour" else eps * scale), f"{what}: differs from the points of the box by {d}")
    elif method != "grid-box-average":
        # the points that are points of the source
        oi = [i for i in range(orows) if (i * ky) % 1 == 0]
        oj = [j for j in range(ocols) if (j * kx) % 1 == 0]
        want = f[np.ix_([i0 + int(i * ky) for i in oi], [j0 + int(j * kx) for j in oj])]
        d = np.abs(rf[np.ix_(oi, oj)] - want).max()
        check(d <= eps * scale, f"{what}: points of the source changed by {d}")
    if method == "linear" and (kx, ky) != (1, 1):
        # between them: within the points around
        for i in range(orows):
            for j in range(ocols):
                y, x = i0 + i * ky, j0 + j * kx
                # (the cells have straight edges, so the next row can be involved)
                ys = slice(max(int(np.floor(y)) - 1, 0), int(np.ceil(y)) + 2)
                xs = slice(int(np.floor(x)), int(np.ceil(x)) + 1)
                around = f[ys, xs]
                ok = around.min() - eps * scale <= rf[i, j] <= around.max() + eps * scale
                check(ok, lambda: f"{what}: point {i},{j} is {rf[i, j]}, around it are {around.tolist()}")
    rg = call(g)
    d = np.abs(call(f + g) - (rf + rg)).max()
    check(d <= 10 * eps * (scale + float(np.abs(g).max())), f"{what}: not linear, off by {d}")
    ctx.nontrivial(f.min() != f.max())
    ctx.label("limited " + method)


def parts(tier):
    return [
        Part("relations", CASE, run, quick=1000, thorough=6000, budget=70, budget_thorough=1500),
        Part("limited", LIMITED, limited, quick=400, thorough=4000, budget=25, budget_thorough=300),
        Part("rejected", REJECT, rejects, quick=150, thorough=1000, budget=30, budget_thorough=300),
    ]
