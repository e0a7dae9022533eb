import io
import os

import gribs
import inv
import mirg
import numpy as np
from hypothesis import strategies as st
from vp import Part, check, fail

PROPERTY = "C20"
RULE = (
    "mir: a case is 0-4 GRIB messages made with ecCodes (grid, values, parameter, level, step, date, member, edition, bits), a "
    "target grid, a method and forms (bytes, BytesIO, field, list from memory or file, list of fields, slice, reordered "
    "list, array-backed list) in which they are given; oracles: the array interface on the decoded values, a MIR job on "
    "the message, the metadata and points of the target, equality of the forms, untouched inputs. precomputed: the same "
    "lists with a generated inventory; oracle: the product of matrix and values. Non-trivial: at least one message whose grid is not the target."
)
ASSUMPTIONS = [
    "GRIB results agree with the array interface to twice the packing step of the message plus 1e-6 of the largest value",
    "results equal those of a MIR job on the message bit by bit, missing values included",
]

SEED = st.integers(0, 2**31 - 1)
MESSAGE = st.fixed_dictionaries(
    dict(grid=gribs.st_grid(), seed=SEED, kind=st.sampled_from(["random", "random", "positive", "const", "spike"]), meta=gribs.st_meta, missing=st.sampled_from([0, 0, 0, 0, 1, 5]))
)
FORMS = ["memory", "file", "fields", "slice", "reversed", "array"]
CASE = st.fixed_dictionaries(
    dict(
        messages=gribs.st_messages(MESSAGE, min_size=1, max_size=4),
        gout=st.one_of(
            # (ecCodes does not encode F1)
            mirg.st_global(kinds=("ll", "o", "f"), big=False).map(lambda g: ("f", 2) if g == ("f", 1) else g),
            mirg.st_area(1),
            st.tuples(st.just("h"), st.integers(1, 8), st.just("ring")),
            st.tuples(st.just("h"), st.sampled_from([1, 2, 4, 8]), st.just("nested")),
        ),
        method=st.sampled_from(mirg.METHODS),
        default=st.booleans(),
        forms=st.lists(st.sampled_from(FORMS), min_size=1, max_size=2, unique=True),
        empty=st.sampled_from([False, False, False, True]),
    )
)


def make(m):
    g = m["grid"]
    v = mirg.field(g, m["seed"], m["kind"])
    if g[0] == "ll" and (v.shape[0] - 1) * g[2] == 180:
        # (one value per pole: MIR treats differing values at a pole differently in messages and arrays)
        v[0] = v[0, 0]
        v[-1] = v[-1, 0]
    v = v.ravel()
    if m["missing"]:
        v = v.copy()
        v[np.random.RandomState(m["seed"]).randint(0, v.size, m["missing"])] = np.nan
    return gribs.message(g, v, m["meta"])


def fieldlist(form, messages, directory):
    """-> (list, order of the messages in it)"""
    import earthkit.data as ekd

    order = list(range(len(messages)))
    if form == "file":
        path = os.path.join(directory, "in.grib")
        with open(path, "wb") as f:
            f.write(b"".join(messages))
        return ekd.from_source("file", path), order
    ds = ekd.from_source("memory", b"".join(messages))
    if form == "fields":
        return ekd.FieldList.from_fields([f for f in ds]), order
    if form == "slice":
        k = len(messages) // 2
        return ds[k:], order[k:]
    if form == "reversed":
        return ds[::-1], order[::-1]
    if form == "array":
        return ds.to_fieldlist(), order
    return ds, order


def points_of(gout):
    import mir

    s = mirg.spec(gout)
    if "area" in s:
        n, w, so, e = s["area"]
        lat = [n - i * gout[2] for i in range(gout[5])]
        lon = [w + j * gout[1] for j in range(gout[6])]
        la, lo = np.meshgrid(lat, lon, indexing="ij")
        return la.ravel(), lo.ravel()
    la, lo = mir.Grid(**s).to_latlons()
    return np.array(la), np.array(lo)


def same_points(f, gout, what):
    la, lo = points_of(gout)
    p = f.to_latlon(flatten=True)
    check(p["lat"].size == la.size, f"{what}: the result has {p['lat'].size} points, the target {la.size}")
    dlo = np.abs((p["lon"] - lo + 180) % 360 - 180)
    # (GRIB 1 stores millidegrees)
    ok = np.abs(p["lat"] - la).max() < 2e-3 and dlo.max() < 4e-3
    check(ok, f"{what}: the points of the result are not those of the target")


def keys_of(message):
    return gribs.decode(message, *gribs.META_KEYS, "number", "paramId", "dataDate", "numberOfPoints")[1]


def run(case, ctx):
    import earthkit.data as ekd

    from earthkit.regrid import regrid
    from earthkit.regrid.array import regrid as regrid_array

    directory = ctx.newdir("grib")
    if case["gout"][0] == "h":
        # (no HEALPix in edition 1)
        for m in case["messages"]:
            m["meta"] = dict(m["meta"], edition=2)
    messages = [make(m) for m in case["messages"]]
    gout, method = case["gout"], case["method"]
    method = mirg.method_for(method, gout)
    sout = mirg.spec(gout)
    kw = {} if case["default"] and method == "linear" else dict(interpolation=method)
    ctx.nontrivial(any(m["grid"] != gout for m in case["messages"]))
    ctx.label(f"{len(messages)} messages")

    refs = []
    for m, msg in zip(case["messages"], messages):
        v, _ = gribs.decode(msg)
        what = f"{mirg.spec(m['grid'])} {m['meta']} -> {sout} {method}"
        direct = gribs.decode(gribs.direct(msg, sout, interpolation=method, distance=1.0, distance_tolerance=1.0, nclosest=4))[0]
        direct = None if direct is None else direct
        out = regrid(msg, sout, **kw)
        check(type(out) is bytes and out[:4] == b"GRIB", f"{what}: result is {type(out)}")
        ov, _ = gribs.decode(out)
        check(ov.size == mirg.size(gout), f"{what}: {ov.size} values instead of {mirg.size(gout)}")
        check(np.array_equal(ov, direct, equal_nan=True), f"{what}: differs from a MIR job on the message")
        before, after = keys_of(msg), keys_of(out)
        for k in before:
            if k != "numberOfPoints":
                check(before[k] == after[k], f"{what}: {k} was {before[k]}, is {after[k]}")
        if m["missing"]:
            ctx.label("missing values")
        else:
            av, _ = regrid_array(v, mirg.spec(m["grid"]), sout, **kw)
            check(np.isfinite(ov).all(), f"{what}: missing values")
            tol = 2 * (v.max() - v.min()) / 2 ** m["meta"]["bits"] + 1e-6 * max(np.abs(v).max(), 1e-3)
            away = np.ones(ov.size, dtype=bool)
            if m["meta"]["param"] in ("u", "10u"):
                # (MIR gives vector components several values at a pole)
                away = np.abs(np.abs(points_of(gout)[0]) - 90) > 1e-6
            diff = np.abs(ov - av.ravel())[away].max(initial=0)
            check(diff <= tol, f"{what}: differs from the array interface by {diff} (tolerance {tol})")
        # the other forms of one message
        b = io.BytesIO(msg)
        b.seek(7)
        out2 = regrid(b, grid=dict(sout), **kw)
        check(type(out2) is bytes and np.array_equal(gribs.decode(out2)[0], ov, equal_nan=True), f"{what}: BytesIO differs from bytes")
        check(b.getvalue() == msg and not b.closed and b.tell() == 7, f"{what}: the BytesIO was changed")
        fld = ekd.from_source("memory", msg)[0]
        r = regrid(fld, grid=sout, **kw)
        check(isinstance(r, ekd.Field), f"{what}: a field gave {type(r)}")
        check(np.array_equal(r.to_numpy(flatten=True), ov, equal_nan=True), f"{what}: field differs from bytes")
        check(fld.message() == msg, f"{what}: the field was changed")
        same_points(r, gout, what)
        refs.append((ov, before))
        ctx.label("in-" + m["grid"][0])
    ctx.label("out-" + gout[0])

    for form in case["forms"]:
        ctx.label(form)
        ds, order = fieldlist(form, messages, directory)
        check(len(ds) == len(order), "harness")
        vals = [f.to_numpy(flatten=True) for f in ds]
        r = regrid(ds, grid=sout, **kw)
        what = f"list ({form}) of {len(ds)} -> {sout} {method}"
        check(isinstance(r, ekd.FieldList), f"{what}: result is {type(r)}")
        check(len(r) == len(order), f"{what}: {len(r)} fields")
        for i, k in enumerate(order):
            ov, md = refs[k]
            f = r[i]
            v = f.to_numpy(flatten=True)
            if form == "array":
                # (packed once more)
                m = case["messages"][k]
                check(v.shape == ov.shape, f"{what}: field {i} has {v.shape} values")
                s = np.nanmax(np.abs(ov)) if np.isfinite(ov).any() else 0
                rng = np.nanmax(vals[i]) - np.nanmin(vals[i])
                tol = 4 * rng / 2 ** min(16, m["meta"]["bits"]) + 1e-5 * max(s, 1e-3)
                check(np.array_equal(np.isnan(v), np.isnan(ov)) and np.abs(v - ov)[~np.isnan(ov)].max(initial=0) <= tol, f"{what}: field {i} differs from the message alone by {np.nanmax(np.abs(v - ov))} ({tol})")
            else:
                check(np.array_equal(v, ov, equal_nan=True), f"{what}: field {i} differs from the message alone")
            for key in gribs.META_KEYS + ["number", "paramId"]:
                x = f.metadata(key, default=None)
                check(str(x) == str(md[key]), f"{what}: field {i}: {key} was {md[key]}, is {x}")
            same_points(f, gout, f"{what}: field {i}")
        for f, v in zip(ds, vals):
            check(np.array_equal(f.to_numpy(flatten=True), v, equal_nan=True), f"{what}: an input field was changed")
        # the result can be written and read
        path = os.path.join(directory, "out.grib")
        r.to_target("file", path)
        back = ekd.from_source("file", path)
        check(len(back) == len(r), f"{what}: {len(back)} fields in the file written from the result")
        for i in range(len(r)):
            check(np.array_equal(back[i].to_numpy(flatten=True), r[i].to_numpy(flatten=True), equal_nan=True), f"{what}: field {i} differs in the file written from the result")
        if case["empty"]:
            e = regrid(ds[0:0], grid=sout, **kw)
            check(len(e) == 0, f"an empty list gave {len(e)} fields")
            ctx.label("empty")
    if len(messages) != len([m for m in messages if m == messages[0]]):
        ctx.label("different messages")


LISTS = ["memory", "file", "fields", "slice", "reversed", "array", "field"]
PMESSAGE = st.fixed_dictionaries(
    dict(
        grid=st.one_of(
            st.tuples(st.just("ll"), st.sampled_from([10, 15, 18, 30, 22.5, 45]), st.sampled_from([10, 15, 18, 30, 22.5, 45])),
            st.tuples(st.just("o"), st.integers(2, 12)),
            st.just(("n", 32, 6114)),
            st.tuples(st.just("h"), st.integers(1, 8), st.sampled_from(["ring"])),
            st.tuples(st.just("h"), st.sampled_from([1, 2, 4, 8]), st.just("nested")),
        ),
        seed=SEED,
        kind=st.sampled_from(["random", "positive", "spike"]),
        meta=gribs.st_meta,
        missing=st.just(0),
    )
)
PCASE = st.fixed_dictionaries(
    dict(
        messages=gribs.st_messages(PMESSAGE, min_size=1, max_size=4),
        gout=st.tuples(st.just("ll"), st.sampled_from([20, 30, 45, 22.5, 60]), st.sampled_from([15, 30, 45, 22.5, 18])),
        other=st.sampled_from([("gg", "O", 2, 88), ("hp", 2, "ring"), ("hp", 2, "nested"), ("orca", "eORCA1_T", 40), ("gg", "N", 2, 36)]),
        method=st.sampled_from(inv.METHODS),
        seed=SEED,
        form=st.sampled_from(LISTS),
        legacy=st.booleans(),
        unknown=st.sampled_from([None, None, 0, 1, 3]),
    )
)


def inv_grid(g):
    k = g[0]
    if k == "ll":
        return g
    if k == "o":
        return ("gg", "O", g[1], mirg.size(g))
    if k == "n":
        return ("gg", "N", g[1], g[2])
    return ("hp", g[1], g[2])


def precomputed(case, ctx):
    import earthkit.data as ekd

    from earthkit.regrid import interpolate, regrid

    inv.reset_package()
    directory = ctx.newdir("grib")
    messages = [make(m) for m in case["messages"]]
    gout, method = case["gout"], case["method"]
    method = mirg.method_for(method, gout)
    # one entry for every grid of the list, unless it is left out
    entries = {}
    for i, m in enumerate(case["messages"]):
        entries.setdefault(m["grid"], inv.Entry(inv_grid(m["grid"]), gout, method, case["seed"] % 1000 + i))
    unknown = None
    if case["unknown"] is not None:
        unknown = case["messages"][case["unknown"] % len(messages)]["grid"]
        # (the list has to hold something for the inventory)
    path = os.path.join(directory, "inv")
    targets = [inv.Entry(e.gin, case["other"], method, 5) for e in entries.values()]
    inv.write_inventory(path, [e for g, e in entries.items() if g != unknown] + targets)
    sout = inv.request_grid(gout)

    # (the legacy function takes no single field)
    legacy = case["legacy"] and case["form"] != "field"

    def call(data, grid, m=method):
        if legacy:
            return interpolate(data, out_grid=grid, method=m, matrix_source=path)
        return regrid(data, grid=grid, interpolation=m, backend="precomputed", inventory=path)

    form = case["form"]
    if form == "field":
        ds, order = ekd.from_source("memory", messages[0]), [0]
    else:
        ds, order = fieldlist(form, messages, directory)
    vals = [f.to_numpy(flatten=True) for f in ds]
    what = f"precomputed: list ({form}) of {[m['grid'] for m in case['messages']]} -> {sout} {method}"
    ctx.label(form)
    if legacy:
        ctx.label("interpolate")

    def rejected(f, why):
        try:
            f()
        except ValueError:
            ctx.label(why)
        else:
            fail(f"{what}: accepted {why}")

    # (for the legacy function only lists and fields of regular targets are documented as well)
    rejected(lambda: call(ds, inv.request_grid(case["other"])), "another kind of target")
    rejected(lambda: call(ds, sout, "no-such-method"), "an unknown method")
    data = ds[0] if form == "field" else ds
    if unknown is not None and any(case["messages"][k]["grid"] == unknown for k in order):
        rejected(lambda: call(data, sout), "a grid without weights")
        return
    r = call(data, dict(sout))
    if form == "field":
        check(isinstance(r, ekd.Field), f"{what}: a field gave {type(r)}")
        r = [r]
    else:
        check(isinstance(r, ekd.FieldList), f"{what}: result is {type(r)}")
    check(len(r) == len(order), f"{what}: {len(r)} fields")
    for i, k in enumerate(order):
        m = case["messages"][k]
        e = entries[m["grid"]]
        v = r[i].to_numpy(flatten=True)
        check(v.size == e.rows, f"{what}: field {i} has {v.size} values, expected {e.rows}")
        check(inv.same_values(v, e.expected(vals[i]), e.tol(vals[i])), lambda: f"{what}: field {i}: values differ by {np.abs(v - e.expected(vals[i])).max()}")
        md = keys_of(messages[k])
        for key in gribs.META_KEYS + ["number", "paramId"]:
            if key == "edition":
                continue
            x = r[i].metadata(key, default=None)
            check(str(x) == str(md[key]), f"{what}: field {i}: {key} was {md[key]}, is {x}")
        same_points(r[i], gout, f"{what}: field {i}")
        check(tuple(r[i].shape) == mirg.shape(gout), f"{what}: field {i} has the shape {r[i].shape}")
        ctx.nontrivial(len(e.triples[0]) > 0)
        ctx.label("in-" + m["grid"][0])
    for f, v in zip(ds, vals):
        check(np.array_equal(f.to_numpy(flatten=True), v), f"{what}: an input field was changed")


def parts(tier):
    return [
        Part("mir", CASE, run, quick=400, thorough=4000, budget=60, budget_thorough=900),
        Part("precomputed", PCASE, precomputed, quick=300, thorough=4000, budget=60, budget_thorough=600),
    ]
