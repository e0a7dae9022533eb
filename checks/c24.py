import json
import os
import pathlib
import struct

import inv
import mirg
import numpy as np
import procs
from hypothesis import strategies as st
from vp import Part, check, fail

PROPERTY = "C24"
RULE = (
    "export: a case is 1-3 pairs of grids and a method whose matrices are exported from MIR as npz, as MIR file and as an "
    "array; oracle: regridding several fields directly. points: lists of coordinates (random, close to each other, differing in "
    "the interior or the last digits only) as input, target or both; oracle: the nearest points computed here. faulty: the same after an export killed at a random line, or with others at the same time. builder: a history of additions of "
    "generated weights to an inventory (new pairs, the same pair again, other methods and options, broken files) with requests in between; oracle: the product of the weights "
    "for every entry added, and the index. Non-trivial: a matrix that is not the identity; two additions."
)
ASSUMPTIONS = [
    "MIR writes a matrix only when a process computes or loads it for the first time, so a pair is exported once per process",
    "fields have one value per pole when the input grid holds the poles (MIR averages them after applying the matrix)",
    "the number of non-zeros given by MIR for a matrix is true",
]

NONE = None


def load(path):
    from scipy.sparse import load_npz

    return load_npz(path)


# ------------------------------------------------------------------ export

PAIR = st.fixed_dictionaries(
    dict(
        gin=mirg.st_global(kinds=("ll", "o", "f", "h", "n"), big=True),
        gout=mirg.st_global(kinds=("ll", "o", "f", "h"), big=False),
        method=st.sampled_from(mirg.METHODS),
        output=st.sampled_from(["npz", "npz", "mat", "none"]),
        strings=st.booleans(),
        lower=st.booleans(),
        seed=st.integers(0, 2**31 - 1),
    )
)
EXPORT = st.lists(PAIR, min_size=1, max_size=3, unique_by=lambda p: (p["gin"], p["gout"], p["method"]))


def poles(gin, v):
    if gin[0] == "ll" and (v.shape[0] - 1) * gin[2] == 180:
        v[0] = v[0, 0]
        v[-1] = v[-1, 0]
    return v


def run_export(case, ctx):
    from earthkit.regrid.array import regrid
    from earthkit.regrid.utils.mir import mir_cached_matrix_to_array
    from earthkit.regrid.utils.mir import mir_make_matrix

    d = ctx.newdir("export")
    os.makedirs(os.environ["MIR_CACHE_PATH"], exist_ok=True)
    for i, p in enumerate(case):
        gin, gout, method = p["gin"], p["gout"], p["method"]
        if gin == gout:
            # (nothing to interpolate: no matrix)
            continue
        sin, sout = mirg.spec(gin), mirg.spec(gout)
        if p["lower"] and isinstance(sout["grid"], str):
            sout["grid"] = sout["grid"].lower()
        what = f"matrix {sin} -> {sout} {method} to {p['output']}"
        path = os.path.join(d, f"m{i}.{p['output']}")
        kw = dict(in_grid=sin, out_grid=sout, interpolation=method)
        if p["output"] == "none":
            z = mir_make_matrix(**kw)
            check(z is not None, f"{what}: gave nothing")
        else:
            r = mir_make_matrix(output=path if p["strings"] else pathlib.Path(path), **kw)
            check(r is None, f"{what}: returned {r!r}")
            z = load(path) if p["output"] == "npz" else mir_cached_matrix_to_array(path)
        check(sorted(f for f in os.listdir(d) if f.startswith(f"m{i}.")) == ([] if p["output"] == "none" else [os.path.basename(path)]), f"{what}: files {os.listdir(d)}")
        check(z.shape == (mirg.size(gout), mirg.size(gin)), f"{what}: shape {z.shape}")
        for k in range(2):
            v = poles(gin, mirg.field(gin, (p["seed"] + k) % 2**31))
            want, _ = regrid(v, mirg.spec(gin), mirg.spec(gout), interpolation=method)
            got = (z @ v.ravel()).reshape(want.shape)
            diff = np.abs(got - want)
            if gout[0] == "ll" and (mirg.shape(gout)[0] - 1) * gout[2] == 180:
                # (MIR gives a pole one value)
                for row in (0, -1):
                    diff[row] = abs(got[row].mean() - want[row].mean())
            check(diff.max() < 1e-8, f"{what}: the matrix gives other values than MIR, by {diff.max()}")
        ctx.nontrivial()
        ctx.label(p["output"])
        ctx.label(f"{gin[0]}-{gout[0]}")


# ------------------------------------------------------------------ lists of coordinates

SIDE = st.one_of(
    st.tuples(st.just("points"), st.sampled_from([4, 9, 60]), st.integers(0, 10**6), st.sampled_from(["list", "array", "tuple"])),
    st.tuples(st.just("grid"), mirg.st_global(kinds=("o", "h"), big=False)),
)
BIG = st.tuples(st.sampled_from([1200, 1500, 9]), st.integers(0, 10**6), st.sampled_from(["interior", "digits", "lon"]))
POINTS = st.fixed_dictionaries(
    dict(
        kind=st.sampled_from(["pair", "pair", "similar"]),
        a=SIDE,
        b=SIDE,
        big=BIG,
        out=st.tuples(st.sampled_from([20, 60]), st.integers(0, 10**6)),
        as_input=st.booleans(),
    )
)


def cloud(n, seed):
    rs = np.random.RandomState(seed)
    la = np.degrees(np.arcsin(rs.uniform(-0.97, 0.97, n)))
    lo = rs.uniform(0, 359.9, n)
    return la, lo


def xyz(la, lo):
    la, lo = np.radians(np.asarray(la, float)), np.radians(np.asarray(lo, float))
    return np.stack([np.cos(la) * np.cos(lo), np.cos(la) * np.sin(lo), np.sin(la)], axis=-1)


def nearest_ok(z, pin, pout, what):
    """every row has weight one, on a point nearest to the target"""
    a, b = xyz(*pin), xyz(*pout)
    check(z.shape == (len(b), len(a)), f"{what}: shape {z.shape}")
    dist = ((b[:, None, :] - a[None, :, :]) ** 2).sum(-1)
    w = z.toarray()
    check(np.abs(w.sum(1) - 1).max() < 1e-9, f"{what}: weights of a point do not add up to one")
    for i in range(len(b)):
        used = np.nonzero(w[i])[0]
        check(dist[i, used].max() <= dist[i].min() + 1e-9, f"{what}: point {i} takes its value from {used}, {dist[i, used]}, the nearest is {dist[i].argmin()}, {dist[i].min()}")


def run_points(case, ctx):
    import mir

    from earthkit.regrid.utils.mir import mir_make_matrix

    d = ctx.newdir("points")
    os.makedirs(os.environ["MIR_CACHE_PATH"], exist_ok=True)

    def side(s, prefix):
        if s[0] == "grid":
            la, lo = mir.Grid(**mirg.spec(s[1])).to_latlons()
            return {f"{prefix}_grid": mirg.spec(s[1])}, (np.array(la), np.array(lo))
        la, lo = cloud(s[1], s[2])
        f = {"list": lambda x: x.tolist(), "tuple": lambda x: tuple(x.tolist()), "array": lambda x: x}[s[3]]
        return {f"{prefix}_lat": f(la), f"{prefix}_lon": f(lo)}, (la, lo)

    if case["kind"] == "pair":
        ka, pa = side(case["a"], "in")
        kb, pb = side(case["b"], "out")
        if pa[0].size == pb[0].size and np.array_equal(pa[0], pb[0]):
            return
        out = os.path.join(d, "p.npz")
        mir_make_matrix(**ka, **kb, output=pathlib.Path(out), interpolation="nn")
        nearest_ok(load(out), pa, pb, f"{case['a']} -> {case['b']}")
        ctx.nontrivial()
        ctx.label(f"{case['a'][0]}-{case['b'][0]}")
        return
    # two lists that look alike, one after the other
    n, seed, how = case["big"]
    la, lo = cloud(n, seed)
    la2, lo2 = la.copy(), lo.copy()
    if how == "interior":
        k = slice(max(3, n // 3), n - max(3, n // 3))
        la2[k] = -la[k]
    elif how == "digits":
        # nearly on one place: which is nearest depends on the last digits
        la[:] = 10 + np.arange(n) * 1e-9
        la2[:] = la[::-1]
        lo[:] = lo2[:] = 20
    else:
        k = slice(max(3, n // 3), n - max(3, n // 3))
        lo2[k] = (lo[k] + 180) % 360
    ctx.label(how)
    ctx.nontrivial()
    other = cloud(*case["out"])
    for i, (a, o) in enumerate([(la, lo), (la2, lo2)]):
        out = os.path.join(d, f"s{i}.npz")
        if how == "digits":
            # (the grid definition that MIR is given, found by what it contains)
            before = set(os.listdir(os.environ["MIR_CACHE_PATH"]))
            mir_make_matrix(in_lat=a, in_lon=o, out_lat=other[0], out_lon=other[1], output=pathlib.Path(out), interpolation="nn")
            new = [f for f in os.listdir(os.environ["MIR_CACHE_PATH"]) if f.endswith(".griddef")]
            found = [griddef(os.path.join(os.environ["MIR_CACHE_PATH"], f)) for f in new]
            check(any(np.array_equal(x, a) and np.array_equal(y, o) for x, y in found), f"list {i} of {n} points differing in the last digits: no grid definition with these points was written")
            continue
        if case["as_input"]:
            mir_make_matrix(in_lat=a, in_lon=o, out_lat=other[0], out_lon=other[1], output=pathlib.Path(out), interpolation="nn")
            nearest_ok(load(out), (a, o), other, f"list {i} of {n} points ({how})")
        else:
            mir_make_matrix(out_lat=a, out_lon=o, in_lat=other[0], in_lon=other[1], output=pathlib.Path(out), interpolation="nn")
            nearest_ok(load(out), other, (a, o), f"list {i} of {n} points ({how})")


# an earlier or parallel export of the same points that does not get to its end

FAULTY = st.fixed_dictionaries(
    dict(
        n=st.integers(6, 60),
        seed=st.integers(0, 2**31 - 1),
        out=st.tuples(st.integers(6, 12), st.integers(0, 2**20)),
        as_input=st.booleans(),
        fault=st.one_of(
            st.tuples(st.just("crash"), st.floats(0, 1, width=16)),
            st.tuples(st.just("crash"), st.floats(0, 1, width=16)),
            st.tuples(st.just("parallel"), st.integers(0, 10**6)),
        ),
    )
)


def run_faulty(case, ctx):
    import mir  # noqa (once, before the fork)
    import scipy.sparse  # noqa
    import yaml  # noqa

    from earthkit.regrid.utils.mir import mir_make_matrix

    os.makedirs(os.environ["MIR_CACHE_PATH"], exist_ok=True)
    d = ctx.newdir("faulty")
    pts = cloud(case["n"], case["seed"])
    other = cloud(*case["out"])
    pin, pout = (pts, other) if case["as_input"] else (other, pts)
    kind, k = case["fault"]

    def make(name):
        out = os.path.join(d, name)
        mir_make_matrix(in_lat=pin[0], in_lon=pin[1], out_lat=pout[0], out_lon=pout[1], output=pathlib.Path(out), interpolation="nn")
        return load(out)

    def good(child, name, jit=None):
        if jit is not None:
            procs.jitter(jit, ("utils/mir.py", "utils/stream.py"), share=0.01)
        nearest_ok(make(name), pin, pout, f"{case['n']} points, {kind}")

    def broken(child):
        # (a full disk would also damage MIR's own files)
        procs.crash_at(1 + int(k * (80 + 8 * (case["n"] + case["out"][0]))), ("utils/mir.py", "utils/stream.py"))
        try:
            make("first.npz")
        except Exception:
            child.say("failed")

    ctx.label(kind)
    if kind == "parallel":
        cs = [procs.Child(good, f"{i}.npz", k + i) for i in range(3)]
    else:
        c = procs.Child(broken)
        state = c.wait(60)
        check(state in ("done", "killed"), f"the process {state}")
        ctx.label(state)
        ctx.nontrivial(state == "killed" or c.said() == ["failed"])
        cs = [procs.Child(good, "again.npz")]
    first = None
    for c in cs:
        try:
            state = c.wait(60)
            check(state == "done", f"the process {state}")
        except Exception as e:
            first = first or e
    if first is not None:
        raise first
    ctx.nontrivial(kind == "parallel")


def griddef(path):
    with open(path, "rb") as f:
        raw = f.read()
    n = struct.unpack_from(">L", raw, 6)[0]
    v = []
    for i in range(2 * n):
        _, lo, hi = struct.unpack_from(">BLL", raw, 10 + 9 * i)
        v.append(struct.unpack(">d", struct.pack(">LL", hi, lo))[0])
    return np.array(v[::2]), np.array(v[1::2])


# ------------------------------------------------------------------ builder

GRID = inv.st_grid()
ADD = st.fixed_dictionaries(
    dict(
        gin=GRID,
        gout=GRID,
        method=st.sampled_from(inv.METHODS),
        seed=st.integers(0, 2**20),
        like=st.sampled_from([None, None, None, "same", "method", "target", "options", "version"]),
        dict_method=st.sampled_from([False, False, True]),
        glob=st.sampled_from(["entry", "args", "args"]),
        scalar=st.sampled_from([8, 8, 4]),
        little=st.booleans(),
        bad=st.sampled_from([None, None, None, None, "missing", "cut", "type"]),
        ask=st.booleans(),
        index=st.booleans(),
    )
)
BUILD = st.tuples(st.lists(ADD, min_size=1, max_size=7), st.booleans(), st.sampled_from(["off", "largest", "unlimited"]))


def matfile(e, scalar, little):
    r, c, w = e.triples
    en = "<" if little else ">"
    outer = np.concatenate([[0], np.cumsum(np.bincount(r, minlength=e.rows))]).astype(en + "u4")
    out = b""
    for tag, v in ((10, e.rows), (10, e.cols), (10, len(w)), (5, int(little)), (10, 4), (10, scalar), (10, 8)):
        out += struct.pack(">BL", tag, v)
    for a in (outer, c.astype(en + "u4"), w.astype(f"{en}f{scalar}")):
        b = a.tobytes()
        out += struct.pack(">BQ", 21, len(b)) + b
    return out


def mir_grid(g, glob):
    """a grid as MIR's interpolation dump describes it"""
    k = g[0]
    box = dict(zip(("north", "west", "south", "east"), inv.index_grid(g).get("area", [])))
    if k in ("ll", "la"):
        rows, cols = inv.shape(g)
        d = dict(type="regular_ll", increments=dict(west_east=g[1], south_north=g[2]), ni=cols, nj=rows, bbox=box)
    elif k == "gg":
        n = inv.size(g)
        first = 20 if g[1] == "O" else 18
        pl = [first, first + (4 if g[1] == "O" else 7)]
        d = dict(type="reduced_gg", N=g[2], pl=pl + [n - sum(pl)], bbox=box)
    elif k == "hp":
        return dict(type="healpix", grid=f"H{g[1]}", order=g[2])
    else:
        a, b = g[1].split("_")
        return dict(type="orca", unstructuredGridType=a, unstructuredGridSubtype=b)
    if glob and k != "la":
        d["global"] = 1
    return d


def run_builder(case, ctx):
    import contextlib
    import io

    from earthkit.regrid import config
    from earthkit.regrid.array import regrid
    from earthkit.regrid.utils.builder import make_matrix

    adds, own_index, policy = case
    inv.reset_package()
    config.set("weights-memory-cache-policy", policy)
    d = ctx.newdir("builder")
    top = os.path.join(d, "inventory")
    if own_index:
        os.makedirs(top)
    served = []  # entries in the order of the index
    good = 0

    def request(e, what):
        x = inv.array(inv.shape(e.gin), e.seed + 1)
        y, _ = regrid(x, inv.request_grid(e.gin), inv.request_grid(e.gout), interpolation=e.method, backend="precomputed", inventory=top)
        check(tuple(y.shape) == e.out_shape(), f"{what}: result of shape {y.shape}")
        tol = e.tol(x) + (np.abs(e.expected(x)).max(initial=0) * 1e-5 + 1e-3 if e.scalar == 4 else 0)
        check(inv.same_values(y, e.expected(x), tol), f"{what}: not the product of the weights")

    def winner(gin, gout, method):
        return next((s for s in served if (s.gin, s.gout, s.method) == (gin, gout, method)), None)

    for i, a in enumerate(adds):
        gin, gout, method = a["gin"], a["gout"], a["method"]
        options, version = {}, 16
        if a["like"] and served:
            o = served[a["seed"] % len(served)]
            gin, gout, method = o.gin, o.gout, o.method
            if a["like"] == "method":
                method = inv.METHODS[(inv.METHODS.index(method) + 1) % 4]
            elif a["like"] == "target":
                gout = a["gout"]
            elif a["like"] == "options":
                options = dict(nclosest=5 + i)
            elif a["like"] == "version":
                version = 17
        e = inv.Entry(gin, gout, method, a["seed"])
        if gin[0] == "hp" or gin[0] == "orca":
            pass
        e.scalar = a["scalar"]
        m = dict(type=method, **options) if a["dict_method"] or options else method
        doc = dict(
            input=mir_grid(gin, a["glob"] == "entry"), output=mir_grid(gout, a["glob"] == "entry"),
            interpolation=dict(engine="mir", version=version, method=m),
        )
        ident = json.dumps(doc, sort_keys=True)
        previous = next((s for s in served if s.ident == ident), None)
        if previous is not None:
            # the same weights again
            e.seed, e.triples, e.scalar = previous.seed, previous.triples, previous.scalar
        e.ident = ident
        mat, js = os.path.join(d, f"{i}.mat"), os.path.join(d, f"{i}.json")
        raw = matfile(e, e.scalar, a["little"])
        if a["bad"] == "cut":
            raw = raw[: len(raw) * 2 // 3]
        if a["bad"] == "type":
            doc["output"]["type"] = "mercator"
        if a["bad"] != "missing":
            with open(mat, "wb") as f:
                f.write(raw)
        with open(js, "w") as f:
            json.dump(dict(doc, matrix=dict(cache_file=mat, nnz=len(e.triples[2]))), f)
        what = f"addition {i}: {gin} -> {gout} {m}"
        if a["ask"] and winner(gin, gout, method) is None and i:
            # not there yet
            try:
                regrid(inv.array(inv.shape(gin), 1), inv.request_grid(gin), inv.request_grid(gout), interpolation=method, backend="precomputed", inventory=top)
            except ValueError:
                pass
            except FileNotFoundError:
                check(not served, f"{what}: FileNotFoundError before it was added")
            else:
                fail(f"{what}: served before it was added")
        index = os.path.join(top, "index.json")
        before = open(index).read() if os.path.exists(index) else None
        # (a grid is global or not when its description does not tell)
        kw = dict(global_input=gin[0] != "la", global_output=gout[0] != "la")
        if a["index"]:
            kw["index_file"] = index
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                make_matrix(js, top, **kw)
        except Exception as ex:
            check(a["bad"] is not None, f"{what}: failed with {ex!r}")
            after = open(index).read() if os.path.exists(index) else None
            check(before == after, f"{what}: failed ({a['bad']}) but changed the index")
            ctx.label("rejected")
        else:
            check(a["bad"] is None, f"{what}: accepted ({a['bad']})")
            if previous is None:
                served.append(e)
            good += 1
        for s in served if not a["ask"] else served[-1:]:
            w = winner(s.gin, s.gout, s.method)
            request(w, f"after {what}: {w.gin} -> {w.gout} {w.method}")
    if not served:
        return
    # limited areas do not serve the globe
    for s in served[-2:]:
        for gin, gout in ((s.gin, ("ll",) + s.gout[1:3]), (("ll",) + s.gin[1:3], s.gout)):
            if (s.gin if gout == s.gout else s.gout)[0] != "la" or winner(gin, gout, s.method) is not None or inv.size(gin) > 10**5:
                continue
            ctx.label("globe of an area")
            try:
                y, _ = regrid(np.ones(inv.shape(gin)), inv.request_grid(gin), inv.request_grid(gout), interpolation=s.method, backend="precomputed", inventory=top)
            except ValueError:
                continue
            fail(f"{gin} -> {gout} served with weights of {s.gin} -> {s.gout}")
    # the index, read here
    with open(os.path.join(top, "index.json")) as f:
        index = json.load(f)
    check(index["version"] == 1 and len(index["matrix"]) == len(served), f"{len(index['matrix'])} entries, {len(served)} were added")
    for s, (name, it) in zip(served, index["matrix"].items()):
        what = f"entry {s.gin} -> {s.gout} {s.method}"
        mm = it["interpolation"]["method"]
        mm = mm if isinstance(mm, str) else mm["type"]
        check(mm == s.method, f"{what}: method {mm}")
        p = os.path.join(top, f"mir_{it['interpolation']['version']}_{mm}", name + ".npz")
        check(os.path.exists(p), f"{what}: no file {p}")
        z = load(p)
        check(it["nnz"] == z.nnz == len(s.triples[2]), f"{what}: nnz {it['nnz']}, the matrix has {z.nnz}, {len(s.triples[2])} were given")
        size = z.data.nbytes + z.indices.nbytes + z.indptr.nbytes
        check(it["memory"] == size, f"{what}: memory {it['memory']}, the matrix takes {size}")
        for g, d_, n in ((s.gin, it["input"], z.shape[1]), (s.gout, it["output"], z.shape[0])):
            if "shape" in d_:
                check(int(np.prod(d_["shape"])) == n, f"{what}: shape {d_['shape']} in the index, {n} in the matrix")
            check(d_["grid"] == inv.index_grid(g)["grid"], f"{what}: grid {d_['grid']}")
    ctx.nontrivial(good >= 2)
    ctx.label(f"{len(served)} entries")


def isolated(fn):
    run = procs.isolated(fn, timeout=120)

    def wrapped(case, ctx):
        import mir  # noqa (once, before the fork)
        import scipy.sparse  # noqa
        import yaml  # noqa

        import earthkit.regrid.array  # noqa
        import earthkit.regrid.utils.mir  # noqa

        return run(case, ctx)

    return wrapped


def parts(tier):
    return [
        Part("builder", BUILD, run_builder, quick=1800, thorough=30000, budget=40, budget_thorough=400),
        Part("export", EXPORT, isolated(run_export), quick=480, thorough=6000, budget=50, budget_thorough=500),
        Part("points", POINTS, isolated(run_points), quick=600, thorough=9000, budget=50, budget_thorough=500),
        Part("faulty", FAULTY, run_faulty, quick=400, thorough=6000, budget=40, budget_thorough=400),
    ]
