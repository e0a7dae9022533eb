import os
import pathlib
import struct

import numpy as np
from hypothesis import strategies as st
from vp import Part, check, fail

PROPERTY = "C23"
RULE = (
    "matrix: a case is a sparse matrix (0-40 rows and columns or more, any sparsity, empty rows, ordered and unordered indices, "
    "zeros stored, special values) written here in MIR's cached-matrix format with either byte order and 4- or 8-byte scalars; "
    "oracles: the triples read back, products, and the same after npz and through an inventory. griddef: coordinate lists and arrays of all types; "
    "oracle: a parser written here. corrupt: truncations at every kind of place, changed tags, sizes, counts and lengths; "
    "oracle: an exception. bytes: random changes of bytes; oracle: an exception or a valid matrix of the shape in the header. Non-trivial: at least "
    "two stored values."
)
ASSUMPTIONS = [
    "indices of 4 bytes, as MIR writes them",
    "a change of the number of columns that leaves all the indices inside cannot be detected",
]

MATRIX = st.fixed_dictionaries(
    dict(
        rows=st.one_of(st.integers(0, 6), st.integers(0, 40), st.sampled_from([300, 1000])),
        cols=st.one_of(st.integers(1, 6), st.integers(1, 40), st.sampled_from([300, 100000])),
        seed=st.integers(0, 2**31 - 1),
        per_row=st.integers(0, 5),
        little=st.sampled_from([True, True, False]),
        scalar=st.sampled_from([4, 8, 8]),
        order=st.sampled_from(["sorted", "sorted", "reversed", "shuffled"]),
        special=st.sampled_from([None, None, "zero", "tiny", "nan", "huge"]),
        flag=st.sampled_from([1, 1, 255]),
    )
)


def triples(m):
    """-> outer, inner, data (little-endian native arrays)"""
    rs = np.random.RandomState(m["seed"])
    rows, cols = m["rows"], m["cols"]
    n = rs.randint(0, min(m["per_row"], cols) + 1, size=rows)
    outer = np.concatenate([[0], np.cumsum(n)]).astype("u4")
    inner = []
    for k in n:
        c = np.sort(rs.choice(cols, size=k, replace=False)) if cols <= 1000 else np.unique(rs.randint(0, cols, size=4 * k + 4))[:k]
        assert len(c) == k
        if m["order"] == "reversed":
            c = c[::-1]
        elif m["order"] == "shuffled":
            c = rs.permutation(c)
        inner.append(c)
    inner = np.concatenate(inner).astype("u4") if inner else np.zeros(0, "u4")
    data = rs.uniform(-1, 2, size=inner.size)
    if m["special"] and data.size:
        k = rs.randint(0, data.size, size=2)
        data[k] = {"zero": 0.0, "tiny": 1e-40, "nan": np.nan, "huge": 1e38}[m["special"]]
    return outer, inner, data.astype("f4" if m["scalar"] == 4 else "f8")


UL, INT, BLOB = 10, 5, 21


def encode(m):
    """-> (bytes, [(offset, kind, name)])"""
    outer, inner, data = triples(m)
    e = "<" if m["little"] else ">"
    out = b""
    marks = []

    def number(tag, v, name):
        nonlocal out
        marks.append((len(out), "tag", name))
        marks.append((len(out) + 1, "u4", name))
        out += struct.pack(">BL", tag, v)

    number(UL, m["rows"], "rows")
    number(UL, m["cols"], "cols")
    number(UL, data.size, "nnz")
    number(INT, m["flag"] if m["little"] else 0, "little")
    number(UL, 4, "index size")
    number(UL, m["scalar"], "scalar size")
    number(UL, 8, "size size")
    for name, a, t in (("outer", outer, "u4"), ("inner", inner, "u4"), ("data", data, "f%d" % m["scalar"])):
        b = a.astype(e + t).tobytes()
        marks.append((len(out), "tag", name))
        marks.append((len(out) + 1, "u8", name + " length"))
        out += struct.pack(">BQ", BLOB, len(b)) + b
    return out, marks


def rows_of(indptr, indices, data):
    r = []
    for i in range(len(indptr) - 1):
        a, b = int(indptr[i]), int(indptr[i + 1])
        r.append(sorted((int(c), np.float64(v).tobytes()) for c, v in zip(indices[a:b], data[a:b])))
    return r


def same(z, m, what):
    outer, inner, data = triples(m)
    check(z.shape == (m["rows"], m["cols"]), f"{what}: shape {z.shape}, expected {(m['rows'], m['cols'])}")
    check(z.nnz == data.size, f"{what}: {z.nnz} values instead of {data.size}")
    check(z.data.dtype.kind == "f" and z.data.dtype.itemsize == m["scalar"], f"{what}: values of type {z.data.dtype}")
    check(rows_of(z.indptr, z.indices, z.data) == rows_of(outer, inner, data), f"{what}: not the same matrix")
    if m["special"] not in ("nan", "huge"):
        x = np.random.RandomState(1).uniform(-1, 1, m["cols"])
        y = z @ x
        want = np.zeros(m["rows"])
        np.add.at(want, np.repeat(np.arange(m["rows"]), np.diff(outer.astype(int))), data.astype("f8") * x[inner.astype(int)])
        check(y.shape == want.shape and np.abs(y - want).max(initial=0) < 1e-5, f"{what}: product differs")


def run(case, ctx):
    from scipy.sparse import load_npz

    from earthkit.regrid.utils.mir import mir_cached_matrix_to_array
    from earthkit.regrid.utils.mir import mir_cached_matrix_to_file

    m, target, strings = case
    raw, _ = encode(m)
    d = ctx.newdir("mat")
    path = os.path.join(d, "m.mat")
    with open(path, "wb") as f:
        f.write(raw)
    what = f"{m}"
    P = str if strings else pathlib.Path
    z = mir_cached_matrix_to_array(P(path))
    same(z, m, f"{what}: read")
    out = os.path.join(d, target)
    if target.endswith(".npz"):
        mir_cached_matrix_to_file(P(path), P(out))
        check(sorted(os.listdir(d)) == sorted(["m.mat", target]), f"{what}: files {os.listdir(d)}")
        same(load_npz(out), m, f"{what}: npz")
        mir_cached_matrix_to_file(P(path), P(out))
        same(load_npz(out), m, f"{what}: npz written twice")
        if m["rows"] and case[0]["special"] is None:
            served(d, m, out, what)
    else:
        try:
            mir_cached_matrix_to_file(P(path), P(out))
        except ValueError:
            pass
        else:
            fail(f"{what}: target {target} accepted")
        check(os.listdir(d) == ["m.mat"], f"{what}: files {os.listdir(d)}")
    with open(path, "rb") as f:
        check(f.read() == raw, f"{what}: the matrix file was changed")
    ctx.nontrivial(z.nnz >= 2)
    ctx.label("little" if m["little"] else "big")
    ctx.label(f"{m['scalar']} bytes")


def served(d, m, npz, what):
    """the npz in an inventory regrids"""
    import json
    import shutil

    import inv
    from earthkit.regrid.array import regrid

    inv.reset_package()
    top = os.path.join(d, "inventory")
    os.makedirs(os.path.join(top, "mir_16_linear"))
    shutil.copy(npz, os.path.join(top, "mir_16_linear", "e.npz"))
    entry = dict(
        input={"grid": "ORCA2_T", "shape": [m["cols"]]}, output={"grid": "eORCA1_T", "shape": [m["rows"]]},
        interpolation=dict(engine="mir", version=16, method="linear"), nnz=0, memory=100,
    )
    with open(os.path.join(top, "index.json"), "w") as f:
        json.dump(dict(version=1, matrix=dict(e=entry)), f)
    x = np.random.RandomState(3).uniform(-1, 1, m["cols"])
    y, _ = regrid(x, {"grid": "ORCA2_T"}, {"grid": "eORCA1_T"}, backend="precomputed", inventory=top)
    outer, inner, data = triples(m)
    want = np.zeros(m["rows"])
    np.add.at(want, np.repeat(np.arange(m["rows"]), np.diff(outer.astype(int))), data.astype("f8") * x[inner.astype(int)])
    check(y.shape == want.shape and np.abs(y - want).max(initial=0) < 1e-5, f"{what}: regridding with the matrix differs")


# ------------------------------------------------------------------ griddef

COORD = st.one_of(
    st.floats(-90, 360),
    st.floats(allow_nan=False, allow_infinity=False),
    st.sampled_from([0.0, -0.0, 90.0, -90.0, 1e-300, 5e-324, 0.1, 359.99999999999994, float("inf"), float("nan")]),
    st.integers(-90, 360),
)
GRIDDEF = st.fixed_dictionaries(
    dict(
        pairs=st.lists(st.tuples(COORD, COORD), max_size=40),
        form=st.sampled_from(["list", "tuple", "f8", "f4", "i8", ">f8", "strided", "column"]),
        lon_form=st.sampled_from(["list", "f8"]),
        extra=st.sampled_from([0, 0, 0, 0, 1, -1]),
        strings=st.booleans(),
    )
)


def parse_griddef(raw):
    def ul(at):
        tag, v = struct.unpack_from(">BL", raw, at)
        check(tag == UL, f"tag {tag} at {at}")
        return v

    check(len(raw) >= 10, f"a grid definition of {len(raw)} bytes")
    check(ul(0) == 1, "version")
    n = ul(5)
    check(len(raw) == 10 + 18 * n, f"{n} points in {len(raw)} bytes")
    out = []
    for i in range(2 * n):
        tag, lo, hi = struct.unpack_from(">BLL", raw, 10 + 9 * i)
        check(tag == 14, f"tag {tag}")
        out.append(struct.unpack(">d", struct.pack(">LL", hi, lo))[0])
    return out[::2], out[1::2]


def run_griddef(case, ctx):
    from earthkit.regrid.utils.mir import mir_write_latlon_to_griddef

    la = [p[0] for p in case["pairs"]]
    lo = [p[1] for p in case["pairs"]]
    form = case["form"]
    if form in ("f4", "i8"):
        la = [x if abs(x) < 1e6 else 1.0 for x in la]
    if case["extra"] == 1:
        lo = lo + [1.0]
    elif case["extra"] == -1:
        lo = lo[:-1]
    a = {
        "list": lambda: list(la),
        "tuple": lambda: tuple(la),
        "strided": lambda: np.repeat(np.array(la, dtype="f8"), 2)[::2],
        "column": lambda: np.array([la, la], dtype="f8").T[:, 0],
    }.get(form, lambda: np.array(la).astype(form))()
    b = np.array(lo, dtype="f8") if case["lon_form"] == "f8" else lo
    d = ctx.newdir("griddef")
    path = os.path.join(d, "g.griddef")
    P = str if case["strings"] else pathlib.Path
    what = f"{len(la)} and {len(lo)} coordinates as {form}"
    if len(la) != len(lo) or not la:
        try:
            mir_write_latlon_to_griddef(P(path), a, b)
        except ValueError:
            check(os.listdir(d) == [], f"{what}: rejected but wrote a file")
            ctx.label("rejected")
            return
        fail(f"{what}: accepted")
    mir_write_latlon_to_griddef(P(path), a, b)
    with open(path, "rb") as f:
        gla, glo = parse_griddef(f.read())
    for name, got, want in (("latitudes", gla, a), ("longitudes", glo, b)):
        want = [float(x) for x in want]
        check([struct.pack(">d", x) for x in got] == [struct.pack(">d", x) for x in want], f"{what}: {name} written are {got[:4]}, given {want[:4]}")
    ctx.nontrivial(len(la) >= 2)
    ctx.label(form)


# ------------------------------------------------------------------ corruption

SMALL = MATRIX.map(lambda m: dict(m, rows=m["rows"] % 41, cols=m["cols"] % 41 + 1))
CORRUPT = st.tuples(SMALL, st.sampled_from(["cut", "cut", "cut", "tag", "number", "length", "empty"]), st.integers(0, 10**6), st.integers(1, 255))


def read(raw, ctx, what):
    from earthkit.regrid.utils.mir import mir_cached_matrix_to_array

    path = os.path.join(ctx.newdir("mat"), "m.mat")
    with open(path, "wb") as f:
        f.write(raw)
    return mir_cached_matrix_to_array(path)


def run_corrupt(case, ctx):
    m, kind, pos, by = case
    raw, marks = encode(m)
    outer, inner, data = triples(m)
    ctx.label(kind)
    ctx.nontrivial(data.size >= 2)
    what = kind
    if kind == "empty":
        bad = b""
    elif kind == "cut":
        # near a boundary of the format, or anywhere
        cuts = sorted({max(0, min(len(raw) - 1, o + k)) for o, _, _ in marks for k in (-1, 0, 1, 4, 8)} | {len(raw) - k for k in (1, 4, 8) if k <= len(raw)})
        at = cuts[pos % len(cuts)] if pos % 3 else pos % len(raw)
        bad = raw[:at]
        what = f"cut at {at} of {len(raw)}"
    elif kind == "tag":
        tags = [o for o, k, _ in marks if k == "tag"]
        at = tags[pos % len(tags)]
        bad = raw[:at] + bytes([(raw[at] + by) % 256]) + raw[at + 1 :]
        what = f"tag {raw[at]} at {at} is {bad[at]}"
    elif kind == "number":
        fields = [(o, n) for o, k, n in marks if k == "u4" and n in ("rows", "cols", "nnz", "index size", "scalar size")]
        at, name = fields[pos % len(fields)]
        old = struct.unpack_from(">L", raw, at)[0]
        if name == "cols":
            # too small for the indices
            if not data.size:
                return
            new = int(inner.max()) - by % 3
            new = max(0, new)
        else:
            new = max(0, old + (by % 7 - 3))
            if name == "scalar size" and by % 2:
                new = 12 - old
        if new == old:
            new = old + 1
            if name == "cols":
                return
        # an empty row at the end looks like rows given by the others only for the length of outer: always detected;
        # without values the size of them does not matter
        if name == "scalar size" and data.size == 0 and new in (4, 8):
            return
        bad = raw[:at] + struct.pack(">L", new) + raw[at + 4 :]
        what = f"{name} {old} is {new}"
    else:
        fields = [(o, n) for o, k, n in marks if k == "u8"]
        at, name = fields[pos % len(fields)]
        old = struct.unpack_from(">Q", raw, at)[0]
        new = max(0, old + [-8, -4, -1, 1, 4, 8, 1000, 100000][by % 8])
        if new == old:
            new = old + 1
        bad = raw[:at] + struct.pack(">Q", new) + raw[at + 8 :]
        if name == "data length" and new > old:
            pass
        what = f"{name} {old} is {new}"
    try:
        z = read(bad, ctx, what)
    except Exception:
        return
    fail(f"{m}: {what}: read without an error as a matrix of shape {z.shape} and {z.nnz} values")


FUZZ = st.tuples(SMALL, st.lists(st.tuples(st.integers(0, 10**6), st.integers(1, 255)), min_size=1, max_size=6))


def run_bytes(case, ctx):
    m, changes = case
    raw, marks = encode(m)
    bad = bytearray(raw)
    # (a length of gigabytes is not read here)
    skip = {o + k for o, kind, _ in marks if kind == "u8" for k in range(6)} | {o + k for o, kind, n in marks if kind == "u4" and n in ("rows", "cols") for k in range(2)}
    for p, by in changes:
        p %= len(bad)
        if p not in skip:
            bad[p] = (bad[p] + by) % 256
    bad = bytes(bad)
    if bad == raw:
        return
    ctx.nontrivial(m["per_row"] > 0)
    try:
        z = read(bad, ctx, "bytes")
    except Exception:
        ctx.label("rejected")
        return
    ctx.label("read")
    header = struct.unpack_from(">L", bad, 1)[0], struct.unpack_from(">L", bad, 6)[0]
    check(z.shape == header, f"{m} {changes}: shape {z.shape}, the header says {header}")
    ip = np.asarray(z.indptr).astype("i8")
    ix = np.asarray(z.indices).astype("i8")
    ok = ip[0] == 0 and (np.diff(ip) >= 0).all() and ip[-1] == ix.size == len(z.data) and (ix.size == 0 or (ix.min() >= 0 and ix.max() < z.shape[1]))
    check(ok, f"{m} {changes}: not a valid matrix: {ip} {ix} {z.shape}")


def parts(tier):
    return [
        Part("matrix", st.tuples(MATRIX, st.sampled_from(["m.npz", "m.npz", "m.npz", "x.y.npz", "a b.npz", "m.mat2", "m", "npz", "m.npz.gz"]), st.booleans()), run, quick=2400, thorough=60000, budget=40, budget_thorough=400),
        Part("griddef", GRIDDEF, run_griddef, quick=2000, thorough=50000, budget=30, budget_thorough=300),
        Part("corrupt", CORRUPT, run_corrupt, quick=4000, thorough=100000, budget=40, budget_thorough=400),
        Part("bytes", FUZZ, run_bytes, quick=3000, thorough=100000, budget=40, budget_thorough=400),
    ]
