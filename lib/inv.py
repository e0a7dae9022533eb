"""Synthetic inventories of precomputed weights, and an independent weights oracle."""
import functools
import json
import os

import numpy as np
from hypothesis import strategies as st

METHODS = ["linear", "nearest-neighbour", "grid-box-average", "k-nearest"]
ALIASES = {"nearest-neighbour": ["nearest-neighbour", "nn", "nearest-neighbor"]}


# ---------------------------------------------------------------- grids (plain data)
# ("ll", dx, dy)                      global lat-lon, whole number of points
# ("la", dx, dy, n, w, nj, ni)        limited area lat-lon
# ("gg", "O"|"N", n, npoints)         reduced Gaussian
# ("hp", n, "ring"|"nested")
# ("orca", name, npoints)

LL_STEPS = [20, 30, 45, 60, 90, 22.5, 18, 36]


def st_grid(kinds=("ll", "la", "gg", "hp", "orca"), ll_steps=LL_STEPS):
    opts = []
    if "ll" in kinds:
        opts.append(st.tuples(st.just("ll"), st.sampled_from(ll_steps), st.sampled_from(ll_steps)))
    if "la" in kinds:
        opts.append(
            st.tuples(
                st.just("la"),
                st.sampled_from([1, 2.5, 5, 0.25]),
                st.sampled_from([1, 2.5, 5, 0.25]),
                st.sampled_from([60, 45.5, 30, 10]),
                st.sampled_from([-30, 0, 12.5, 100, 200]),
                st.integers(1, 6),
                st.integers(1, 6),
            )
        )
    if "gg" in kinds:
        opts.append(
            st.sampled_from([1, 2, 3, 4, 32, 80, 96, 320]).flatmap(
                lambda n: st.sampled_from(["O", "N"]).map(lambda k: ("gg", k, n, gg_points(k, n)))
            )
        )
    if "hp" in kinds:
        opts.append(st.tuples(st.just("hp"), st.sampled_from([1, 2, 4, 8, 3]), st.sampled_from(["ring", "nested"])))
    if "orca" in kinds:
        opts.append(
            st.tuples(
                st.just("orca"),
                st.sampled_from(["ORCA2", "eORCA1", "eORCA025", "ORCA025", "eORCA12"]),
                st.sampled_from(["T", "U", "V", "F", "W"]),
            ).map(lambda t: ("orca", f"{t[1]}_{t[2]}", 30 + sum(map(ord, t[1] + t[2])) % 50))
        )
    return st.one_of(*opts)


def gg_points(kind, n):
    # the number of points only has to be self-consistent inside an inventory; small, so that
    # large N do not make large matrices
    if n <= 4:
        return 4 * n * (n + 9) if kind == "O" else 8 * n * n + 4
    return 40 + n % 17 + (5 if kind == "O" else 0)


def shape(g):
    k = g[0]
    if k == "ll":
        return [int(round(180 / g[2])) + 1, int(round(360 / g[1]))]
    if k == "la":
        return [g[5], g[6]]
    if k == "gg":
        return [g[3]]
    if k == "hp":
        return [12 * g[1] * g[1]]
    if k == "orca":
        return [g[2]]
    raise ValueError(g)


def size(g):
    return int(np.prod(shape(g)))


@functools.lru_cache(None)
def first_latitude(n):
    """the northernmost Gaussian latitude"""
    return float(np.degrees(np.arcsin(np.polynomial.legendre.leggauss(2 * n)[0].max())))


def gg_area(g):
    n = g[2]
    dx = 360.0 / (4 * n + 16) if g[1] == "O" else 360.0 / (4 * n)
    north = round(first_latitude(n), 4)
    return [north, 0, -north, round(360 - dx, 4)]


def index_grid(g):
    """The grid as an inventory index describes it."""
    k = g[0]
    if k == "ll":
        return {"grid": [g[1], g[2]], "shape": shape(g), "area": [90, 0, -90, 360 - g[1]], "global": 1}
    if k == "la":
        return {"grid": [g[1], g[2]], "shape": shape(g), "area": la_area(g)}
    if k == "gg":
        return {"grid": f"{g[1]}{g[2]}", "shape": shape(g), "area": gg_area(g), "global": 1}
    if k == "hp":
        return {"grid": f"H{g[1]}", "order": g[2], "shape": shape(g)}
    if k == "orca":
        return {"grid": g[1], "shape": shape(g), "global": 1}


def la_area(g):
    return [g[3], g[4], g[3] - g[2] * (g[5] - 1), g[4] + g[1] * (g[6] - 1)]


def request_grid(g):
    """The usual way a user names the grid."""
    k = g[0]
    if k == "ll":
        return {"grid": [g[1], g[2]]}
    if k == "la":
        return {"grid": [g[1], g[2]], "area": la_area(g)}
    if k == "gg":
        return {"grid": f"{g[1]}{g[2]}"}
    if k == "hp":
        return {"grid": f"H{g[1]}"} if g[2] == "ring" else {"grid": f"H{g[1]}", "order": g[2]}
    if k == "orca":
        return {"grid": g[1]}


# ---------------------------------------------------------------- weights


def weights(rows, cols, seed, per_row=3, dtype="float64"):
    """COO triples of a deterministic weight matrix; some rows may be empty."""
    rs = np.random.RandomState(seed)
    n = rs.randint(0, per_row + 1, size=rows)
    r = np.repeat(np.arange(rows), n)
    c = rs.randint(0, cols, size=r.size)
    # no duplicate (row, col)
    key = np.unique(r.astype(np.int64) * cols + c)
    r, c = key // cols, key % cols
    w = rs.uniform(-1, 2, size=r.size)
    if r.size and rs.rand() < 0.3:
        w[rs.randint(0, r.size)] = 0.0  # an explicitly stored zero
    return r, c, w.astype(dtype)


def apply(triples, rows, x):
    """Independent oracle: W @ x from the triples."""
    r, c, w = triples
    x = np.asarray(x).reshape(-1)
    y = np.zeros(rows, dtype=np.float64)
    with np.errstate(all="ignore"):
        np.add.at(y, r, w.astype(np.float64) * x[c].astype(np.float64))
    return y


def tolerance(triples, rows, x):
    r, c, w = triples
    x = np.asarray(x).reshape(-1).astype(np.float64)
    x = np.where(np.isfinite(x), np.abs(x), 0)
    y = np.zeros(rows)
    np.add.at(y, r, np.abs(w.astype(np.float64)) * x[c])
    eps = 1e-12 if w.dtype == np.float64 else 2e-6
    return y * eps + 1e-300


def same_values(got, want, tol):
    got = np.asarray(got, dtype=np.float64).reshape(-1)
    if got.shape != want.shape:
        return False
    with np.errstate(all="ignore"):
        d = np.abs(got - want)
        ok = (d <= tol) | (got == want) | (np.isnan(got) & np.isnan(want))
    return bool(np.all(ok))


# ---------------------------------------------------------------- inventory on disk


class Entry:
    def __init__(self, gin, gout, method, seed, *, per_row=3, dtype="float64", name=None, memory=None, kind="csr_array"):
        self.gin, self.gout, self.method, self.seed = gin, gout, method, seed
        self.per_row, self.dtype, self.kind = per_row, dtype, kind
        self.rows, self.cols = size(gout), size(gin)
        self.triples = weights(self.rows, self.cols, seed, per_row, dtype)
        self.name = name
        self.memory = memory  # None: true value, "absent": left out, int: given

    def matrix(self):
        import scipy.sparse as sp

        r, c, w = self.triples
        m = sp.coo_array((w, (r, c)), shape=(self.rows, self.cols))
        if self.kind == "csr_matrix":
            return sp.csr_matrix(m)
        return sp.csr_array(m)

    def nbytes(self):
        m = self.matrix()
        return m.data.nbytes + m.indptr.nbytes + m.indices.nbytes

    def index_entry(self, version=16):
        d = dict(
            input=index_grid(self.gin),
            output=index_grid(self.gout),
            interpolation=dict(engine="mir", version=version, method=self.method),
            nnz=len(self.triples[0]),
        )
        if self.memory is None:
            d["memory"] = self.nbytes()
        elif self.memory != "absent":
            d["memory"] = self.memory
        return d

    def expected(self, x):
        return apply(self.triples, self.rows, x)

    def tol(self, x):
        return tolerance(self.triples, self.rows, x)

    def out_shape(self):
        return tuple(shape(self.gout))


def write_inventory(path, entries, extra=None, version=1, mversion=16):
    """extra: list of (position, name, raw entry) put among the good entries."""
    from scipy.sparse import save_npz

    os.makedirs(path, exist_ok=True)
    items = []
    for i, e in enumerate(entries):
        if e.name is None:
            e.name = f"e{i:03d}"
        items.append((e.name, e.index_entry(mversion)))
        mname = e.method if isinstance(e.method, str) else e.method["type"]
        d = os.path.join(path, f"mir_{mversion}_{mname}")
        os.makedirs(d, exist_ok=True)
        save_npz(os.path.join(d, e.name + ".npz"), e.matrix())
    for pos, name, raw in extra or []:
        items.insert(min(pos, len(items)), (name, raw))
    index = dict(version=version, matrix=dict(items))
    with open(os.path.join(path, "index.json"), "w") as f:
        json.dump(index, f, indent=1)
    return index


# ---------------------------------------------------------------- arrays

st_value_kind = st.sampled_from(["float64", "float64", "float32", "int64", "nan", "inf", "big", "nans", "const", "mostly"])


def array(shape_, seed, kind="float64", order="C"):
    """Deterministic array for `seed`; `order`: C, F, strided, readonly, flat, 2d."""
    rs = np.random.RandomState(seed)
    n = int(np.prod(shape_))
    x = np.round(rs.uniform(-100, 300, size=n), 3)
    if kind == "float32":
        x = x.astype(np.float32)
    elif kind == "int64":
        x = x.astype(np.int64)
    elif kind == "nan":
        x[rs.rand(n) < 0.2] = np.nan
    elif kind == "inf":
        x[rs.rand(n) < 0.1] = np.inf
        x[rs.rand(n) < 0.05] = -np.inf
    elif kind == "nans":
        x[:] = np.nan
    elif kind == "const":
        x[:] = rs.choice([0.0, -0.0, 1.0, -273.15])
    elif kind == "mostly":
        x[rs.rand(n) < 0.9] = np.nan
    elif kind == "big":
        x = x * 10.0 ** rs.randint(-30, 30, size=n)
    if order == "flat":
        return x
    x = x.reshape(shape_)
    if order == "F":
        return np.asfortranarray(x)
    if order == "strided":
        big = np.zeros([2 * s for s in x.shape], dtype=x.dtype)
        big[tuple(slice(None, None, 2) for _ in x.shape)] = x
        return big[tuple(slice(None, None, 2) for _ in x.shape)]
    if order == "readonly":
        x = x.copy()
        x.flags.writeable = False
    return x


st_order = st.sampled_from(["C", "flat", "F", "strided", "readonly"])


def reset_package():
    """Public-API reset between cases."""
    from earthkit.regrid import clear_memory_cache, config

    config.autosave = False
    config.reset()
    clear_memory_cache()
