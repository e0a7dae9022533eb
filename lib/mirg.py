"""Grids and direct jobs for the checks that use MIR."""
import os
import sys

os.environ.setdefault("MIR_CACHE_PATH", os.path.join(os.environ.get("VP_SCRATCH", "/tmp"), "mir"))

import numpy as np
from hypothesis import strategies as st

# MIR writes its log to file descriptors 1 and 2: keep those of the check apart
_log = os.open(os.path.join(os.environ.get("VP_SCRATCH", "/tmp"), "mir.log"), os.O_WRONLY | os.O_CREAT | os.O_APPEND)
for _n, _stream in ((1, "stdout"), (2, "stderr")):
    getattr(sys, _stream).flush()
    setattr(sys, _stream, os.fdopen(os.dup(_n), "w", buffering=1))
    os.dup2(_log, _n)
os.close(_log)

# ("ll", dx, dy) | ("f"|"o", n) | ("n", n, points) | ("h", n, "ring"|"nested")
# ("la", dx, dy, north, west, rows, cols)    a box of the global ("ll", dx, dy), target only

METHODS = ["linear", "nearest-neighbour", "grid-box-average"]
N_POINTS = {16: 1688, 32: 6114}
STEPS = [10, 12, 15, 18, 20, 22.5, 30, 36, 45, 60, 7.5]


def st_global(kinds=("ll", "o", "n", "f", "h"), big=True):
    opts = []
    if "ll" in kinds:
        opts.append(st.tuples(st.just("ll"), st.sampled_from(STEPS), st.sampled_from(STEPS)))
    if "o" in kinds:
        opts.append(st.tuples(st.just("o"), st.integers(2, 12)))
    if "f" in kinds:
        opts.append(st.tuples(st.just("f"), st.integers(1, 8)))
    if "h" in kinds:
        opts.append(st.tuples(st.just("h"), st.integers(1, 8), st.just("ring")))
        opts.append(st.tuples(st.just("h"), st.sampled_from([1, 2, 4, 8]), st.just("nested")))
    if "n" in kinds and big:
        opts.append(st.sampled_from([("n", 16, 1688), ("n", 32, 6114)]))
    return st.one_of(*opts)


def st_area(least=2):
    """A box of a global lat-lon grid, on its points."""
    return st.tuples(
        st.sampled_from([10, 15, 20, 30]),
        st.sampled_from([10, 15, 30]),
        st.integers(0, 17),
        st.integers(-18, 35),
        st.integers(least, 9),
        st.integers(least, 9),
    ).map(_area)


def method_for(method, gout):
    """(this MIR crashes with grid-box-average to a box of a single row or column)"""
    if method == "grid-box-average" and gout[0] == "la" and min(gout[5:7]) == 1:
        return "linear"
    return method


def _area(t):
    dx, dy, n, w, rows, cols = t
    nrows, ncols = 2 * int(90 // dy) + 1, int(360 // dx)
    # (this MIR fails an assertion when a box begins or ends one row away from a pole)
    n = n % (nrows - 1)
    n = 0 if n == 1 or nrows - n < 4 else n
    end = min(n + rows, nrows)
    end = nrows if end == nrows - 1 else end
    rows = end - n
    cols = min(cols, ncols)
    w = (w % (2 * ncols)) - ncols // 2
    return ("la", dx, dy, n, w, rows, cols)


def shape(g):
    k = g[0]
    if k == "ll":
        return (2 * int(90 // g[2]) + 1, int(360 // g[1]))
    if k == "la":
        return (g[5], g[6])
    if k == "f":
        return (2 * g[1], 4 * g[1])
    if k == "o":
        return (4 * g[1] * (g[1] + 9),)
    if k == "n":
        return (g[2],)
    if k == "h":
        return (12 * g[1] * g[1],)
    raise ValueError(g)


def size(g):
    return int(np.prod(shape(g)))


def area(g):
    _, dx, dy, n, w, rows, cols = g
    # the rows of the global grid are multiples of the increment
    north = int(90 // dy) * dy - n * dy
    return [north, w * dx, north - (rows - 1) * dy, (w + cols - 1) * dx]


def spec(g):
    k = g[0]
    if k == "ll":
        return {"grid": [g[1], g[2]]}
    if k == "la":
        return {"grid": [g[1], g[2]], "area": area(g)}
    if k == "h":
        return {"grid": f"H{g[1]}", "order": "nested"} if g[2] == "nested" else {"grid": f"H{g[1]}"}
    return {"grid": f"{k.upper()}{g[1]}"}


def box_of(g):
    """indices of the points of an area in its global grid"""
    _, dx, dy, n, w, rows, cols = g
    nrows, ncols = shape(("ll", dx, dy))
    return np.ix_([n + i for i in range(rows)], [(w + j) % ncols for j in range(cols)])


def field(g, seed, kind="random"):
    rs = np.random.RandomState(seed)
    n = size(g)
    if kind == "random":
        v = rs.uniform(-300, 300, n)
    elif kind == "positive":
        v = rs.uniform(200, 320, n)
    elif kind == "integer":
        v = rs.randint(-5, 6, n).astype(float)
    elif kind == "spike":
        v = np.zeros(n)
        v[rs.randint(0, n)] = 1e6
    elif kind == "const":
        v = np.full(n, round(rs.uniform(-300, 300), 3))
    else:
        raise ValueError(kind)
    return v.reshape(shape(g))


def relayout(v, how):
    """the same values in another memory layout or form"""
    if how == "flat":
        return v.ravel().copy()
    if how == "C":
        return v.copy()
    if how == "F":
        return np.array(v, order="F", copy=True)
    if how == "sliced":
        return np.repeat(v.ravel(), 2)[::2]
    if how == "reversed":
        return np.ascontiguousarray(v.ravel()[::-1])[::-1]
    if how == "bigendian":
        return v.astype(">f8")
    if how == "readonly":
        w = v.copy()
        w.setflags(write=False)
        return w
    raise ValueError(how)


LAYOUTS = ["flat", "C", "F", "sliced", "reversed", "bigendian", "readonly"]


def direct(values, in_spec, out_spec, **options):
    """A MIR job configured here, independently of the package."""
    import mir

    out_spec = dict(out_spec)
    job = mir.Job()
    if "area" in out_spec:
        a = out_spec.pop("area")
        job.set("area", "/".join(repr(float(x)) for x in a))
    job.set("grid", out_spec)
    for k, v in options.items():
        job.set(k, v)
    out = mir.ArrayOutput()
    job.execute(mir.ArrayInput(np.ascontiguousarray(values, dtype="float64"), dict(in_spec)), out)
    return np.array(out.values()), dict(out.spec)
