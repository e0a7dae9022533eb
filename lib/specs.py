"""Semantic grids, their identity, and the ways an index or a user may spell them.

A semantic grid is plain data:
  ("ll", dx, dy, domain, flags)   domain: "global" | "shifted" | ("area", n, w, s, e)
  ("gg", "O"|"N", n, domain, flags)   domain: "global" | ("area", n, w, s, e)
  ("hp", n, "ring"|"nested", flags)
  ("orca", name, flags)
flags: sorted tuple of scanning flags that are set to 1.
"""
import numpy as np
from hypothesis import strategies as st

# increments with their published global limits (north, east); the others are 90, 360 - dx
ODD = {0.7: (89.6, 359.8), 0.8: (89.6, 359.2), 1.4: (89.6, 359.8), 1.6: (89.6, 358.4)}
TABLE = [0.05, 0.1, 0.125, 0.15, 0.2, 0.25, 0.3, 0.4, 0.5, 0.6, 0.7, 0.75, 0.8, 0.9, 1, 1.2, 1.25, 1.4, 1.5, 1.6, 1.8, 2, 2.5, 5, 10]
OTHER = [(20, 20), (22.5, 22.5), (30, 30), (2, 1), (1, 2), (5, 10), (10, 5), (3, 3), (6, 6), (4, 4)]
INCS = [(x, x) for x in TABLE] + OTHER
FLAGS = ["i_scans_negatively", "j_points_consecutive", "j_scans_positively"]
ORCA = [f"{g}_{s}" for g in ("ORCA2", "ORCA1", "eORCA1", "eORCA025", "ORCA025", "eORCA12", "ORCA12") for s in "FTUVW"]
GGN = [1, 2, 8, 32, 48, 80, 96, 128, 256, 320, 400, 640, 1280]


def divides(d):
    return d not in (0.7, 1.4)


def north(d):
    return ODD.get(d, (90, 0))[0]


def east(d):
    return ODD[d][1] if d in ODD else round(360 - d, 6)


def true_shape(g):
    if g[0] == "ll":
        if g[3] in ("global", "shifted"):
            n = north(g[1]) if g[1] == g[2] else 90
            return [int(round(2 * n / g[2])) + 1, int(round(east(g[1]) / g[1])) + 1]
        _, n, w, s, e = g[3]
        return [int(round((n - s) / g[2])) + 1, int(round((e - w) / g[1])) + 1]
    if g[0] == "hp":
        return [12 * g[1] * g[1]]
    return None


def gg_area(g):
    n = g[2]
    dx = 360.0 / (4 * n + 16) if g[1] == "O" else 360.0 / (4 * n)
    first = round(90 - 0.76 * 90.0 / (n + 0.16), 4)
    return [first, 0, -first, round(360 - dx, 4)]


st_flags = st.one_of(st.just(()), st.just(()), st.just(()), st.sampled_from([(f,) for f in FLAGS]))
st_limited = st.tuples(
    st.just("area"),
    st.sampled_from([60, 50, 40]),
    st.sampled_from([-20, 0, 10]),
    st.sampled_from([-60, 20, 10]),
    st.sampled_from([40, 50, 100]),
)


def st_ll():
    glob = st.tuples(st.just("ll"), st.sampled_from(INCS), st.sampled_from(["global"] * 6 + ["shifted"]), st_flags).map(
        lambda t: ("ll", t[1][0], t[1][1], t[2] if divides(t[1][0]) and t[1][0] not in ODD else "global", t[3])
    )
    lam = st.tuples(st.just("ll"), st.sampled_from([(1, 1), (2, 2), (5, 5), (10, 10), (2, 1), (0.5, 0.5)]), st_limited, st_flags).map(
        lambda t: ("ll", t[1][0], t[1][1], t[2], t[3])
    )
    return st.one_of(glob, glob, lam)


def st_gg():
    return st.tuples(
        st.just("gg"),
        st.sampled_from("ON"),
        st.sampled_from(GGN),
        st.one_of(st.just("global"), st.just("global"), st.just("global"), st_limited),
        st_flags,
    )


def st_hp():
    return st.tuples(st.just("hp"), st.sampled_from([1, 2, 4, 8, 16, 32, 64, 512]), st.sampled_from(["ring", "nested"]), st_flags)


def st_orca():
    return st.tuples(st.just("orca"), st.sampled_from(ORCA), st_flags)


def st_sem():
    return st.one_of(st_ll(), st_ll(), st_gg(), st_hp(), st_orca())


# ---------------------------------------------------------------- spelling

# options of a spelling, all small integers / floats, drawn independently
st_opts = st.fixed_dictionaries(
    dict(
        low=st.booleans(),
        seq=st.booleans(),
        noise=st.one_of(st.just(0.0), st.just(0.0), st.floats(-9.5e-7, 9.5e-7), st.sampled_from([1e-15, -1e-14, 9e-7, -9e-7])),
        arith=st.booleans(),
        type=st.booleans(),
        flags=st.booleans(),
        shape=st.booleans(),
        area=st.integers(0, 5),
        turns=st.integers(-3, 3),
        order=st.integers(0, 2),
        num=st.booleans(),
        # numbers taken from a numpy array
        np=st.sampled_from([False, False, True]),
    )
)
PLAIN = dict(low=False, seq=False, noise=0.0, arith=False, type=False, flags=False, shape=False, area=0, turns=0, order=0, num=False, np=False)

TYPES = {"ll": "regular_ll", "gg": "reduced_gg", "hp": "healpix", "orca": "orca"}


def spell(g, o, index=False, shape=None):
    """One way to write semantic grid `g`. `shape`: the shape its inventory records."""
    d = {}
    k = g[0]
    flags = g[-1]
    if k == "ll":
        dx, dy = g[1], g[2]
        a, b = dx, dy
        if not index:
            if o["arith"]:
                # the same increments as the result of a computation
                a, b = dx * 10 * 0.1, dy * 3 / 3
                if abs(dx * 10 - round(dx * 10)) < 1e-9:
                    a = sum([0.1] * int(round(dx * 10))) if dx <= 5 else 0.1 * round(dx * 10)
            a += o["noise"]
            b += o["noise"]
        if o["num"]:
            a, b = float(a), float(b)
        d["grid"] = [a, b]
        n = north(dx) if dx == dy else 90
        noisy = not index and abs(o["noise"]) > 1e-9
        if g[3] == "global":
            last, full = east(dx), 360
            form = o["area"]
            if index and (form == 0 or not divides(dx)):
                form = 1
            if form in (3, 4) and not divides(dx):
                form = 2
            if noisy and form in (1, 3):
                form += 1
            # 0, 5: no area; 1: last point; 2: full circle; 3, 4: the same, shifted by whole turns
            if form == 1:
                d["area"] = [n, 0, -n, last]
            elif form == 2:
                d["area"] = [n, 0, -n, full]
            elif form in (3, 4):
                t = 360 * o["turns"]
                d["area"] = [n, t, -n, (last if form == 3 else full) + t]
            if index and (o["num"] or dx in ODD) and form != 5:
                d["global"] = 1
        elif g[3] == "shifted":
            d["area"] = [90, 10, -90, 370 - dx if not noisy else 370]
        else:
            d["area"] = list(g[3][1:])
    elif k == "gg":
        d["grid"] = f"{g[1]}{g[2]}"
        if g[3] == "global":
            ar = gg_area(g)
            if index:
                d["area"] = ar
                d["global"] = 1
            elif o["area"] == 1:
                d["area"] = ar
            elif o["area"] == 2:
                d["area"] = [90, 0, -90, 360]
            elif o["area"] == 3:
                d["area"] = [round(v, 2) for v in ar]
            elif o["area"] == 4:
                d["area"] = [90, 0, -90, 360 - 360 / (4 * g[2] + (16 if g[1] == "O" else 0))]
            elif o["area"] == 5:
                d["area"] = [ar[0], 360, ar[2], 720]
        else:
            d["area"] = list(g[3][1:])
    elif k == "hp":
        d["grid"] = f"H{g[1]}"
        if index:
            d["order" if o["order"] < 2 else "ordering"] = g[2]
        elif g[2] == "nested":
            d["order" if o["order"] % 2 else "ordering"] = "nested"
        elif o["order"]:
            d["order" if o["order"] == 1 else "ordering"] = "ring"
    else:
        d["grid"] = g[1]
    if o["low"] and not index and k in ("gg", "hp"):
        d["grid"] = d["grid"].lower()
    if o["type"]:
        d["type"] = TYPES[k]
    for f in FLAGS:
        if f in flags:
            d[f] = 1
        elif o["flags"]:
            d[f] = 0
    if shape is not None and (index or o["shape"]):
        d["shape"] = list(shape)
    if o.get("np") and not index:
        for key, v in d.items():
            if isinstance(v, list):
                d[key] = list(np.array(v))
            elif isinstance(v, int):
                d[key] = np.int64(v)
    if o["seq"] and not index:
        for key in ("grid", "area", "shape"):
            if isinstance(d.get(key), list):
                d[key] = tuple(d[key])
    return d


def identity(g):
    """Two semantic grids are the same grid iff their identities are equal."""
    return g


def in_domain(g):
    """Combinations whose published form is defined: asymmetric increments use 90/-90."""
    return not (g[0] == "ll" and g[1] != g[2] and (g[1] in ODD or g[2] in ODD))
