import copy

import c04
import inv
import numpy as np
import specs
from hypothesis import strategies as st
from vp import Part, check, fail

PROPERTY = "C05"
RULE = (
    "A case is an inventory of base entries plus neighbours of them (one aspect of the input or output grid changed), "
    "and requests obtained from an entry by changing 1-3 aspects of its grids (kind, increments, N, healpix order, "
    "ocean grid name, scanning flag, shape, one limit of the area, global to band or sector), by crossing the input of "
    "one entry with the output or method of another, or by swapping input and output. Oracle: identity of the semantic "
    "grids decides which entry (recognised by its weights) serves the request, or that ValueError is raised. "
    "Non-trivial: the request differs from some entry in exactly one aspect."
)
ASSUMPTIONS = [
    "resolutions differ by at least 0.1 percent, limits of lat-lon grids by at least 1e-4 degrees, those of reduced "
    "Gaussian grids by at least 0.15 degrees (up to 0.12 degrees they are meant to be the same)",
]

KINDS = ["kind", "res", "order", "flag", "shape", "limit", "limit", "globe", "globe"]
MUT = st.tuples(st.sampled_from(KINDS), st.integers(0, 23), st.booleans())
ENTRY = st.tuples(specs.st_sem(), specs.st_sem(), st.sampled_from(["linear", "nearest-neighbour"]), specs.st_opts, specs.st_opts)
CASE = st.fixed_dictionaries(
    dict(
        entries=st.lists(ENTRY, min_size=1, max_size=4),
        near=st.lists(st.tuples(st.integers(0, 3), MUT, st.booleans()), min_size=0, max_size=4),
        reqs=st.lists(
            st.one_of(
                st.tuples(st.just("mut"), st.integers(0, 7), st.lists(MUT, min_size=1, max_size=1), specs.st_opts, specs.st_opts),
                st.tuples(st.just("mut"), st.integers(0, 7), st.lists(MUT, min_size=1, max_size=3), specs.st_opts, specs.st_opts),
                st.tuples(st.just("cross"), st.integers(0, 7), st.integers(0, 7), st.integers(0, 7), specs.st_opts, specs.st_opts),
                st.tuples(st.just("swap"), st.integers(0, 7), specs.st_opts, specs.st_opts),
            ),
            min_size=2,
            max_size=10,
        ),
    )
)

SHIFT = [1, -1, 0.5, -0.5, 5, -5, 1e-3, -1e-3, 1e-4, 10, -10, 2]


def mutate(g, d, mut):
    """-> (semantic grid or None when no inventory grid can be it, dict) or None if not applicable"""
    kind, n, _ = mut
    d = copy.deepcopy(d)
    k = g[0]
    if kind == "kind":
        opts = [x for x in ("ll", "gg", "hp", "orca") if x != k]
        h = {
            "ll": ("ll", 1, 1, "global", ()),
            "gg": ("gg", "O" if n % 2 else "N", g[1] if k == "hp" else 32, "global", ()),
            "hp": ("hp", g[2] if k == "gg" else 32, "ring", ()),
            "orca": ("orca", "eORCA1_T", ()),
        }[opts[n % 3]]
        return h, specs.spell(h, specs.PLAIN)
    if kind == "flag":
        f = specs.FLAGS[n % 3]
        flags = tuple(sorted(set(g[-1]) ^ {f}))
        d[f] = 1 if f in flags else 0
        return g[:-1] + (flags,), d
    if kind == "shape":
        t = specs.true_shape(g)
        if t is None:
            return None
        t = [t[::-1] if len(t) == 2 and t[0] != t[1] else [t[0] + 1] + t[1:], [t[0] - 1] + t[1:], t[:-1] + [t[-1] + 1], [int(np.prod(t))] if len(t) == 2 else [t[0], 1]][n % 4]
        d["shape"] = t if not mut[2] else tuple(t)
        return ("shape", g), d
    if k == "ll":
        if kind == "res":
            v = list(d["grid"])
            f = [1.001, 0.999, 2, 0.5, 1.01, 1.1][n % 6]
            if n < 4:
                v = [v[0] * f, v[1] * f]
            elif n < 8:
                v = [v[0] * f, v[1]]
            else:
                v = [v[0], v[1] * f]
            d["grid"] = v
            return None, d
        if kind == "limit" and isinstance(g[3], tuple) and g[3][4] - g[3][2] < 150:
            a = list(g[3][1:])
            a[n % 4] += SHIFT[(n // 4 + 3 * mut[2] + n) % 12]
            d["area"] = a
            return ("ll", g[1], g[2], ("area",) + tuple(a), g[4]), d
        if kind in ("globe", "limit") and g[3] == "global":
            dx = g[1]
            nn = specs.north(dx) if g[1] == g[2] else 90
            a = [
                [nn, 0, -nn, 180],
                [nn, 0, -nn, 360 - 3 * dx],
                [nn, 0, 0, 360],
                [nn, dx, -nn, 360 + dx],
                [nn, 10, -nn, 370 - dx],
                [nn - dx, 0, -nn, 360 - dx],
                [nn, 0, -nn + dx, 360],
                [60, 0, -60, 360],
                [nn, 0, -nn, 359.999],
                [nn, -180, -nn, 180],
                [nn, 0.001, -nn, 360 - dx],
                [nn, -dx / 2, -nn, 360 - dx / 2],
                # a little more or less than the global limits
                [nn, 0, -nn, 360 - 1.05 * dx],
                [nn, 0, -nn, 360 - 0.95 * dx],
                [nn, 0, -nn, 360 + 0.05 * dx],
                [nn, 0, -nn, 360 - 0.5 * dx],
                [nn, 0, -nn, 360 - 1.01 * dx],
                [nn - 0.05 * dx, 0, -nn, 360 - dx],
                [nn, 0, -nn + 0.01 * dx, 360 - dx],
                [nn, 0.01 * dx, -nn, 360 - 0.99 * dx],
                [nn, 0, -nn, 360 - 2 * dx],
                [nn - dx, 0, -nn + dx, 360 - dx],
                [nn, 0.05 * dx, -nn, 360],
                [nn - dx / 2, 0, -nn + dx / 2, 360 - dx],
            ][n]
            if a[1] == 10 and specs.divides(dx) and dx not in specs.ODD and g[1] == g[2]:
                return ("ll", g[1], g[2], "shifted", g[4]), dict(d, area=a)
            d["area"] = a
            return None, d
    if k == "gg":
        if kind == "res":
            i = n % 3
            h = ("gg", "N" if g[1] == "O" else "O", g[2]) if i == 0 else ("gg", g[1], max(1, g[2] + (1 if i == 1 else -1)))
            if h[2] == g[2] and h[1] == g[1]:
                h = ("gg", g[1], g[2] + 1)
            h = h + g[3:]
            d["grid"] = f"{h[1]}{h[2]}"
            if h[3] == "global":
                d.pop("area", None)
            return h, d
        if kind == "limit" and isinstance(g[3], tuple) and g[3][4] - g[3][2] < 150:
            a = list(g[3][1:])
            s = SHIFT[(n // 4 + 3 * mut[2] + n) % 12]
            s = (0.15 if s > 0 else -0.15) if abs(s) <= 0.5 else s
            a[n % 4] += s
            d["area"] = a
            return g[:3] + (("area",) + tuple(a),) + g[4:], d
        if kind in ("globe", "limit") and g[3] == "global":
            dx = 360 / (4 * g[2] + (16 if g[1] == "O" else 0))
            # limits that leave out at least one row or column
            cut = 90 - 90 / g[2] - 1
            a = [
                [60, 0, -60, 360],
                [60, 0, 20, 360],
                [90, 0, 0, 360],
                [cut, 0, -90, 360],
                [90, 0, -cut, 360],
                [90, 0, -90, 180],
                [90, 0, -90, 360 - dx - 3],
                [90, 10, -90, 370],
                [90, 1, -90, 361],
                [cut, 0, -cut, 360 - dx],
                [90, 0, 60, 360],
                [0, 0, -90, 360],
            ][n % 12]
            if a[0] == 60 and g[2] < 4 or a[0] == 0 and g[2] == 1 or a[2] == 0 and g[2] == 1 or g[2] == 1 and cut < 0:
                return None
            d["area"] = a
            return g[:3] + (("area",) + tuple(a),) + g[4:], d
    if k == "hp":
        if kind == "order" or kind == "limit":
            o = "nested" if g[2] == "ring" else "ring"
            d.pop("order", None)
            d.pop("ordering", None)
            if o == "nested" or n % 2:
                d["order" if n % 4 < 2 else "ordering"] = o
            d.pop("shape", None)
            return ("hp", g[1], o, g[3]), d
        if kind == "res":
            m = g[1] * 2 if n % 2 else g[1] + 1
            d["grid"] = f"H{m}" if n % 3 else f"h{m}"
            d.pop("shape", None)
            return ("hp", m) + g[2:], d
    if k == "orca" and kind in ("res", "limit", "order"):
        h = g[1]
        i = n % 4
        if i == 0:
            h = h[:-1] + "FTUVW"[("FTUVW".index(h[-1]) + 1 + n // 4 % 4) % 5]
        elif i == 1:
            h = h[1:] if h[0] == "e" else "e" + h
        else:
            names = [x for x in specs.ORCA if x[-1] == h[-1] and x != h]
            h = names[n % len(names)]
        d["grid"] = h
        return ("orca", h) + g[2:], d
    return None


def run(case, ctx):
    from earthkit.regrid.array import regrid

    inv.reset_package()
    path = ctx.newdir("inv")
    entries = [e for e in case["entries"] if specs.in_domain(e[0]) and specs.in_domain(e[1])]
    if not entries:
        return
    for i, mut, on_in in case["near"]:
        gin, gout, method, oi, oo = entries[i % len(entries)]
        if mut[0] == "shape" or mut[0] == "res" and (gin if on_in else gout)[0] == "ll":
            continue
        g = gin if on_in else gout
        m = mutate(g, specs.spell(g, specs.PLAIN), mut)
        if m is None or m[0] is None:
            continue
        entries.append((m[0], gout, method, oi, oo) if on_in else (gin, m[0], method, oi, oo))
    items = c04.build(entries, path)
    has_shape = {}
    for gin, gout, method, oi, oo in entries:
        has_shape.setdefault((gin, gout, method), oi["shape"])

    def same(sem, g, rec):
        if sem is None:
            return False
        if sem[0] == "shape":
            # another shape is another grid, if the index records one
            return sem[1] == g and not rec
        if sem == g:
            return True
        if len(sem) == 5 and len(g) == 5 and isinstance(sem[3], tuple) and isinstance(g[3], tuple):
            eps = 1e-9 if sem[0] == "ll" else 0.12
            return sem[:3] == g[:3] and sem[4] == g[4] and all(abs(a - b) < eps for a, b in zip(sem[3][1:], g[3][1:]))
        return False

    x = np.array([1.0, 7.0, 11.0])
    for req in case["reqs"]:
        if req[0] == "mut":
            _, n, muts, oi, oo = req
            gin, gout, method, si, so_req, so, mark = items[n % len(items)]
            sems = [gin, gout]
            ds = [specs.spell(gin, oi, shape=si), specs.spell(gout, oo, shape=so_req)]
            done = []
            for mut in muts:
                j = int(mut[2])
                # a second change to the same grid would have to be applied to a mutated one
                if any(jj == j for _, jj in done):
                    continue
                if mut[0] == "shape" and j == 1 and so_req is None and specs.true_shape(gout) is not None:
                    continue
                m = mutate(sems[j], ds[j], mut)
                if m is None:
                    continue
                sems[j], ds[j] = m
                if mut[0] not in ("shape", "flag") and not (mut[0] == "limit" and sems[j] is None):
                    # a changed grid comes without its old shape, so that only one thing differs
                    if not (mut[0] == "res" and mut[1] % 2):
                        ds[j].pop("shape", None)
                done.append((mut[0], j))
            if not done:
                continue
            ctx.nontrivial(len(done) == 1)
            for k, j in done:
                ctx.label(f"{'out' if j else 'in'}-{(gout if j else gin)[0]}-{k}")
            if len(done) > 1:
                ctx.label("combined")
            din, dout = ds
        elif req[0] == "cross":
            _, a, b, c, oi, oo = req
            A, B, C = (items[i % len(items)] for i in (a, b, c))
            sems = [A[0], B[1]]
            method = C[2]
            din, dout = specs.spell(A[0], oi), specs.spell(B[1], oo)
            ctx.label("cross")
        else:
            _, a, oi, oo = req
            A = items[a % len(items)]
            sems = [A[1], A[0]]
            method = A[2]
            din, dout = specs.spell(A[1], oi), specs.spell(A[0], oo)
            ctx.label("swap")
        # a noisy spelling next to a small change would make the distance unclear
        want = None
        ambiguous = False
        for gin, gout, m, si, so_req, so, mark in items:
            if m != method:
                continue
            rin = has_shape[(gin, gout, m)] and specs.true_shape(gin) is not None
            if same(sems[0], gin, rin) and same(sems[1], gout, True):
                if "shape" in dout and so_req is None or "shape" in din and sems[0][0] != "shape" and list(din["shape"]) != (specs.true_shape(gin) or list(din["shape"])):
                    ambiguous = True
                if want is None:
                    want = (mark, so)
        if ambiguous:
            continue
        try:
            y, _ = regrid(x, din, dout, interpolation=method, backend="precomputed", inventory=path)
        except ValueError as e:
            check(want is None, lambda: f"{din} -> {dout} {method} should be served by entry {want}: {e}")
            ctx.label("rejected")
            continue
        check(
            want is not None,
            lambda: f"{din} -> {dout} {method} was served by entry {int(y.flat[0]) - 1} "
            f"{entries[int(y.flat[0]) - 1][:3] if y.size and int(y.flat[0]) <= len(entries) else ''} which has different grids",
        )
        check(y.shape == tuple(want[1]) and np.all(y == want[0]), lambda: f"{din} -> {dout} {method} served by the wrong entry")
        ctx.label("served")


def parts(tier):
    return [Part("differences", CASE, run, quick=6000, thorough=30000, budget=120)]
