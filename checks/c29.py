import ast
import contextlib
import io
import json

import inv
from hypothesis import strategies as st
from published import System
from vp import Part, check, fail

PROPERTY = "C29"
RULE = (
    "A case generates a published inventory of 1-12 conversions between generated grids (lat-lon, limited-area lat-lon, "
    "reduced Gaussian, HEALPix, ORCA), described in various ways in the index, with several interpolation methods and "
    "with entries of unknown kinds, puts it on a loopback server answering for the address of the built-in inventory, and "
    "generates every inventory page. Each (source, target) shown is looked up in the inventory through regrid(); the set "
    "of entries found is compared with the linear conversions of the page's kind of source grid. Non-trivial: a page with "
    "at least two targets of one source, and an entry that must not be shown on it."
)
ASSUMPTIONS = [
    "the layout of a page is not fixed: gridspecs are recognised as lines holding a Python dict, the source of a group "
    "being the first one after the word Source",
]

PAGES = {
    "reduced_gg_o": lambda g: g[0] == "gg" and g[1] == "O",
    "reduced_gg": lambda g: g[0] == "gg" and g[1] == "N",
    "healpix_ring": lambda g: g[0] == "hp" and g[2] == "ring",
    "healpix_nested": lambda g: g[0] == "hp" and g[2] == "nested",
    "regular_ll": lambda g: g[0] in ("ll", "la"),
    "orca": lambda g: g[0] == "orca",
}
METHOD = st.sampled_from(["linear", "linear", "linear", "nearest-neighbour", "grid-box-average"])
FOREIGN = st.sampled_from(
    [
        dict(input=dict(grid="X5"), output=dict(grid="O32")),
        dict(input=dict(grid="T63", type="sh"), output=dict(grid=[10, 10])),
        dict(input=dict(grid=[10, 10]), output=dict(type="unstructured", uid="abc")),
        dict(input=dict(grid=[10, 10]), output=dict(grid="F32")),
    ]
)


# few source grids, so that sources have several targets
@st.composite
def pairs(draw):
    sources = draw(st.lists(inv.st_grid(), min_size=1, max_size=4))
    item = st.tuples(st.sampled_from(sources), inv.st_grid(), METHOD, st.integers(0, 5))
    return draw(st.lists(item, min_size=1, max_size=12, unique_by=lambda t: (ident(t[0]), ident(t[1]), t[2])))


def ident(g):
    r = inv.request_grid(g)
    return json.dumps([r["grid"], r.get("order"), r.get("area")]).lower()


CASE = st.fixed_dictionaries(
    dict(
        pairs=pairs(),
        foreign=st.lists(st.tuples(st.integers(0, 12), FOREIGN), max_size=3),
        seed=st.integers(0, 2**20),
        title=st.sampled_from([[], ["plain"], ['"two', 'words"']]),
    )
)


def describe(d, g, how):
    """another description of grid `g` an index may hold"""
    if g[0] == "hp":
        if how == 1 and g[2] == "ring":
            del d["order"]
        elif how == 2:
            d["ordering"] = d.pop("order")
    elif g[0] == "ll" and how in (1, 2):
        d["grid"] = [float(x) for x in d["grid"]]
    elif g[0] == "gg" and how == 1:
        d["grid"] = d["grid"].lower()
    elif g[0] == "orca" and how == 1:
        d["type"] = "orca"
    return d


def groups(text):
    """[(source, [target, ...])] of a page"""
    res = []
    expect = False
    for line in text.split("\n"):
        line = line.strip()
        if line.startswith("Source"):
            expect = True
        elif line.startswith("{"):
            gs = ast.literal_eval(line)
            if expect:
                res.append((gs, []))
                expect = False
            elif not res:
                fail(f"a target without a source: {gs}", "layout")
            else:
                res[-1][1].append(gs)
    return res


def run(case, ctx):
    from earthkit.regrid.array import regrid
    from earthkit.regrid.sphinxext import generate_inventory_rst

    entries = []
    index = {}
    for i, (a, b, method, how) in enumerate(case["pairs"]):
        e = inv.Entry(a, b, method, case["seed"] + i, name=f"{i:02d}x")
        raw = e.index_entry()
        raw["input"] = describe(raw["input"], a, how)
        raw["output"] = describe(raw["output"], b, how)
        entries.append(e)
        index[e.name] = raw
    items = list(index.items())
    for i, (pos, d) in enumerate(case["foreign"]):
        raw = dict(d, interpolation=dict(engine="mir", version=16, method="linear"), nnz=1, memory=10)
        items.insert(min(pos, len(items)), (f"f{i}", raw))

    with System(ctx, dict(version=1, matrix=dict(items)), entries):
        several = hidden = False
        for page, belongs in PAGES.items():
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                generate_inventory_rst.execute(page, *case["title"])
            want = {i for i, e in enumerate(entries) if e.method == "linear" and belongs(e.gin)}
            got = {}
            for source, targets in groups(out.getvalue()):
                several |= len(targets) > 1
                for target in targets:
                    where = f"page {page}: {source} -> {target}"
                    found = None
                    for i in sorted(range(len(entries)), key=lambda i: (i not in want, i)):
                        e = entries[i]
                        if e.method != "linear" or i in got.values():
                            continue
                        x = inv.array([e.cols], case["seed"] + i)
                        try:
                            y, _ = regrid(x, source, target, interpolation="linear", backend="precomputed")
                        except ValueError:
                            continue
                        if y.shape == e.out_shape() and inv.same_values(y, e.expected(x), e.tol(x)):
                            found = i
                            break
                    check(found is not None, f"{where}: is not one of the remaining linear conversions", "shown")
                    got[where] = found
            check(
                set(got.values()) == want,
                lambda: f"page {page} shows the conversions {sorted(got.values())}, but there are {sorted(want)}",
                "listed",
            )
            if case["title"] and want:
                title = " ".join(case["title"]).replace('"', "")
                check(title in out.getvalue(), f"page {page}: the title {title!r} is not shown", "title")
            hidden |= len(want) < len(items) and bool(want)
        if several and hidden:
            ctx.nontrivial()
        ctx.label("pages with several targets" if several else "single targets")


def parts(tier):
    return [Part("pages", CASE, run, quick=600, thorough=5000, budget=40)]
