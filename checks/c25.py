import gzip
import hashlib
import os
import sys
import threading
import time
import traceback

import httpd
import inv
import numpy as np
import procs
from hypothesis import strategies as st
from vp import Part, check, fail

PROPERTY = "C25"
RULE = (
    "threads: a case is 2 inventories (on disk or served over HTTP) of 1-5 entries, sharing grids and methods with other weights, a memory-cache "
    "policy and size, and 2-8 threads of 2-10 operations: regrid requests (arrays, also requests without weights), interpolate(), "
    "clearing the cache, changing its policy or size, reading its statistics and other options. The threads start together in a "
    "process that has loaded nothing, and are paused at random lines of the package. hot: the same with few weights, in the in-memory "
    "cache only, which is cleared and changed all the time. processes: 2-5 processes, forked from one that has used the inventory or "
    "started alone, ask for entries of a remote inventory, some of which were published after its index was cached. data: threads regrid lists of fields, fields, arrays and Xarray "
    "objects. Oracles: the result of every call "
    "alone; no failure; an end within 60 s; the statistics and the same requests when all have finished. Non-trivial: two threads that "
    "regrid with the same inventory, or two processes that ask for what was published later."
)
ASSUMPTIONS = [
    "schedules are those of the interpreter with pauses at lines of the package; operations inside numpy and scipy are not interleaved further",
    "precomputed weights only (MIR itself hangs when several threads give it messages)",
    "config.temporary() is not used by several threads at a time (it is a stack for the whole process)",
]

GRID = inv.st_grid()
ENTRY = st.tuples(GRID, GRID, st.sampled_from(inv.METHODS), st.integers(0, 2**20))
POLICY = st.sampled_from(["off", "largest", "lru", "unlimited"])
SIZE = st.sampled_from([0, 300, 1500, 5000, 50000, 10**8, None])
REQ = st.tuples(st.just("regrid"), st.integers(0, 1), st.integers(0, 5), st.booleans())
OP = st.one_of(
    *[REQ] * 8,
    st.tuples(st.just("nothing"), st.integers(0, 1), st.integers(0, 5), st.booleans()),
    st.tuples(st.just("clear")),
    st.tuples(st.just("policy"), POLICY),
    st.tuples(st.just("size"), SIZE),
    st.tuples(st.just("both"), POLICY, SIZE),
    st.tuples(st.just("info")),
    st.tuples(st.just("option"), st.just("url-download-timeout"), st.integers(20, 50)),
)
CASE = st.fixed_dictionaries(
    dict(
        a=st.lists(ENTRY, min_size=1, max_size=5),
        b=st.lists(ENTRY, min_size=1, max_size=3),
        shared=st.booleans(),
        url=st.sampled_from([None, None, "b", "a"]),
        policy=POLICY,
        size=SIZE,
        threads=st.one_of(
            st.lists(st.lists(OP, min_size=2, max_size=10), min_size=2, max_size=8),
            # requests only
            st.lists(st.lists(REQ, min_size=2, max_size=8), min_size=2, max_size=8),
        ),
        seed=st.integers(0, 2**31 - 1),
        share=st.sampled_from([0.0, 0.02, 0.1, 0.3]),
    )
)
HOT_REQ = st.tuples(st.just("regrid"), st.just(0), st.integers(0, 1), st.just(False))
HOT_OP = st.one_of(
    *[HOT_REQ] * 6,
    *[st.tuples(st.just("clear"))] * 3,
    st.tuples(st.just("info")),
    st.tuples(st.just("policy"), POLICY),
    st.tuples(st.just("size"), st.sampled_from([0, 300, 1500, 10**8, None])),
)
# a few weights, changed by several threads all the time; they pause in the cache itself only
HOT = st.fixed_dictionaries(
    dict(
        a=st.lists(ENTRY, min_size=1, max_size=2),
        b=st.lists(ENTRY, min_size=1, max_size=1),
        shared=st.just(False),
        url=st.none(),
        policy=st.sampled_from(["largest", "lru", "unlimited"]),
        size=st.sampled_from([0, 1500, 10**8, 10**8, None]),
        threads=st.lists(st.lists(st.one_of(HOT_OP, HOT_OP, HOT_REQ), min_size=8, max_size=20), min_size=3, max_size=6),
        seed=st.integers(0, 2**31 - 1),
        share=st.sampled_from([0.1, 0.3, 0.6]),
        files=st.just(["utils/memcache.py"]),
    )
)
FILES = ("backends/db.py", "utils/memcache.py", "backends/__init__.py", "backends/precomputed.py", "utils/config.py", "utils/caching.py", "utils/hash.py", "gridspec.py", "data/handler.py")


def join(threads, errors, seconds=60):
    end = time.monotonic() + seconds
    for t in threads:
        t.join(max(0, end - time.monotonic()))
    sys.settrace(None)
    threading.settrace(None)
    stuck = [t for t in threads if t.is_alive()]
    if stuck:
        frames = sys._current_frames()
        where = ["".join(traceback.format_stack(frames[t.ident])[-4:]) for t in stuck if t.ident in frames]
        fail(f"{len(stuck)} of {len(threads)} threads did not end: {where[0] if where else ''}")
    if errors:
        fail(errors[0])


def publish(srv, top, path):
    for root, _, files in os.walk(path):
        for f in files:
            full = os.path.join(root, f)
            with open(full, "rb") as fh:
                data = fh.read()
            name = os.path.relpath(full, path)
            if name == "index.json":
                srv.put(f"/{top}/index.json.sha256", hashlib.sha256(data).hexdigest().encode() + b"\n")
                srv.put(f"/{top}/index.json.gz", gzip.compress(data))
            else:
                srv.put(f"/{top}/{name}", data)


def run(case, ctx):
    from earthkit.regrid import clear_memory_cache, config, interpolate, memory_cache_info
    from earthkit.regrid.array import regrid

    inv.reset_package()
    config.set({"weights-memory-cache-policy": case["policy"], "maximum-weights-memory-cache-size": case["size"]})
    entries, paths = {}, {}
    for k in "ab":
        es = []
        for e in case[k]:
            if not any((e[0], e[1], e[2]) == (x.gin, x.gout, x.method) for x in es):
                es.append(inv.Entry(*e))
        if k == "b" and case["shared"]:
            o = entries["a"][0]
            es = [x for x in es if (x.gin, x.gout, x.method) != (o.gin, o.gout, o.method)] + [inv.Entry(o.gin, o.gout, o.method, o.seed + 1)]
        entries[k] = es
        paths[k] = os.path.join(ctx.newdir("inv"), k)
        inv.write_inventory(paths[k], es)
    if case["url"]:
        httpd.fast_sleep()
        srv = httpd.Server()
        publish(srv, case["url"], paths[case["url"]])
        paths[case["url"]] = f"{srv.url}/{case['url']}"
        config.set("user-cache-directory", ctx.newdir("cache"))
        config.set("cache-policy", "user")
        ctx.label("served over HTTP")
    arrays = {(k, i): inv.array(inv.shape(e.gin), e.seed + 3) for k in "ab" for i, e in enumerate(entries[k])}
    expected = {q: entries[q[0]][q[1]].expected(x) for q, x in arrays.items()}
    tol = {q: entries[q[0]][q[1]].tol(x) for q, x in arrays.items()}

    def one(k, i, legacy, what):
        e = entries[k][i]
        gin, gout = inv.request_grid(e.gin), inv.request_grid(e.gout)
        x = arrays[k, i]
        if legacy:
            y = interpolate(x, gin, gout, method=e.method, matrix_source=paths[k])
        else:
            y, _ = regrid(x, gin, gout, interpolation=e.method, backend="precomputed", inventory=paths[k])
        if y.shape != e.out_shape() or not inv.same_values(y, expected[k, i], tol[k, i]):
            return f"{what}: {e.gin} -> {e.gout} {e.method} of inventory {k}: not the result of the call alone"

    errors = []
    gate = threading.Barrier(len(case["threads"]))

    def work(n, ops):
        try:
            gate.wait(30)
            for j, op in enumerate(ops):
                what = f"thread {n} operation {j} {op}"
                kind = op[0]
                if kind in ("regrid", "nothing"):
                    k = "ab"[op[1]]
                    i = op[2] % len(entries[k])
                if kind == "regrid":
                    r = one(k, i, op[3], what)
                    if r:
                        errors.append(r)
                        return
                elif kind == "nothing":
                    e = entries[k][i]
                    try:
                        regrid(arrays[k, i], inv.request_grid(e.gin), {"grid": "O7"}, interpolation=e.method, backend="precomputed", inventory=paths[k])
                    except ValueError:
                        pass
                    else:
                        errors.append(f"{what}: a request without weights gave a result")
                elif kind == "clear":
                    clear_memory_cache()
                elif kind == "policy":
                    config.set("weights-memory-cache-policy", op[1])
                elif kind == "size":
                    config.set("maximum-weights-memory-cache-size", op[1])
                elif kind == "both":
                    config.set({"weights-memory-cache-policy": op[1], "maximum-weights-memory-cache-size": op[2]})
                elif kind == "option":
                    config.set(op[1], op[2])
                else:
                    i = memory_cache_info()
                    if i.hits < 0 or i.misses < 0 or i.currsize < 0 or i.count < 0 or (i.count == 0 and i.currsize):
                        errors.append(f"{what}: {i}")
        except Exception as e:
            errors.append(f"thread {n} operation {op}: {e!r} {traceback.format_exc()[-700:]}")

    threads = [threading.Thread(target=work, args=(n, ops), daemon=True) for n, ops in enumerate(case["threads"])]
    if case["share"]:
        procs.jitter(case["seed"], tuple(case.get("files") or FILES), share=case["share"], longest=0.002)
    for t in threads:
        t.start()
    join(threads, errors)

    used = [{op[1] for op in ops if op[0] == "regrid"} for ops in case["threads"]]
    both = sum(1 for k in (0, 1) if sum(k in u for u in used) >= 2)
    ctx.nontrivial(both > 0)
    ctx.label(f"{len(threads)} threads")
    info = memory_cache_info()
    check(info.policy == config.get("weights-memory-cache-policy"), f"policy {info.policy}, the configuration says {config.get('weights-memory-cache-policy')}")
    kinds = {op[0] for ops in case["threads"] for op in ops}
    calls = [("ab"[op[1]], op[2] % len(entries["ab"[op[1]]])) for ops in case["threads"] for op in ops if op[0] == "regrid"]
    # (one request for an entry is another for the same grids and method of the same inventory)
    distinct = {q for q in calls}
    changing = kinds & {"clear", "policy", "size", "both"}
    sizes = {q: entries[q[0]][q[1]].nbytes() for q in distinct}
    limit = info.maxsize if info.policy in ("largest", "lru") else None
    if info.policy == "off":
        check(info.count == 0 and info.currsize == 0, f"policy off: {info}")
    elif not changing:
        nothing = sum(1 for ops in case["threads"] for op in ops if op[0] == "nothing")
        check(info.hits + info.misses == len(calls) + nothing, f"{info.hits} hits and {info.misses} misses for {len(calls) + nothing} requests")
        check(info.misses >= len(distinct), f"{info.misses} misses for {len(distinct)} different requests")
        if limit is None:
            check(info.count == len(distinct) and info.currsize == sum(sizes.values()), f"{info}, {len(distinct)} different requests of {sum(sizes.values())} bytes")
            ctx.label("statistics")
    if limit is not None:
        check(info.currsize <= limit, f"the cache holds {info.currsize} bytes, its limit is {limit}")
    check(info.count <= len(distinct), f"{info.count} matrices for {len(distinct)} different requests")
    check((info.count == 0) == (info.currsize == 0), f"{info}")
    # the caches are right
    for _ in range(2):
        for k, i in arrays:
            r = one(k, i, False, "after the threads")
            check(r is None, r)
    after = memory_cache_info()
    if info.policy != "off" and limit is None:
        check(after.count == len(arrays) and after.currsize == sum(e.nbytes() for k in "ab" for e in entries[k]), f"after all requests again: {after}")


DATA = st.fixed_dictionaries(
    dict(
        threads=st.lists(
            st.lists(st.tuples(st.sampled_from(["list", "field", "xarray", "dask", "array"]), st.just(True), st.integers(0, 1)), min_size=1, max_size=4),
            min_size=2,
            max_size=6,
        ),
        policy=POLICY,
        seed=st.integers(0, 2**31 - 1),
        share=st.sampled_from([0.0, 0.02, 0.1]),
    )
)
DFILES = FILES + ("backends/mir.py", "data/xarray.py", "data/fieldlist.py", "data/grib.py", "data/__init__.py", "data/numpy.py")


def run_data(case, ctx):
    import earthkit.data as ekd
    import gribs
    import mirg
    import xarray as xr

    from earthkit.regrid import config, regrid
    from earthkit.regrid.array import regrid as regrid_array

    inv.reset_package()
    config.set("weights-memory-cache-policy", case["policy"])
    grids = [("ll", 30, 30), ("o", 4)]
    names = [("ll", 30, 30), ("gg", "O", 4, mirg.size(("o", 4)))]
    target = ("ll", 60, 45)
    es = [inv.Entry(g, target, "linear", 5 + i) for i, g in enumerate(names)]
    path = os.path.join(ctx.newdir("inv"), "i")
    inv.write_inventory(path, es)
    meta = dict(param="2t", level=500, step=6, date=20240101, time=0, number=None, edition=2, bits=24)
    sout = inv.request_grid(target)
    made = []
    for g in grids:
        v = mirg.field(g, 3)
        if v.ndim == 2:
            v[0], v[-1] = v[0, 0], v[-1, 0]
        msg = gribs.message(g, v, meta)
        v = gribs.decode(msg)[0].reshape(v.shape)
        made.append((v, msg))
        # (earthkit-data itself loads its tables lazily, and not thread-safely)
        f = ekd.from_source("memory", msg)[0]
        f.metadata().gridspec
        try:
            f.metadata().override(gridspec=sout)
        except ValueError:
            pass
        f.to_numpy()

    def call(kind, pre, i):
        v, msg = made[i]
        kw = dict(backend="precomputed", inventory=path) if pre else {}
        if kind == "list":
            r = regrid(ekd.from_source("memory", msg + msg), grid=sout, **kw)
            return np.concatenate([f.to_numpy(flatten=True) for f in r])
        if kind == "field":
            return regrid(ekd.from_source("memory", msg)[0], grid=sout, **kw).to_numpy(flatten=True)
        if kind == "array":
            return regrid_array(v, mirg.spec(grids[i]), sout, **kw)[0].ravel()
        da = xr.DataArray(np.stack([v, v + 1, v + 2]), dims=["time", "latitude", "longitude"] if v.ndim == 2 else ["time", "values"])
        if kind == "dask":
            da = da.chunk({"time": 1})
        return regrid(da, grid=sout, grid_spec=mirg.spec(grids[i]), **kw).values.ravel()

    ops = sorted({op for t in case["threads"] for op in t})
    results = {op: [] for op in ops}
    errors = []
    gate = threading.Barrier(len(case["threads"]))

    def work(n, todo):
        try:
            gate.wait(30)
            for op in todo:
                results[op].append(call(*op))
        except Exception as e:
            errors.append(f"thread {n} {op}: {e!r} {traceback.format_exc()[-900:]}")

    threads = [threading.Thread(target=work, args=(n, ops_), daemon=True) for n, ops_ in enumerate(case["threads"])]
    if case["share"]:
        procs.jitter(case["seed"], DFILES, share=case["share"], longest=0.002)
    for t in threads:
        t.start()
    join(threads, errors)
    for op in ops:
        want = call(*op)
        for got in results[op]:
            check(got.shape == want.shape and np.array_equal(got, want), f"{op}: the result among other threads differs from the one alone by {np.abs(got - want).max() if got.shape == want.shape else (got.shape, want.shape)}")
        ctx.label(op[0])
    ctx.nontrivial(sum(len(r) for r in results.values()) > len(ops))


# ---------------------------------------------------------------- processes sharing a disk cache

PREQ = st.tuples(st.integers(0, 5), st.integers(0, 2))
PROCS = st.fixed_dictionaries(
    dict(
        entries=st.lists(ENTRY, min_size=1, max_size=6),
        # what is published at first: the rest when the index is cached
        first=st.sampled_from([0, 1, 1, 2, 3, 6]),
        warm=st.lists(st.integers(0, 5), max_size=2),
        forked=st.booleans(),
        procs=st.lists(st.lists(st.one_of(PREQ, PREQ, PREQ, st.just("nothing")), min_size=1, max_size=4), min_size=2, max_size=5),
        wait=st.sampled_from([0, 0, 2, 10]),
        policy=st.sampled_from(["largest", "off"]),
        seed=st.integers(0, 2**31 - 1),
        share=st.sampled_from([0.0, 0.0, 0.02, 0.1]),
    )
)


def _serve(child, old, new, wait, r, others):
    for fd in others:
        os.close(fd)
    srv = httpd.Server()

    def put(files):
        for name, data in files.items():
            srv.put(f"/inv/{name}", data)

    put(old)
    if wait:
        srv.hook = lambda m, p: time.sleep(wait / 1000)
    child.say(f"{srv.url}/inv")
    while os.read(r, 1):
        put(new)
        child.say("published")


def _files(path):
    out = {}
    for root, _, files in os.walk(path):
        for f in files:
            full = os.path.join(root, f)
            with open(full, "rb") as fh:
                data = fh.read()
            name = os.path.relpath(full, path)
            if name == "index.json":
                out["index.json.sha256"] = hashlib.sha256(data).hexdigest().encode() + b"\n"
                out["index.json.gz"] = gzip.compress(data)
            else:
                out[name] = data
    return out


def run_procs(case, ctx):
    import earthkit.regrid.utils.download  # noqa: F401
    import requests  # noqa: F401

    es = []
    for e in case["entries"]:
        if not any((e[0], e[1], e[2]) == (x.gin, x.gout, x.method) for x in es):
            es.append(inv.Entry(*e))
    first = min(case["first"], len(es))
    top = ctx.newdir("inv")
    inv.write_inventory(os.path.join(top, "old"), es[:first])
    inv.write_inventory(os.path.join(top, "new"), es)
    cache = ctx.newdir("cache")
    arrays = [inv.array(inv.shape(e.gin), e.seed + 3) for e in es]
    expected = [e.expected(x) for e, x in zip(es, arrays)]

    def start():
        from earthkit.regrid import config

        httpd.fast_sleep()
        inv.reset_package()
        config.set({"user-cache-directory": cache, "cache-policy": "user", "weights-memory-cache-policy": case["policy"]})

    def request(url, i):
        from earthkit.regrid.array import regrid

        e = es[i]
        y, _ = regrid(arrays[i], inv.request_grid(e.gin), inv.request_grid(e.gout), interpolation=e.method, backend="precomputed", inventory=url)
        check(y.shape == e.out_shape() and inv.same_values(y, expected[i], e.tol(arrays[i])), f"request {i}: not the result of the call alone")

    def nothing(url):
        from earthkit.regrid.array import regrid

        try:
            regrid(arrays[0], inv.request_grid(es[0].gin), {"grid": "O7"}, interpolation="linear", backend="precomputed", inventory=url)
        except ValueError:
            return
        fail("a request without weights gave a result")

    def work(child, url, todo, r, w, more):
        for fd in (w, *more):
            os.close(fd)
        os.read(r, 1)
        if not case["forked"]:
            start()
        if case["share"]:
            procs.jitter(case["seed"] + len(todo), FILES + ("utils/download.py",), share=case["share"], longest=0.002)
        for q in todo:
            if q == "nothing":
                nothing(url)
            else:
                for _ in range(1 + q[1]):
                    request(url, q[0] % len(es))

    def crowd(url, more):
        r, w = os.pipe()
        children = [procs.Child(work, url, todo, r, w, more) for todo in case["procs"]]
        os.close(r)
        os.close(w)
        bad = None
        for n, c in enumerate(children):
            try:
                res = c.wait(60)
                check(res == "done", f"process {n} of {len(children)} {res}")
            except Exception as e:
                bad = bad or e
        if bad is not None:
            raise bad

    def warm(child, url, w2, w3):
        os.close(w2)
        start()
        for i in case["warm"]:
            if first:
                request(url, i % first)
        child.say("warm")
        if case["forked"]:
            # (the parent publishes meanwhile)
            os.read(w3, 1)
            crowd(url, [w3])

    r2, w2 = os.pipe()
    server = procs.Child(_serve, _files(os.path.join(top, "old")), _files(os.path.join(top, "new")), case["wait"], r2, [w2])
    os.close(r2)
    url = server.first()
    r3, w3 = os.pipe()
    parent = None
    try:
        if case["warm"] or case["forked"]:
            parent = procs.Child(_warm, warm, url, w2, r3, w3)
            parent.first()
        os.write(w2, b"x")
        check(server.first(n=1) == "published", "the server")
        os.close(w3)
        w3 = None
        if not case["forked"]:
            if parent is not None:
                check(parent.wait(60) == "done", "the first process")
                parent = None
            crowd(url, [w2, r3])
        else:
            res = parent.wait(100)
            parent = None
            check(res == "done", f"the first process {res}")
    finally:
        if w3 is not None:
            os.close(w3)
        os.close(r3)
        os.close(w2)
        if parent is not None:
            parent.kill()
        server.wait(20)
    asked = [[q[0] % len(es) for q in t if q != "nothing"] for t in case["procs"]]
    ctx.nontrivial(sum(1 for a in asked if any(i >= first for i in a)) >= 2)
    ctx.label("forked" if case["forked"] else "started")


def _warm(child, warm, url, w2, r3, w3):
    os.close(w3)
    warm(child, url, w2, r3)


def isolated(fn):
    run_ = procs.isolated(fn, timeout=150)

    def wrapped(case, ctx):
        # (imported once, before the fork)
        import dask.array  # noqa
        import earthkit.data  # noqa
        import filelock  # noqa
        import multiurl  # noqa
        import requests  # noqa
        import scipy.sparse  # noqa
        import xarray  # noqa

        import gribs  # noqa

        return run_(case, ctx)

    return wrapped


def parts(tier):
    return [
        Part("threads", CASE, isolated(run), quick=300, thorough=8000, budget=60, budget_thorough=800),
        Part("hot", HOT, isolated(run), quick=80, thorough=2500, budget=25, budget_thorough=300),
        Part("processes", PROCS, run_procs, quick=150, thorough=3000, budget=30, budget_thorough=400),
        Part("data", DATA, isolated(run_data), quick=80, thorough=1500, budget=40, budget_thorough=300),
    ]
