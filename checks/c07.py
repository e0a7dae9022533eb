import gzip
import hashlib
import io
import json
import os

import httpd
import inv
import numpy as np
from hypothesis import strategies as st
from published import SYSTEM_URL, Redirect
from vp import Part, check, fail

PROPERTY = "C07"
RULE = (
    "A case publishes an inventory (index.json.gz, its sha256, npz matrices) on a loopback HTTP server and runs a history "
    "of 4-20 operations: regrid one of 6 requests through the high-level backend or through one of 2 other readers of "
    "the same URL (a reader can be restarted), publish another index, purge the disk cache or lose one cached file, "
    "clear the memory cache, and inject faults (HTTP errors, reset connections, truncated bodies, an index that cannot "
    "be read) into the checksum, index or matrix transfers. A model of index, checksum check and caches predicts every "
    "result and the number of transfers of each file. published: the same with the built-in inventory, named in all ways "
    "(left out, None, ecmwf, interpolate()), whose address is answered by the local server. Non-trivial: the published index changed between requests, or a "
    "request follows a failed transfer."
)
ASSUMPTIONS = [
    "published matrices do not change under the same name (the inventory layout versions them)",
    "when no index file is cached any more, consulting the checksum before downloading it is optional",
]

PAIRS = [
    (("ll", 45, 45), ("ll", 90, 90), "linear"),
    (("ll", 45, 45), ("ll", 90, 90), "nearest-neighbour"),
    (("gg", "O", 1, inv.gg_points("O", 1)), ("ll", 90, 90), "linear"),
    (("hp", 1, "ring"), ("hp", 1, "nested"), "grid-box-average"),
    (("orca", "eORCA1_T", 30), ("gg", "N", 1, 12), "linear"),
    (("ll", 90, 45), ("ll", 90, 90), "linear"),
]
FAULT = st.sampled_from([("status", 500), ("status", 404), ("status", 403), ("reset",), ("truncate", 0), ("truncate", 6), ("truncate", 10)])
SUBSET = st.lists(st.integers(0, 5), min_size=0, max_size=6, unique=True).map(sorted)
WHO = st.sampled_from([0, 0, 1, 2])
OP = st.one_of(
    st.tuples(st.just("regrid"), WHO, st.integers(0, 5)),
    st.tuples(st.just("regrid"), WHO, st.integers(0, 5)),
    st.tuples(st.just("regrid"), WHO, st.integers(0, 5)),
    st.tuples(st.just("regrid"), WHO, st.integers(0, 5)),
    st.tuples(st.just("publish"), SUBSET),
    st.tuples(st.just("publish_one"), WHO, st.integers(0, 5)),
    st.tuples(st.just("restart"), st.integers(1, 2)),
    st.tuples(st.just("restart"), st.integers(1, 2)),
    st.tuples(st.just("purge")),
    st.tuples(st.just("lose"), st.integers(0, 5)),
    st.tuples(st.just("clear")),
    st.tuples(st.just("fault"), st.sampled_from(["sha", "index", "index", "matrix"]), FAULT),
    st.tuples(st.just("fault_request"), st.sampled_from(["sha", "sha", "index", "matrix"]), FAULT, WHO, st.integers(0, 5)),
    st.tuples(st.just("bad_index"), st.sampled_from(["version", "json", "nomatrix", "notgz"]), SUBSET),
)
CASE = st.fixed_dictionaries(
    dict(
        first=SUBSET,
        seed=st.integers(0, 2**20),
        ops=st.lists(OP, min_size=4, max_size=20),
        policy=st.sampled_from(["user", "user", "user", "temporary", "off"]),
        memory=st.sampled_from(["off", "unlimited", "largest", "lru"]),
        slash=st.booleans(),
        check=st.booleans(),
    )
)
SYSTEM = st.tuples(CASE, st.lists(st.sampled_from([None, "ecmwf", "none", "old"]), min_size=1, max_size=4))


def run_system(case, ctx):
    from earthkit.regrid.backends.db import SYS_DB

    SYS_DB._reset()
    try:
        run(case[0], ctx, case[1])
    finally:
        SYS_DB._reset()



def run(case, ctx, system=None):
    if system is None:
        run_with(case, ctx, None, None)
        return
    srv = httpd.server()
    srv.reset()
    pre = f"/{os.path.basename(ctx.newdir('u'))}"
    with Redirect(srv.url + pre):
        run_with(case, ctx, system, pre)


def run_with(case, ctx, system, pre):
    from earthkit.regrid import cache, clear_memory_cache, config
    from earthkit.regrid import interpolate
    from earthkit.regrid.array import regrid
    from earthkit.regrid.backends.db import MatrixDb

    httpd.fast_sleep()
    inv.reset_package()
    srv = httpd.server()
    srv.reset()
    config.set(
        {
            "user-cache-directory": ctx.newdir("c"),
            "cache-policy": case["policy"],
            "maximum-cache-disk-usage": None,
            "weights-memory-cache-policy": case["memory"],
            "check-out-of-date-urls": case["check"],
        }
    )
    off = case["policy"] == "off"
    if system is None:
        pre = f"/{os.path.basename(ctx.newdir('u'))}"
        url = srv.url + pre + ("/" if case["slash"] else "")
    else:
        url = SYSTEM_URL
    entries = [inv.Entry(a, b, m, case["seed"] + i, name=f"{i:02d}x") for i, (a, b, m) in enumerate(PAIRS)]
    mpath = [f"{pre}/mir_16_{e.method}/{e.name}.npz" for e in entries]
    P_SHA, P_GZ = pre + "/index.json.sha256", pre + "/index.json.gz"
    from scipy.sparse import save_npz

    for e, p in zip(entries, mpath):
        f = io.BytesIO()
        save_npz(f, e.matrix())
        srv.put(p, f.getvalue())

    # ---- published state
    pub = dict(keys=None, text=None, bad=False)

    ever = set()

    def publish(keys, bad=None):
        ever.update(keys)
        index = dict(version=1, matrix={entries[i].name: entries[i].index_entry() for i in keys})
        text = json.dumps(index, indent=1)
        if bad == "version":
            text = json.dumps(dict(index, version=2))
        elif bad == "json":
            text = text[: len(text) // 2]
        elif bad == "nomatrix":
            text = json.dumps(dict(version=1))
        data = gzip.compress(text.encode())
        if bad == "notgz":
            data = b"<html>" + data
        srv.put(P_SHA, hashlib.sha256(text.encode()).hexdigest().encode() + b"\n")
        srv.put(P_GZ, data)
        pub.update(keys=frozenset(keys), text=text, bad=bool(bad))

    publish(case["first"])

    # ---- model
    disk = dict(index=None, matrices=set())  # index: (text, keys)
    memory = set()
    readers = [dict(db=None, loaded=None, checked=False) for _ in range(3)]
    for r in readers[1:]:
        r["db"] = MatrixDb.from_url(url)
    changed = False
    after_fault = False
    n_requests = 0

    def pending(path):
        return [f for p, c, f in srv.faults if p == path and c == "GET"]

    class Expected(Exception):
        pass

    def m_download_index(exp):
        """the model of one index transfer"""
        exp["gz"] += 1
        disk["index"] = None
        if pending(P_GZ) or pub["bad"]:
            raise Expected("index")
        disk["index"] = (pub["text"], pub["keys"])

    def m_request(r, k):
        exp = dict(sha=0, gz=0, matrix=0, sha_optional=0)
        if case["memory"] != "off" and k in memory:
            ctx.label("memory")
            return "ok", exp
        try:
            if r["loaded"] is None:
                if disk["index"] is None:
                    m_download_index(exp)
                r["loaded"] = disk["index"][1]
            if k not in r["loaded"] and not r["checked"]:
                if disk["index"] is None:
                    # checksum optional
                    exp["sha_optional"] = 1
                    if pending(P_SHA):
                        exp["maybe_fail"] = True
                    m_download_index(exp)
                else:
                    exp["sha"] += 1
                    if pending(P_SHA):
                        raise Expected("sha")
                    if disk["index"][0] != pub["text"]:
                        ctx.label("index-renewed")
                        m_download_index(exp)
                    else:
                        ctx.label("index-unchanged")
                    r["checked"] = True
                r["loaded"] = disk["index"][1]
            if k not in r["loaded"]:
                return "missing", exp
            if k not in disk["matrices"]:
                exp["matrix"] += 1
                f = pending(mpath[k])
                if f:
                    # server-side failures are retried, others may be
                    raise Expected("matrix")
                disk["matrices"].add(k)
            memory.add(k)
            return "ok", exp
        except Expected as e:
            ctx.label(f"fails-{e}")
            return f"error-{e}", exp

    def request(w, k):
        nonlocal after_fault, n_requests
        r = readers[w]
        e = entries[k]
        x = inv.array(inv.shape(e.gin), k)
        srv.take_log()
        gin, gout = inv.request_grid(e.gin), inv.request_grid(e.gout)
        if not off:
            want, exp = m_request(r, k)
        else:
            want = None
            faulty = bool(srv.faults) or pub["bad"]
        if changed or after_fault:
            ctx.nontrivial()
        try:
            if w == 0:
                named = [url]
                if system is not None:
                    # the published inventory is the same one however it is named
                    named = [system[n_requests % len(system)]]
                    n_requests += 1
                    ctx.label(f"inventory {named[0]}")
                if named == ["old"]:
                    y, g = interpolate(x, gin, gout, e.method), gout
                elif named == [None]:
                    y, g = regrid(x, gin, gout, interpolation=e.method, backend="precomputed")
                else:
                    named = [None if n == "none" else n for n in named]
                    y, g = regrid(x, gin, gout, interpolation=e.method, backend="precomputed", inventory=named[0])
                check(g == gout, "returned grid")
                got = "ok"
            else:
                z, shape = r["db"].find(gin, gout, e.method)
                if z is None:
                    got = "missing"
                else:
                    y = (z @ x.reshape(-1, 1)).reshape(shape)
                    got = "ok"
        except Exception as err:
            got = "missing" if isinstance(err, ValueError) and ("No precomputed weights" in str(err) or "No matrix found" in str(err)) else "error"
            error = err
        log = [p for m, p, _ in srv.take_log() if m == "GET"]
        srv.clear_faults()
        if got == "ok":
            check(y.shape == e.out_shape(), f"shape {y.shape} != {e.out_shape()}")
            check(inv.same_values(y, e.expected(x), e.tol(x)), f"wrong values for {PAIRS[k]}")
        where = f"request {PAIRS[k]} by reader {w}: transfers {[p.split('/')[-1] for p in log]}"
        if off:
            if faulty:
                after_fault = True
                return
            # without a cache every miss reads the index again; hits use what was read before
            if got == "error":
                raise error
            if k in pub["keys"]:
                check(got == "ok", f"{where}: {got}, although published")
            elif k not in ever:
                check(got == "missing", f"{where}: {got}, although never published")
            return
        if want.startswith("error"):
            check(got == "error", f"{where}: {got} although the transfer of the {want[6:]} failed")
            after_fault = True
            return
        if got == "error":
            if exp.get("maybe_fail"):
                # the optional checksum could not be read: the model state is that of before
                disk["index"] = None
                after_fault = True
                return
            raise error
        check(got == want, f"{where}: {got}, expected {want}")
        n = dict(sha=log.count(P_SHA), gz=log.count(P_GZ), matrix=log.count(mpath[k]))
        if exp["sha_optional"]:
            if n["sha"] == 1:
                r["checked"] = True
            check(n["sha"] <= 1, f"{where}: checksum read {n['sha']} times")
        else:
            check(n["sha"] == exp["sha"], f"{where}: checksum read {n['sha']} times, expected {exp['sha']}")
        check(n["gz"] == exp["gz"], f"{where}: index downloaded {n['gz']} times, expected {exp['gz']}")
        check(n["matrix"] == exp["matrix"], f"{where}: matrix downloaded {n['matrix']} times, expected {exp['matrix']}")
        check(len(log) == sum(n.values()), f"{where}: other files downloaded")

    for op in case["ops"]:
        ctx.label(op[0])
        if op[0] == "regrid":
            request(op[1], op[2])
        elif op[0] == "publish":
            if frozenset(op[1]) != pub["keys"]:
                changed = True
            publish(op[1])
        elif op[0] == "publish_one":
            publish(sorted(set(pub["keys"]) | {op[2]}))
            changed = True
            request(op[1], op[2])
        elif op[0] == "bad_index":
            publish(op[2], bad=op[1])
            changed = True
        elif op[0] == "restart":
            readers[op[1]] = dict(db=MatrixDb.from_url(url), loaded=None, checked=False)
            clear_memory_cache()
            memory.clear()
        elif op[0] == "purge":
            cache.purge()
            disk.update(index=None, matrices=set())
        elif op[0] == "lose":
            # lose the file of one matrix
            if not off and op[1] in disk["matrices"]:
                for e in cache.entries():
                    if e["owner"] == "url" and e["args"]["url"].endswith(mpath[op[1]][len(pre) :]):
                        os.unlink(e["path"])
                disk["matrices"].discard(op[1])
        elif op[0] == "clear":
            clear_memory_cache()
            memory.clear()
        elif op[0] in ("fault", "fault_request"):
            if op[0] == "fault_request":
                publish(sorted(set(pub["keys"]) | {op[4]}))
                changed = True
            if op[1] == "matrix":
                # client errors are not retried; the retried ones fail every time
                for p in mpath:
                    srv.fault(p, "GET", *op[2], "sticky")
            else:
                p = P_SHA if op[1] == "sha" else P_GZ
                if not pending(p):
                    srv.fault(p, "GET", *op[2], "sticky")
            if op[0] == "fault_request":
                request(op[3], op[4])
                request(op[3], op[4])


def parts(tier):
    return [
        Part("remote", CASE, run, quick=1200, thorough=5000, budget=110),
        Part("published", SYSTEM, run_system, quick=800, thorough=4000, budget=60),
    ]
