import os
import threading
import time

import dc
import filelock  # noqa: F401  (imported before forking)
import inv
import procs
from hypothesis import strategies as st
from vp import Part, check, fail

PROPERTY = "C13"
RULE = (
    "A case is 1-4 processes with 1-4 threads each, started together on one cache directory (new or in use), every thread "
    "with 1-5 operations: request one of 4 keys with a creator that waits before, while and after writing, a creator that "
    "fails, or look at size, summary and listing. Creators are logged; every returned path is read at once. Afterwards a "
    "new process compares listing, size and files. A second part does the same with HTTP downloads of one or several "
    "files. In a third part a process that has used the cache forks others (nested, and ending as the interpreter does), "
    "which request, look, fail and change settings. Non-trivial: at least two threads requested the same key, or a fork "
    "of a process using the cache."
)
ASSUMPTIONS = ["schedules are those the operating system produces with the generated waits and pauses at random lines, not an exhaustive set"]

WAIT = st.sampled_from([0, 0, 0, 1, 3, 10])
GET = st.tuples(st.just("get"), st.sampled_from([0, 0, 0, 1, 1, 2, 3]), dc.st_content, st.tuples(WAIT, WAIT, WAIT))
OP = st.one_of(
    GET,
    GET,
    GET,
    st.tuples(st.just("bad"), st.sampled_from([0, 0, 1]), st.integers(0, 3), WAIT),
    st.tuples(st.just("look"), st.sampled_from(["size", "entries", "summary"])),
)
THREAD = st.lists(OP, min_size=1, max_size=5)
CASE = st.fixed_dictionaries(
    dict(
        procs=st.lists(st.lists(THREAD, min_size=1, max_size=4), min_size=1, max_size=4),
        before=st.lists(st.integers(0, 3), max_size=2, unique=True),
        policy=st.sampled_from(["user", "user", "user", "user", "off"]),
        limit=st.sampled_from([None, 10**9]),
        jitter=st.one_of(st.none(), st.integers(1, 999)),
    )
)


class Boom(Exception):
    pass


def setup(top, policy="user", limit=None):
    from earthkit.regrid import config

    inv.reset_package()
    config.set({"user-cache-directory": top, "maximum-cache-disk-usage": None, "maximum-cache-size": limit})
    config.set("cache-policy", policy)


def log(path, text):
    fd = os.open(path, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
    os.write(fd, (text + "\n").encode())
    os.close(fd)


def worker(child, top, logfile, pi, threads, policy, limit, jit, r, w):
    from earthkit.regrid import cache
    from earthkit.regrid.utils.caching import cache_file

    os.close(w)
    if jit is not None:
        procs.jitter(jit * 10 + pi, ("/caching.py",))
    errors = []
    out = []
    ready = threading.Barrier(len(threads) + 1)

    def body(ti, ops):
        try:
            ready.wait()
            for oi, op in enumerate(ops):
                tag = (pi, ti, oi)
                if op[0] == "look":
                    if op[1] == "size":
                        cache.size()
                    elif op[1] == "entries":
                        cache.entries()
                    else:
                        cache.summary_dump_database()
                    continue
                key = op[1]

                def create(target, _):
                    check(not os.path.lexists(target), f"the target exists before the creator runs: {target}")
                    if op[0] == "bad":
                        log(logfile, repr(("bad", key, tag)))
                        time.sleep(op[3] / 1000)
                        dc.write(target, ("file", 50), tag, stop_after=op[2])
                        raise Boom()
                    log(logfile, repr(("begin", key, tag, op[2])))
                    a, b, c = op[3]
                    time.sleep(a / 1000)
                    dc.write(target, op[2], tag, stop_after=1)
                    time.sleep(b / 1000)
                    if os.path.isdir(target):
                        import shutil

                        shutil.rmtree(target)
                    dc.write(target, op[2], tag)
                    time.sleep(c / 1000)
                    log(logfile, repr(("end", key, tag)))

                try:
                    path = cache_file("o", create, [key])
                except Boom:
                    check(op[0] == "bad", "a request failed with the error of another one")
                    continue
                out.append((key, tag, path, dc.read(path)))
        except BaseException as e:
            errors.append(e)

    ts = [threading.Thread(target=body, args=(i, ops), daemon=True) for i, ops in enumerate(threads)]
    for t in ts:
        t.start()
    os.read(r, 1)
    # every process starts to use the cache now
    setup(top, policy, limit)
    ready.wait()
    end = time.time() + 50
    for t in ts:
        t.join(max(0.1, end - time.time()))
        check(not t.is_alive(), "a request hangs")
    if errors:
        raise errors[0]
    for x in out:
        child.say(x)
    if policy != "off":
        dc.sync()


def judge(child, top, want, keys):
    setup(top)
    from earthkit.regrid import cache
    from earthkit.regrid.utils.caching import cache_file

    es = cache.entries()
    check(sorted(e["args"][0] for e in es) == sorted(want), f"entries for {sorted(e['args'] for e in es)}, files were created for {sorted(want)}")
    for e in es:
        n = sum(map(len, want[e["args"][0]].values()))
        check(e["size"] == n, f"entry of {e['args']} has size {e['size']}, the file {n}")
    total = sum(sum(map(len, d.values())) for d in want.values())
    check(cache.size() == total, f"size {cache.size()}, files have {total}")
    check(cache.summary_dump_database() == (len(want), total), f"summary {cache.summary_dump_database()}")
    left = [n for n in os.listdir(top) if n.endswith(".tmp")]
    child.say(("left", left))
    for key in range(4):
        ran = []

        def create(target, _):
            ran.append(1)
            dc.write(target, ("file", 5), key)

        path = cache_file("o", create, [key])
        check(bool(ran) == (key not in want), f"key {key}: created {len(ran)} times afterwards")
        if key in want:
            check(dc.read(path) == want[key], "content changed")


def warm(child, top, keys):
    setup(top)
    from earthkit.regrid.utils.caching import cache_file

    for k in keys:
        cache_file("o", lambda t, _: dc.write(t, ("file", 40), ("before", k)) and None, [k])
    dc.sync()


def run(case, ctx):
    top = ctx.newdir("c")
    logfile = os.path.join(ctx.newdir("l"), "log")
    log(logfile, "('start',)")
    policy = case["policy"]
    before = case["before"] if policy != "off" else []
    if before:
        c = procs.Child(warm, top, before)
        check(c.wait(60) == "done", "first process")
    r, w = os.pipe()
    children = [procs.Child(worker, top, logfile, i, ts, policy, case["limit"], case["jitter"], r, w) for i, ts in enumerate(case["procs"])]
    os.close(r)
    time.sleep(0.002)
    os.close(w)
    got = []
    first = None
    for c in children:
        try:
            res = c.wait(70)
            check(res == "done", f"a process {res}")
            got += c.said()
        except Exception as e:
            first = first or e
    if first is not None:
        raise first
    asked = {}
    for pi, ts in enumerate(case["procs"]):
        for ti, ops in enumerate(ts):
            for op in ops:
                if op[0] in ("get", "bad"):
                    asked.setdefault(op[1], set()).add((pi, ti))
    if any(len(v) > 1 for v in asked.values()):
        ctx.nontrivial()
    ctx.label(f"{len(children)} processes")
    with open(logfile) as f:
        events = [eval(x) for x in f.read().split("\n") if x]
    begun = {}
    for e in events:
        if e[0] == "begin":
            begun.setdefault(e[1], []).append((e[2], e[3]))
        elif e[0] == "bad":
            ctx.label("failed-creator")
    if policy == "off":
        seen = set()
        for key, tag, path, data in got:
            content = [c for t, c in begun[key] if t == tag]
            check(len(content) == 1, "the creator of a request did not run with the policy off")
            check(path not in seen, "two requests share a file with the policy off")
            seen.add(path)
            check(data == dc.files(content[0], tag), "content")
        return
    want = {k: dc.files(("file", 40), ("before", k)) for k in before}
    for key, runs in begun.items():
        check(key not in before, f"key {key} was created again")
        check(len(runs) == 1, f"key {key} was created {len(runs)} times: {[t for t, _ in runs]}")
        want[key] = dc.files(runs[0][1], runs[0][0])
    for key, tag, path, data in got:
        check(key in want, f"key {key} was returned but not created")
        check(data == want[key], f"request {tag} of key {key} read incomplete or other content")
    c = procs.Child(judge, top, want, sorted(asked))
    check(c.wait(60) == "done", "judging process")
    check(c.said() == [("left", [])] or any(e[0] == "bad" for e in events), f"temporary files left: {c.said()}")


# ---------------------------------------------------------------- downloads

DCASE = st.fixed_dictionaries(
    dict(
        procs=st.lists(st.lists(st.lists(st.integers(0, 2), min_size=1, max_size=3), min_size=1, max_size=3), min_size=1, max_size=3),
        sizes=st.lists(st.sampled_from([0, 10, 5000, 100000]), min_size=3, max_size=3),
        wait=st.sampled_from([0, 2, 10]),
    )
)


def download_worker(child, top, base, threads, r, w):
    from earthkit.regrid.utils import no_progress_bar
    from earthkit.regrid.utils.download import download_and_cache

    os.close(w)
    errors, out = [], []
    ready = threading.Barrier(len(threads) + 1)

    def body(todo):
        try:
            ready.wait()
            for i in todo:
                path = download_and_cache(f"{base}/f{i}.npz", progress_bar=no_progress_bar, chunk_size=999)
                out.append((i, path, dc.read(path)[""]))
        except BaseException as e:
            errors.append(e)

    ts = [threading.Thread(target=body, args=(x,), daemon=True) for x in threads]
    for t in ts:
        t.start()
    os.read(r, 1)
    setup(top)
    ready.wait()
    end = time.time() + 50
    for t in ts:
        t.join(max(0.1, end - time.time()))
        check(not t.is_alive(), "a download hangs")
    if errors:
        raise errors[0]
    for x in out:
        child.say(x)


def serve(child, files, wait, r2):
    """The server lives in a process of its own: the checking process stays single-threaded."""
    import httpd

    srv = httpd.Server()
    for p, d in files.items():
        srv.put(p, d, ETag='"1"')
    if wait:
        srv.hook = lambda m, p: time.sleep(wait / 1000)
    child.say(("url", srv.url))
    os.read(r2, 1)
    child.say(("log", srv.take_log()))


def run_download(case, ctx):
    import earthkit.regrid.utils.download  # noqa: F401
    import requests  # noqa: F401

    top = ctx.newdir("c")
    data = [dc.blob(("d", i), n) for i, n in enumerate(case["sizes"])]
    r2, w2 = os.pipe()
    server = procs.Child(_serve_child, {f"/f{i}.npz": d for i, d in enumerate(data)}, case["wait"], r2, w2)
    os.close(r2)
    url = server.first()[1]
    r, w = os.pipe()
    children = [procs.Child(_download_child, top, url, ts, r, w, w2) for ts in case["procs"]]
    os.close(r)
    os.close(w)
    first = None
    try:
        for c in children:
            try:
                res = c.wait(70)
                check(res == "done", f"a process {res}")
                for i, path, got in c.said():
                    check(got == data[i], f"file {i}: {len(got)} bytes, the server has {len(data[i])}")
            except Exception as e:
                first = first or e
    finally:
        os.close(w2)
        server.wait(20)
    if first is not None:
        raise first
    log_ = [m for m in server.said() if m[0] == "log"][0][1]
    asked = [i for ts in case["procs"] for t in ts for i in t]
    for i in set(asked):
        n = sum(1 for m, p, _ in log_ if m == "GET" and p == f"/f{i}.npz")
        check(n == 1, f"file {i} was transferred {n} times")
    ctx.nontrivial(len(asked) > len(set(asked)))


def _serve_child(child, files, wait, r2, w2):
    os.close(w2)
    serve(child, files, wait, r2)


def _download_child(child, top, url, threads, r, w, w2):
    os.close(w2)
    download_worker(child, top, url, threads, r, w)


# ---------------------------------------------------------------- forked processes

FOP = st.one_of(
    st.tuples(st.just("get"), st.integers(0, 3), st.integers(0, 3)),
    st.tuples(st.just("get"), st.integers(0, 3), st.integers(0, 3)),
    st.tuples(st.just("look"), st.sampled_from(["size", "entries", "summary"])),
    st.tuples(st.just("bad"), st.integers(0, 3)),
    st.tuples(st.just("other"), st.sampled_from(["off", "temporary", "dir", "limit"]), st.booleans()),
)
LEAF = st.tuples(st.just("fork"), st.lists(FOP, max_size=4), st.booleans())
TREE = st.tuples(st.just("fork"), st.lists(st.one_of(FOP, FOP, LEAF), max_size=5), st.booleans())
FCASE = st.fixed_dictionaries(
    dict(
        policy=st.sampled_from(["user", "temporary"]),
        first=st.lists(FOP, max_size=3),
        then=st.lists(st.one_of(FOP, TREE, TREE), min_size=1, max_size=6),
    )
)


def forked_ops(child, ops, me, logfile, other):
    """Operations of a process that may be a fork of one that has used the cache."""
    import weakref

    from earthkit.regrid import cache, config
    from earthkit.regrid.utils.caching import cache_file

    started = []

    def request(key, wait, tag, managed=True):
        def create(target, _):
            log(logfile, repr((key, tag) if managed else ("elsewhere", tag)))
            dc.write(target, ("file", 30 + key), ("k", key), stop_after=1)
            time.sleep(wait / 1000)
            dc.write(target, ("file", 30 + key), ("k", key))

        path = cache_file("o", create, [key])
        check(dc.read(path) == dc.files(("file", 30 + key), ("k", key)), f"key {key} read incomplete or other content")
        return path

    def look(what):
        if what == "size":
            cache.size()
        elif what == "entries":
            cache.entries()
        else:
            cache.summary_dump_database()

    def sub(c, ops, me, finalize):
        forked_ops(c, ops, me, logfile, other)
        dc.sync()
        if finalize:
            # what happens when the interpreter exits
            weakref.finalize._exitfunc()

    for i, op in enumerate(ops):
        tag = me + (i,)
        if op[0] == "get":
            path = request(op[1], op[2], tag)
            check(os.path.dirname(path) == cache.directory(), "path is not in the cache directory")
        elif op[0] == "look":
            look(op[1])
        elif op[0] == "bad":

            def create(target, _):
                dc.write(target, ("file", 10), tag, stop_after=1)
                raise Boom()

            try:
                cache_file("o", create, ["bad", op[1]])
                fail("a failing creator gives a path")
            except Boom:
                pass
        elif op[0] == "other":
            if started and op[1] != "limit" and config.get("cache-policy") == "temporary":
                # (the temporary directory of this process, in use in those forked from it, would be removed)
                continue
            top = cache.directory()
            if op[1] == "limit":
                new = {"maximum-cache-size": 10**8}
            elif op[1] == "dir":
                new = {"cache-policy": "user", "user-cache-directory": f"{other}/{len(me)}-{me[-1]}-{os.getpid()}-{i}"}
            else:
                new = {"cache-policy": op[1]}
            same = op[1] == "limit" or op[1] == config.get("cache-policy")
            with config.temporary(new):
                if op[2] and not same:
                    path = request(0, 0, tag, managed=False)
                    check(not path.startswith(top + "/"), "a file went to the directory of other settings")
        elif op[0] == "fork":
            started.append(procs.Child(sub, op[1], tag, op[2]))
    first = None
    for c in started:
        try:
            res = c.wait(25)
            check(res == "done", f"a forked process {res}")
        except Exception as e:
            first = first or e
    if first is not None:
        raise first
    return started


def has(ops, what):
    return any(op[0] == what or op[0] == "fork" and has(op[1], what) for op in ops)


def count_forks(ops):
    return sum(1 + count_forks(op[1]) for op in ops if op[0] == "fork")


def without_changes(ops):
    return [op if op[0] != "fork" else (op[0], op[1], op[2]) for op in ops if op[0] != "other"]


def forked_main(child, case, top, logfile, other):
    from earthkit.regrid import cache, config
    from earthkit.regrid.utils.caching import cache_file

    setup(top, case["policy"])
    # the directory of the main process must stay the same
    first, then = without_changes(case["first"]), without_changes(case["then"])
    forked_ops(child, first, (0,), logfile, other)
    here = cache.directory()
    have = {os.path.join(here, n) for n in os.listdir(here)}
    forked_ops(child, then, (1,), logfile, other)
    check(cache.directory() == here, "the cache directory changed")
    check(os.path.isdir(here), "the cache directory was removed by a forked process")
    gone = [p for p in have if p.endswith(".cache") and not os.path.exists(p)]
    check(not gone, "a file was removed by a forked process")
    with open(logfile) as f:
        events = [eval(x) for x in f.read().split("\n") if x]
    for key in range(4):
        ran = []

        def create(target, _):
            ran.append(1)
            dc.write(target, ("file", 30 + key), ("k", key))

        path = cache_file("o", create, [key])
        check(dc.read(path) == dc.files(("file", 30 + key), ("k", key)), "content afterwards")
        n = sum(1 for e in events if e[0] == key)
        if not has(then, "other") or case["policy"] == "user":
            check(n <= 1, f"key {key} was created {n} times")
            check(bool(ran) == (n == 0), f"key {key}: created {n} times, and {len(ran)} times afterwards")
    es = [e for e in cache.entries() if e["args"][0] in range(4)]
    check(sorted(e["args"][0] for e in es) == [0, 1, 2, 3], f"entries {[e['args'] for e in es]}")
    check(all(e["size"] == 30 + e["args"][0] for e in es), "sizes of the entries")
    check(cache.size() == sum(30 + k for k in range(4)), f"cache size {cache.size()}")
    config.set("cache-policy", "off")
    check(os.path.exists(here) == (case["policy"] == "user"), "the directory after leaving the policy")


def run_forked(case, ctx):
    n = count_forks(case["then"])
    if n and (case["first"] or case["then"][0][0] != "fork"):
        ctx.nontrivial()
    ctx.label(f"{min(n, 4)} forks")
    logfile = os.path.join(ctx.newdir("l"), "log")
    log(logfile, "('start',)")
    c = procs.Child(forked_main, case, ctx.newdir("c"), logfile, ctx.newdir("o"))
    res = c.wait(80)
    check(res == "done", f"the main process {res}")


def parts(tier):
    return [
        Part("files", CASE, run, quick=800, thorough=5000, budget=80),
        Part("downloads", DCASE, run_download, quick=200, thorough=1500, budget=40),
        Part("forked", FCASE, run_forked, quick=900, thorough=2500, budget=40),
    ]
