import os
import shutil
import threading
import time

import dc
import inv
from hypothesis import strategies as st
from vp import Part, check, fail

PROPERTY = "C11"
RULE = (
    "A case is a history of 4-30 operations on a managed cache without limit: request files and directory trees (several "
    "owners and arguments, sizes from 0), force, let creators fail, keep a creation in progress (an hour long for all that can be seen), purge with generated "
    "matchers (owner, argument, size, type, path, nothing, everything) or without, drop foreign files and directories of "
    "various ages, lose files, close and reopen the cache. After every operation entries, size, summary (whole and "
    "matched) and the directory are compared with a model. Non-trivial: a purge that removes some but not all entries, "
    "or a directory or empty file is present when everything is compared."
)
ASSUMPTIONS = [
    "a file removed by somebody else may still be counted in size and summary until it is requested or purged",
    "a file being created may be counted in the summary, without size",
    "foreign files older than two minutes may be adopted as orphans and purged",
]

OWNER = st.integers(0, len(dc.OWNERS) - 1)
MATCH = st.one_of(
    st.tuples(st.just("owner"), OWNER),
    st.tuples(st.just("size"), st.sampled_from([0, 1, 100, 101, 1000])),
    st.tuples(st.just("type"), st.sampled_from(["file", "directory"])),
    st.tuples(st.just("arg"), st.integers(0, 5)),
    st.tuples(st.just("nth"), st.lists(st.integers(0, 9), max_size=3)),
    st.tuples(st.just("all")),
    st.tuples(st.just("none")),
)
OP = st.one_of(
    st.tuples(st.just("get"), OWNER, st.integers(0, 5), dc.st_content),
    st.tuples(st.just("get"), OWNER, st.integers(0, 5), dc.st_content),
    st.tuples(st.just("get"), OWNER, st.integers(0, 5), dc.st_content),
    st.tuples(st.just("many"), st.lists(st.tuples(OWNER, st.integers(0, 5), dc.st_content), min_size=2, max_size=5)),
    st.tuples(st.just("force"), st.integers(0, 99), dc.st_content),
    st.tuples(st.just("failing"), OWNER, st.integers(0, 5), dc.st_content, st.integers(0, 4)),
    st.tuples(st.just("purge"), MATCH),
    st.tuples(st.just("purge_raise"), st.integers(0, 3)),
    st.tuples(st.just("purge"), MATCH),
    st.tuples(st.just("purge_all")),
    st.tuples(st.just("foreign"), st.sampled_from([0, 60, 110, 3600]), st.booleans(), st.integers(0, 50)),
    st.tuples(st.just("lose"), st.integers(0, 99)),
    st.tuples(st.just("begin"), OWNER, st.integers(0, 5), st.booleans()),
    st.tuples(st.just("finish")),
    st.tuples(st.just("reopen")),
)
CASE = st.fixed_dictionaries(dict(ops=st.lists(OP, min_size=4, max_size=30), policy=st.sampled_from(["user", "user", "temporary"])))


def run(case, ctx):
    from earthkit.regrid import cache, config
    from earthkit.regrid.utils.caching import cache_file

    inv.reset_package()
    config.set({"user-cache-directory": ctx.newdir("c"), "maximum-cache-disk-usage": None, "maximum-cache-size": None})
    config.set("cache-policy", case["policy"])
    files = {}  # (owner, arg) -> dict
    lost = {}  # path -> size of files removed by others
    foreign = {}  # path -> age
    running = []
    count = 0

    class Boom(Exception):
        pass

    def args(key):
        return {"n": key[1], "x": ["y"]}

    def get(key, content, force=None, stop=None):
        nonlocal count
        count += 1
        tag = count

        def create(target, _):
            done = dc.write(target, content, tag, stop_after=stop)
            if stop is not None:
                raise Boom()
            return {"tag": tag}

        known = files.get(key)
        if any(r["key"] == key for r in running):
            return
        try:
            path = cache_file(dc.OWNERS[key[0]], create, args(key), force=force)
        except Boom:
            check(stop is not None and (known is None or force), "the creator should not have run")
            if known is not None:
                files.pop(key, None)
            return
        if known is None or force:
            check(stop is None, "no error although the creator failed")
            files[key] = dict(path=path, content=content, tag=tag, size=dc.nbytes(content))
        check(dc.read(path) == dc.files(files[key]["content"], files[key]["tag"]), "content")
        lost.pop(path, None)

    def compare(what):
        size = cache.size()
        es = cache.entries()
        num, total = cache.summary_dump_database()
        paths = [e["path"] for e in es]
        check(len(set(paths)) == len(paths), f"{what}: an entry is listed twice")
        adopted = {p for p in paths if p in foreign and foreign[p] >= 120}
        want = {f["path"] for f in files.values()}
        check(set(paths) - adopted == want, f"{what}: entries list {len(paths)} files, {len(want)} exist")
        by = {e["path"]: e for e in es}
        for key, f in files.items():
            e = by[f["path"]]
            check(os.path.exists(f["path"]), f"{what}: file lost")
            check(e["size"] == f["size"], f"{what}: entry says {e['size']} bytes, the file has {f['size']}")
            check(e["owner"] == dc.OWNERS[key[0]], f"{what}: owner")
            check(e["args"] == args(key), f"{what}: args {e['args']}")
            check(e["owner_data"] == {"tag": f["tag"]}, f"{what}: owner data {e['owner_data']}")
            check(e["type"] == ("file" if f["content"][0] == "file" else "directory"), f"{what}: type {e['type']}")
        n = len(files) + len(adopted)
        b = sum(f["size"] for f in files.values()) + sum(by[p]["size"] or 0 for p in adopted)
        slack = sum(lost.values())
        check(b <= size <= b + slack, f"{what}: size {size}, files have {b}")
        check(b <= total <= b + slack, f"{what}: summary says {total} bytes, files have {b}")
        check(n <= num <= n + len(lost) + len(running), f"{what}: summary says {num} files, there are {n}")
        for o in {k[0] for k in files}:
            got = cache.summary_dump_database(matcher=lambda e: e["owner"] == dc.OWNERS[o] and e["size"] is not None and os.path.exists(e["path"]))
            mine = [f["size"] for k, f in files.items() if k[0] == o]
            check(tuple(got) == (len(mine), sum(mine)), f"{what}: summary of one owner {got}, expected {len(mine), sum(mine)}")
        for p, age in foreign.items():
            check(age >= 120 or os.path.exists(p), f"{what}: a foreign file of {age} seconds was deleted")
        # nothing else in the directory
        top = cache.directory()
        known = want | set(foreign) | {os.path.join(top, "cache-2.db"), os.path.join(top, "cache-2.db-journal")}
        for r in running:
            known |= {r["target"], r["target"][:-4] + ".lock"}
        others = [n for n in os.listdir(top) if os.path.join(top, n) not in known and not n.endswith((".lock", ".tmp"))]
        check(not others, f"{what}: {others} in the cache directory without an entry")
        if any(f["content"][0] == "dir" or f["size"] == 0 for f in files.values()) and len(files) > 1:
            ctx.nontrivial()
            ctx.label("with-dir-or-empty")

    def matcher(m):
        order = sorted(f["path"] for f in files.values())
        if m[0] == "owner":
            return lambda e: e["owner"] == dc.OWNERS[m[1]]
        if m[0] == "size":
            return lambda e: e["size"] is not None and e["size"] <= m[1]
        if m[0] == "type":
            return lambda e: e["type"] == m[1]
        if m[0] == "arg":
            return lambda e: isinstance(e["args"], dict) and e["args"].get("n") == m[1]
        if m[0] == "nth":
            pick = {order[i % len(order)] for i in m[1]} if order else set()
            return lambda e: e["path"] in pick
        if m[0] == "all":
            return lambda e: True
        return lambda e: False

    def matches(m, key, f, order):
        return {
            "owner": lambda: dc.OWNERS[key[0]] == dc.OWNERS[m[1]],
            "size": lambda: f["size"] <= m[1],
            "type": lambda: (m[1] == "file") == (f["content"][0] == "file"),
            "arg": lambda: key[1] == m[1],
            "nth": lambda: f["path"] in {order[i % len(order)] for i in m[1]},
            "all": lambda: True,
            "none": lambda: False,
        }[m[0]]()

    try:
        for op in case["ops"]:
            ctx.label(op[0])
            if op[0] == "get":
                get((op[1], op[2]), op[3])
            elif op[0] == "many":
                for o, a, c in op[1]:
                    get((o, a), c)
            elif op[0] == "force" and files:
                get(sorted(files)[op[1] % len(files)], op[2], force=True)
            elif op[0] == "failing":
                get((op[1], op[2]), op[3], stop=op[4])
            elif op[0] == "purge":
                m = op[1]
                order = sorted(f["path"] for f in files.values())
                go = {k for k, f in files.items() if matches(m, k, f, order)}
                cache.purge(matcher=matcher(m))
                for k in go:
                    check(not os.path.lexists(files[k]["path"]), f"purge {m}: a matching file is still there")
                    del files[k]
                for k, f in files.items():
                    check(os.path.exists(f["path"]), f"purge {m}: a file that does not match was deleted")
                for p in foreign:
                    check(os.path.exists(p), f"purge {m}: a foreign file was deleted")
                ctx.nontrivial(bool(go) and bool(files))
                ctx.label("partial-purge" if go and files else "purge0")
            elif op[0] == "purge_raise":
                # a matcher that fails removes nothing
                seen = []

                def raising(e):
                    seen.append(e)
                    if len(seen) > op[1]:
                        raise Boom()
                    return True

                try:
                    cache.purge(matcher=raising)
                    go = True
                except Boom:
                    go = False
                    ctx.label("purge-raises")
                if go:
                    for f in files.values():
                        check(not os.path.lexists(f["path"]), "purge: a matching file is still there")
                    files.clear()
            elif op[0] == "purge_all":
                cache.purge()
                for f in files.values():
                    check(not os.path.lexists(f["path"]), f"purge: {f['size']} bytes file still there")
                files.clear()
                lost.clear()
                foreign = {p: a for p, a in foreign.items() if a < 120 or os.path.exists(p)}
            elif op[0] == "foreign":
                p = os.path.join(cache.directory(), f"foreign-{len(foreign)}-{count}.dat")
                if op[2]:
                    os.makedirs(p)
                    with open(os.path.join(p, "x"), "wb") as g:
                        g.write(b"y" * op[3])
                else:
                    with open(p, "wb") as g:
                        g.write(b"y" * op[3])
                t = time.time() - op[1]
                os.utime(p, (t, t))
                foreign[p] = op[1]
            elif op[0] == "lose" and files:
                k = sorted(files)[op[1] % len(files)]
                f = files.pop(k)
                shutil.rmtree(f["path"]) if os.path.isdir(f["path"]) else os.unlink(f["path"])
                lost[f["path"]] = f["size"]
            elif op[0] == "begin" and not running and (op[1], op[2]) not in files:
                key = (op[1], op[2])
                count += 1
                r = dict(key=key, tag=count, event=threading.Event(), started=threading.Event())

                def work(r=r):
                    def create(target, _):
                        r["target"] = target
                        data = dc.blob(r["tag"], 300)
                        with open(target, "wb") as g:
                            g.write(data[:100])
                            g.flush()
                            r["started"].set()
                            r["event"].wait(60)
                            g.write(data[100:])
                        return {"tag": r["tag"]}

                    try:
                        r["path"] = cache_file(dc.OWNERS[key[0]], create, args(key))
                    except BaseException as e:
                        r["error"] = e
                        r["started"].set()

                r["thread"] = threading.Thread(target=work, daemon=True)
                r["thread"].start()
                check(r["started"].wait(60), "creation did not start")
                running.append(r)
                if op[3]:
                    dc.backdate(r["target"])
                    ctx.label("slow-creation")
            elif op[0] == "finish" and running:
                r = running.pop()
                r["event"].set()
                r["thread"].join(60)
                if "error" in r:
                    raise r["error"]
                check(dc.read(r["path"]) == dc.files(("file", 300), r["tag"]), "content")
                files[r["key"]] = dict(path=r["path"], content=("file", 300), tag=r["tag"], size=300)
                lost.pop(r["path"], None)
                ctx.label("finished")
            elif op[0] == "reopen" and case["policy"] == "user" and not running:
                config.set("cache-policy", "off")
                config.set("cache-policy", "user")
            compare(op[0])
    finally:
        for r in running:
            r["event"].set()
            r["thread"].join(10)


def parts(tier):
    return [Part("listing", CASE, run, quick=3000, thorough=12000, budget=100)]
