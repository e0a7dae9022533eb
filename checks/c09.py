import os
import signal

import dc
import filelock  # noqa: F401  (imported before forking)
import inv
import procs
from hypothesis import strategies as st
from vp import Part, check, fail

PROPERTY = "C09"
RULE = (
    "A case is 1-5 process lifetimes over one cache directory followed by a judging process. A lifetime requests files and "
    "directory trees whose creators succeed, raise (Exception, KeyboardInterrupt, SystemExit) after any number of writing "
    "steps, or kill the process there; or the process is killed at the n-th executed line of the cache code (any thread), counted from its start, from the end of a creator or from the first removal of files. "
    "Every returned path must hold one complete creation of its key; the creator must run exactly when no complete file "
    "can exist. The judging process requests every key, compares size, summary and listing, applies a size limit, purges. "
    "Non-trivial: a process was killed or a creator failed after it had begun to write."
)
ASSUMPTIONS = [
    "processes are killed (SIGKILL), the machine is not: what was written stays written",
    "size and metadata of a file whose process was killed just after completing it may be unknown until the next trim",
]

KEY = st.integers(0, 4)
MODE = st.one_of(
    st.just(("ok",)),
    st.just(("ok",)),
    st.tuples(st.sampled_from(["raise", "interrupt", "exit", "kill"]), st.integers(0, 6)),
)
GET = st.tuples(st.just("get"), KEY, dc.st_content, MODE, st.sampled_from([None, None, None, True]))
LIFE = st.fixed_dictionaries(
    dict(
        ops=st.lists(st.one_of(GET, GET, GET, st.tuples(st.just("purge"), KEY), st.tuples(st.just("limit"), st.sampled_from([50, 200, 1000]))), min_size=1, max_size=5),
        # the n-th line, or the n-th one after the k-th creator is done
        crash=st.one_of(
            st.none(),
            st.integers(1, 250),
            st.integers(1, 900),
            st.tuples(st.integers(0, 2), st.integers(1, 60)),
            st.tuples(st.just(0), st.integers(1, 40)),
            # the n-th line after the first removal of files begins
            st.tuples(st.just("removal"), st.integers(1, 150)),
        ),
    )
)
CASE = st.fixed_dictionaries(dict(lives=st.lists(LIFE, min_size=1, max_size=5), last=dc.st_content))


class Boom(Exception):
    pass


def setup(top, limit=None):
    from earthkit.regrid import config

    inv.reset_package()
    config.set({"user-cache-directory": top, "maximum-cache-disk-usage": None, "maximum-cache-size": limit})
    config.set("cache-policy", "user")


def request(child, key, content, tag, mode, force, done=lambda: None):
    from earthkit.regrid.utils.caching import cache_file

    child.say(("start", key, tag, content, force))

    def create(target, _):
        child.say(("creating", key, tag))
        check(not os.path.lexists(target), f"the target exists before the creator runs: {target}")
        dc.write(target, content, tag, stop_after=None if mode[0] == "ok" else mode[1])
        if mode[0] == "raise":
            raise Boom()
        if mode[0] == "interrupt":
            raise KeyboardInterrupt()
        if mode[0] == "exit":
            raise SystemExit(1)
        if mode[0] == "kill":
            os.kill(os.getpid(), signal.SIGKILL)
        done()
        return {"tag": tag}

    try:
        path = cache_file("o", create, [key], force=force)
    except (Boom, KeyboardInterrupt, SystemExit) as e:
        child.say(("failed", key, tag, type(e).__name__))
        return
    child.say(("got", key, tag, path, dc.read(path)))


def life(child, top, ops, crash, tag0):
    done = removal = lambda: None  # noqa: E731
    if crash is None:
        setup(top)
    else:
        # from here on: the start of the process is part of it
        # (shutil too: a tree may be moved or copied by it)
        if isinstance(crash, int):
            procs.crash_at(crash, ("/caching.py", "/shutil.py"))
        else:
            arm = procs.crash_at(crash[1], ("/caching.py", "/shutil.py"), armed=False)
            if crash[0] == "removal":
                removal = arm
            else:
                calls = iter(range(1000))
                done = lambda: arm() if next(calls) == crash[0] else None  # noqa: E731
        setup(top)
    from earthkit.regrid import cache, config

    for i, op in enumerate(ops):
        if op[0] == "get":
            request(child, op[1], op[2], tag0 + i, op[3], op[4], done)
        elif op[0] == "purge":
            child.say(("purge", op[1]))
            removal()
            cache.purge(matcher=lambda e: e["args"] == [op[1]])
            child.say(("purged", op[1]))
        elif op[0] == "limit":
            child.say(("limit", op[1]))
            removal()
            config.set("maximum-cache-size", op[1])
            config.set("maximum-cache-size", None)
            child.say(("limited",))
    dc.sync()


def judge(child, top, content, tag):
    """Another process: everything works."""
    setup(top)
    from earthkit.regrid import cache, config

    cache.summary_dump_database()
    cache.size()
    cache.entries()
    for key in range(5):
        request(child, key, content, tag + key, ("ok",), None)
    paths = {m[3] for _, m in child_got}
    dc.sync()
    es = {e["path"]: e for e in cache.entries()}
    check(set(es) == paths, f"entries {sorted(es)}, files {sorted(paths)}")
    for p, e in es.items():
        n = sum(map(len, dc.read(p).values()))
        check(e["size"] in (None, n), f"entry says {e['size']} bytes, the file has {n}")
    num, total = cache.summary_dump_database()
    check(num == 5, f"summary counts {num} files, there are 5")
    check(cache.size() == total == sum(e["size"] or 0 for e in es.values()), "sizes")
    # a size limit is applied to all of them
    from earthkit.regrid.utils.caching import cache_file

    config.set("maximum-cache-size", 100)
    new = cache_file("o", lambda t, _: dc.write(t, ("file", 80), 0) and None, ["new"])
    dc.sync()
    left = {p for p in paths if os.path.exists(p)}
    n = sum(sum(map(len, dc.read(p).values())) for p in left)
    check(os.path.exists(new), "the newest file was removed")
    check(n + 80 <= 100, f"{n + 80} bytes in the cache after applying a limit of 100")
    config.set("maximum-cache-size", None)
    for p in left:
        key = es[p]["args"]
        cache.purge(matcher=lambda e: e["args"] == key)
        check(not os.path.exists(p), "not purged")
    check(os.path.exists(new), "another file was purged")
    cache.purge()
    check(not os.path.exists(new), "not purged")
    check(cache.summary_dump_database() == (0, 0), f"after the purge: {cache.summary_dump_database()}")
    check(cache.size() == 0 and not cache.entries(), "after the purge")
    # leftovers of the dead may stay until they are orphans, not their sizes
    request(child, 0, content, tag + 10, ("ok",), None)
    dc.sync()
    check(cache.size() == dc.nbytes(content), "size")


child_got = []


def run(case, ctx):
    top = ctx.newdir("c")
    state = {k: ("absent",) for k in range(5)}  # absent | (file, tag) | unknown
    contents = {}
    tag = 0

    def process(messages, what):
        nonlocal state
        open_ = None
        for m in messages:
            if m[0] == "start":
                _, key, t, c, force = m
                contents[(key, t)] = c
                open_ = dict(key=key, tag=t, force=force, ran=False)
            elif m[0] == "creating":
                check(not open_["ran"], f"{what}: the creator ran twice for one request")
                open_["ran"] = True
                ctx.label("creating")
                if state[open_["key"]][0] == "file":
                    check(open_["force"], f"{what}: the creator ran although a complete file existed")
                state[open_["key"]] = ("unknown",)
            elif m[0] == "failed":
                check(open_["ran"], f"{what}: failed without running the creator")
                state[m[1]] = ("absent",)
                ctx.label(f"failed-{m[3]}")
                ctx.nontrivial()
                open_ = None
            elif m[0] == "got":
                _, key, t, path, data = m
                was = state[key]
                if open_["ran"]:
                    check(data == dc.files(contents[(key, t)], t), f"{what}: what the creator wrote is not what was returned")
                    state[key] = ("file", t)
                else:
                    check(was[0] != "absent", f"{what}: a path was returned although nothing was created: {path}")
                    if was[0] == "file":
                        check(data == dc.files(contents[(key, was[1])], was[1]), f"{what}: content changed")
                    else:
                        full = [k for k, c in contents.items() if k[0] == key and data == dc.files(c, k[1])]
                        check(full, f"{what}: partial content was returned for key {key}")
                        state[key] = ("file", full[0][1])
                        ctx.label("kept-after-kill")
                open_ = None
            elif m[0] == "purge":
                state[m[1]] = ("unknown",) if state[m[1]][0] != "absent" else ("absent",)
                open_ = None
            elif m[0] == "purged":
                state[m[1]] = ("absent",)
            elif m[0] == "limit":
                # any file may go
                state = {k: ("unknown",) if v[0] != "absent" else v for k, v in state.items()}
        if open_ is not None:
            # killed during a request
            if state[open_["key"]][0] == "file" and open_["force"]:
                state[open_["key"]] = ("unknown",)
            elif state[open_["key"]][0] == "absent":
                # it may have been completed
                state[open_["key"]] = ("unknown",)

    for i, lf in enumerate(case["lives"]):
        c = procs.Child(life, top, lf["ops"], lf["crash"], tag)
        r = c.wait(60)
        tag += 10
        check(r != "hangs", f"process {i} hangs")
        if r == "killed":
            ctx.nontrivial()
            ctx.label("killed-line" if lf["crash"] is not None and not any(o[0] == "get" and o[3][0] == "kill" for o in lf["ops"]) else "killed-creator")
        # unknown: file of an earlier tag that may have been kept
        process(c.said(), f"process {i}")

    class Judge:
        pass

    def judging(child):
        orig = child.say

        def say(m):
            if m[0] == "got":
                child_got.append((0, m))
            orig(m)

        child.say = say
        judge(child, top, case["last"], tag)

    c = procs.Child(judging)
    r = c.wait(60)
    check(r == "done", f"the judging process {r}")
    process([m for m in c.said() if not (m[0] in ("start", "creating", "got") and m[2] == tag + 10)], "judging process")


def parts(tier):
    return [Part("crashes", CASE, run, quick=1250, thorough=6000, budget=110)]
