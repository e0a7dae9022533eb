import os
import signal
import threading
import time

import dc
import filelock  # noqa: F401  (imported before forking)
import inv
import procs
from hypothesis import strategies as st
from vp import Part, check, fail

PROPERTY = "C10"
RULE = (
    "A case is a history of 5-35 operations on a managed cache: add a file or directory of 0-5000 bytes, access an "
    "earlier one, set or remove the size limit (absolute, or just around the current total), set the disk-usage limit to "
    "0% or 100%, temporary limits, keep a creation in progress (some look as if they had lasted for an hour) in another thread while others go on, kill another process in a creation, and drop an old "
    "foreign file (orphan) into the directory. After each operation the survivors are judged against the size limit and "
    "the recorded order of accesses. disk: histories of added and accessed files, of changes of the disk-usage limit and of "
    "what others keep on the disk, where the numbers of the file system are made up (a disk of 100000 bytes). Non-trivial: at least one file had to be removed."
)
ASSUMPTIONS = [
    "files are not removed by others during the history",
    "an orphan counts from the trim that finds it on; it may stay until a later file is added",
    "a disk-usage limit of 0% means everything but the most recent file goes",
    "the disk usage is known to whole percent; the size of the disk is read with os.statvfs",
]

SIZE = st.sampled_from([0, 1, 10, 100, 100, 500, 500, 1000, 1000, 5000])
KIND = st.sampled_from(["file", "file", "dir"])
OP = st.one_of(
    st.tuples(st.just("add"), SIZE, KIND),
    st.tuples(st.just("add"), SIZE, KIND),
    st.tuples(st.just("add"), SIZE, KIND),
    st.tuples(st.just("access"), st.integers(0, 99)),
    # several files, accessed in another order
    st.tuples(st.just("burst"), st.lists(SIZE, min_size=3, max_size=6), st.lists(st.integers(0, 99), min_size=1, max_size=4)),
    st.tuples(st.just("force"), st.integers(0, 99), SIZE),
    st.tuples(st.just("limit"), st.sampled_from([0, 1, 50, 100, 600, 1500, 3000, 10000])),
    st.tuples(st.just("limit_rel"), st.sampled_from([-1001, -500, -100, -1, 0, 1, 100, 700])),
    st.tuples(st.just("nolimit")),
    st.tuples(st.just("push"), st.sampled_from([1, 100, 1100, 2600])),
    st.tuples(st.just("pop")),
    st.tuples(st.just("usage"), st.sampled_from(["0%", "100%", None])),
    st.tuples(st.just("begin"), SIZE, st.sampled_from([False, False, True])),
    st.tuples(st.just("finish"), st.integers(0, 9)),
    st.tuples(st.just("orphan"), SIZE),
    st.tuples(st.just("reopen")),
    st.tuples(st.just("killed"), st.sampled_from([0, 1, 100]), st.integers(0, 3), st.booleans()),
    st.tuples(st.just("again"), SIZE),
)
CASE = st.fixed_dictionaries(
    dict(
        ops=st.lists(OP, min_size=5, max_size=35),
        policy=st.sampled_from(["user", "temporary"]),
        limit=st.sampled_from([None, None, 100, 100, 1000, 1000, 1700, 1700, 4000, 4000, 0]),
        orphans=st.sampled_from([False, False, True]),
    )
)


def run(case, ctx):
    from earthkit.regrid import cache, config
    from earthkit.regrid.utils.caching import cache_file

    inv.reset_package()
    config.set({"user-cache-directory": ctx.newdir("c"), "maximum-cache-disk-usage": None, "maximum-cache-size": case["limit"]})
    config.set("cache-policy", case["policy"])
    limit = [case["limit"]]
    usage = None
    clock = 0
    files = {}  # id -> dict(path, size, access, created)
    orphans = {}  # path -> dict(size, registered, created)
    killed = []  # (id, path of what was left)
    running = []  # dict(id, thread, event, started)
    frames = []
    nid = 0

    def tick():
        nonlocal clock
        clock += 1
        return clock

    def content(size, kind):
        return ("file", size) if kind == "file" else ("dir", [size // 2], [size - size // 2])

    def judge(what, must=True):
        """The cache after an operation that added a file or changed a limit."""
        dc.sync()
        gone = {i for i, f in files.items() if not os.path.exists(f["path"])}
        ogone = {p for p in orphans if not os.path.exists(p)}
        maxi = limit[-1]
        over_usage = False
        if usage == "0%":
            s = os.statvfs(cache.directory())
            over_usage = (s.f_blocks - s.f_bavail) / s.f_blocks > 0.01
        total = sum(f["size"] for f in files.values()) + sum(o["size"] for o in orphans.values() if o["reg"])
        newest = max(files, key=lambda i: files[i]["created"], default=None)
        # nothing created after the start of a creation in progress is removed
        horizon = min((r["started"] for r in running), default=None)
        if horizon is None and files:
            horizon = files[newest]["created"]
        fresh_orphans = [p for p, o in orphans.items() if not o["reg"]]
        trims = (maxi is not None and total > maxi) or over_usage
        if not trims:
            check(not gone and not ogone, f"{what}: {len(gone)} files removed though total {total} is within the limit {maxi} {usage}")
            return
        ctx.nontrivial(bool(gone or ogone))
        check(running or newest not in gone, f"{what}: the most recent file was removed (total {total}, limit {maxi})", key="newest")
        for r in running:
            check(r["thread"].is_alive(), "creation ended")
        for i in gone:
            f = files[i]
            check(horizon is None or f["created"] < horizon, f"{what}: a file created during a running creation was removed")
        # order: orphans first, then by last access
        order = [("o", p, o["size"], o["created"]) for p, o in orphans.items() if o["reg"]]
        order += [("f", i, f["size"], f["created"]) for i, f in sorted(files.items(), key=lambda t: t[1]["access"])]
        removed = [k for k in order if (k[1] in gone or k[1] in ogone)]
        kept = [k for k in order if not (k[1] in gone or k[1] in ogone)]
        free = [k for k in kept if horizon is None or k[3] < horizon]
        size = sum(k[2] for k in kept)
        if usage == "0%" and over_usage:
            check(not free or not must, f"{what}: {len(free)} files stay with a disk usage limit of 0%")
        else:
            check(size <= maxi or not free or not must, f"{what}: total {size} is above the limit {maxi}, {len(free)} more files could go")
            last = None
            for k in order:
                if k[1] in gone:
                    last = k
            if last is not None:
                for k in order[: order.index(last)]:
                    if k[0] == "f":
                        check(k in removed or k not in free, f"{what}: a file was removed before a less recently used one")
                need = size + last[2]
                check(need > maxi, f"{what}: more files removed than needed (total without the last removal {need}, limit {maxi})")
        for i in gone:
            del files[i]
        for p in ogone:
            del orphans[p]
        listed = {e["path"] for e in cache.entries()}
        for p in fresh_orphans:
            if p in listed:
                orphans[p].update(reg=True, created=tick())
                ctx.label("orphan-found")
        ctx.label("trimmed")
        # what is left is complete and accounted for
        want = sum(f["size"] for f in files.values()) + sum(o["size"] for o in orphans.values() if o["reg"])
        got = cache.size()
        check(got == want, f"{what}: size {got}, files have {want}")
        check(listed == {f["path"] for f in files.values()} | {p for p, o in orphans.items() if o["reg"]}, f"{what}: entries do not match the files")

    def add(size, kind):
        nonlocal nid
        nid += 1
        i = nid
        c = content(size, kind)
        t = tick()
        path = cache_file("o", lambda target, _: dc.write(target, c, i), [i])
        files[i] = dict(path=path, size=size, access=t, created=t, content=c)
        judge(f"add {size}")

    def access(what, j, size):
        if not files:
            return
        i = sorted(files)[j % len(files)]
        f = files[i]
        ran = []

        def create(target, _):
            ran.append(1)
            dc.write(target, ("file", size), i)

        t = tick()
        path = cache_file("o", create, [i], force=True if what == "force" else None)
        check(path == f["path"], "path changed")
        f["access"] = t
        check(len(ran) == (what == "force"), "creator")
        if what == "force":
            f.update(created=t, size=size, content=("file", size))
            judge("force")
        if i in files:
            check(dc.read(path) == dc.files(f["content"], i), "content")

    try:
        for op in case["ops"]:
            ctx.label(op[0])
            if op[0] == "add":
                add(op[1], op[2])
            elif op[0] == "burst":
                for size in op[1]:
                    add(size, "file")
                for j in op[2]:
                    access("access", j, 0)
            elif op[0] in ("access", "force"):
                access(op[0], op[1], op[-1])
            elif op[0] in ("limit", "limit_rel"):
                v = op[1]
                if op[0] == "limit_rel":
                    v = sum(f["size"] for f in files.values()) + v
                if v >= 0:
                    must = limit[-1] is None or v < limit[-1]
                    limit[-1] = v
                    config.set("maximum-cache-size", v)
                    judge(f"limit {v}", must)
            elif op[0] == "nolimit":
                limit[-1] = None
                config.set("maximum-cache-size", None)
                judge("no limit", False)
            elif op[0] == "push":
                must = limit[-1] is None or op[1] < limit[-1]
                limit.append(op[1])
                cm = config.temporary("maximum-cache-size", op[1])
                frames.append((cm, usage))
                cm.__enter__()
                judge("temporary limit", must)
            elif op[0] == "pop" and frames:
                old, old_usage = limit.pop(), usage
                cm, usage = frames.pop()
                cm.__exit__(None, None, None)
                must = (limit[-1] is not None and (old is None or limit[-1] < old)) or (usage == "0%" and old_usage != "0%")
                judge("end of temporary limit", must)
            elif op[0] == "usage":
                must = op[1] == "0%" and usage != "0%"
                usage = op[1]
                config.set("maximum-cache-disk-usage", usage)
                judge(f"usage {usage}", must)
            elif op[0] == "begin" and len(running) < 2:
                nid += 1
                i, size = nid, op[1]
                ev, started, out = threading.Event(), threading.Event(), {}

                def work(i=i, size=size, ev=ev, started=started, out=out):
                    def create(target, _):
                        out["target"] = target
                        dc.write(target, ("file", size), i, stop_after=1)
                        started.set()
                        ev.wait(60)
                        dc.write(target, ("file", size), i)

                    try:
                        out["path"] = cache_file("o", create, [i])
                    except BaseException as e:
                        out["error"] = e
                        started.set()

                t = tick()
                th = threading.Thread(target=work, daemon=True)
                th.start()
                check(started.wait(60), "creation did not start")
                running.append(dict(id=i, thread=th, event=ev, started=t, out=out, size=size))
                if op[2]:
                    dc.backdate(out["target"])
                    ctx.label("slow-creation")
            elif op[0] == "finish" and running:
                r = running.pop(op[1] % len(running))
                r["event"].set()
                r["thread"].join(60)
                check(not r["thread"].is_alive(), "creation hangs")
                if "error" in r["out"]:
                    raise r["out"]["error"]
                files[r["id"]] = dict(path=r["out"]["path"], size=r["size"], access=r["started"], created=r["started"], content=("file", r["size"]))
                judge("finish")
                ctx.label("finished")
            elif op[0] == "orphan" and case["orphans"] and len(orphans) < 3:
                p = os.path.join(cache.directory(), f"foreign{tick()}")
                with open(p, "wb") as g:
                    g.write(b"x" * op[1])
                old = time.time() - 3600
                os.utime(p, (old, old))
                orphans[p] = dict(size=op[1], reg=False, created=None)
            elif op[0] == "killed" and case["policy"] == "user" and not running and not frames:
                # another process is killed in a creator; what it leaves must not keep anything else here
                nid += 1

                def die(child, i=nid, op=op):
                    def create(target, _):
                        child.say(target)
                        dc.write(target, ("file", op[1]), i, stop_after=op[2])
                        os.kill(os.getpid(), signal.SIGKILL)

                    cache_file("o", create, [i])

                child = procs.Child(die)
                check(child.wait() == "killed", "not killed")
                tmp = child.said()[0]
                killed.append((nid, tmp))
                tick()
                if op[3]:
                    dc.backdate(tmp)
                    if os.path.exists(tmp):
                        orphans[tmp] = dict(size=os.path.getsize(tmp), reg=False, created=None)
            elif op[0] == "again" and killed:
                # what was interrupted is created after all
                i, tmp = killed.pop()
                t = tick()
                orphans.pop(tmp, None)
                path = cache_file("o", lambda target, _: dc.write(target, ("file", op[1]), i), [i])
                check(path + ".tmp" == tmp, "path")
                files[i] = dict(path=path, size=op[1], access=t, created=t, content=("file", op[1]))
                judge("again")
            elif op[0] == "reopen" and case["policy"] == "user" and not running:
                config.set("cache-policy", "off")
                config.set("cache-policy", "user")
                judge("reopen", False)
        for i, f in files.items():
            check(dc.read(f["path"]) == dc.files(f["content"], i), "content changed")
    finally:
        for r in running:
            r["event"].set()
            r["thread"].join(10)
        while frames:
            frames.pop()[0].__exit__(None, None, None)


TOTAL = 100000
DISK_OP = st.one_of(
    st.tuples(st.just("add"), st.sampled_from([0, 100, 1000, 2500, 3000, 7000, 12000]), KIND),
    st.tuples(st.just("add"), st.sampled_from([500, 1000, 1900, 4000, 9999]), KIND),
    st.tuples(st.just("access"), st.integers(0, 99)),
    st.tuples(st.just("usage"), st.sampled_from([None, 1, 20, 40, 45, 50, 55, 60, 80, 99, 100]), st.booleans()),
    # what others have on the disk
    st.tuples(st.just("others"), st.sampled_from([0, 10000, 30000, 39900, 40400, 48000, 60000, 90000])),
)
DISK = st.fixed_dictionaries(
    dict(
        ops=st.lists(DISK_OP, min_size=5, max_size=30),
        policy=st.sampled_from(["user", "user", "temporary"]),
        usage=st.sampled_from([None, 50, 50, 60, 45]),
        others=st.sampled_from([0, 30000, 40000]),
        reserved=st.sampled_from([0, 0, 5000]),
    )
)


def run_disk(case, ctx):
    """the limit on the usage of a small disk (the numbers of the file system are made up)"""
    from earthkit.regrid import cache, config
    from earthkit.regrid.utils.caching import cache_file

    inv.reset_package()
    config.set({"user-cache-directory": ctx.newdir("c"), "maximum-cache-disk-usage": None, "maximum-cache-size": None})
    config.set("cache-policy", case["policy"])
    real = os.statvfs
    top = os.path.realpath(cache.directory())
    others, usage = case["others"], case["usage"]
    files = {}  # id -> dict(path, size, access)
    clock = 0

    def on_disk():
        n = 0
        for root, _, names in os.walk(top):
            for x in names:
                if ".db" not in x and not x.endswith(".lock"):
                    n += os.path.getsize(os.path.join(root, x))
        return n

    def statvfs(path):
        s = real(path)
        if not isinstance(path, (str, os.PathLike)) or not os.path.realpath(path).startswith(top):
            return s
        free = max(0, TOTAL - others - on_disk() - case["reserved"])
        v = list(s)
        v[0] = v[1] = 1
        v[2:5] = [TOTAL, free + case["reserved"], free]
        return os.statvfs_result(v)

    def percent(of):
        return min(TOTAL, others + case["reserved"] + of) * 100 / TOTAL

    def judge(what, must=True):
        dc.sync()
        total = sum(f["size"] for f in files.values())
        gone = [i for i, f in files.items() if not os.path.exists(f["path"])]
        before = percent(total)
        newest = max(files, key=lambda i: files[i]["created"], default=None)
        check(newest not in gone, f"{what}: the most recent file was removed")
        order = sorted(files, key=lambda i: files[i]["access"])
        for i in gone:
            for j in order[: order.index(i)]:
                check(j in gone or j == newest, f"{what}: a file was removed before a less recently used one")
        if usage is None or before <= usage:
            check(not gone, f"{what}: {len(gone)} files removed although {before}% of the disk are used, limit {usage}")
        else:
            kept = [i for i in files if i not in gone and i != newest]
            after = percent(sum(f["size"] for i, f in files.items() if i not in gone))
            # (the usage is rounded to whole percent)
            if before >= usage + 0.5 and must:
                check(after <= usage + 0.5 or not kept, f"{what}: {after}% of the disk are used, limit {usage}, and {len(kept)} more files could go")
            if gone:
                last = max(gone, key=lambda i: files[i]["access"])
                without = percent(sum(f["size"] for i, f in files.items() if i not in gone) + files[last]["size"])
                check(
                    without >= usage - 0.5 - 100 * 1.01 / TOTAL or percent(0) >= 100 or before >= 100,
                    f"{what}: more files removed than needed: {without}% of the disk were used before the last removal, limit {usage}",
                )
                ctx.nontrivial()
                ctx.label("trimmed")
        for i in gone:
            del files[i]
        check(cache.size() == sum(f["size"] for f in files.values()), f"{what}: size {cache.size()}")
        check({e["path"] for e in cache.entries()} == {f["path"] for f in files.values()}, f"{what}: entries do not match the files")

    os.statvfs = statvfs
    try:
        config.set("maximum-cache-disk-usage", usage)
        for op in case["ops"]:
            clock += 1
            ctx.label(op[0])
            if op[0] == "add":
                size, kind = op[1:]
                c = ("file", size) if kind == "file" else ("dir", [size // 2], [size - size // 2])
                path = cache_file("o", lambda target, _: dc.write(target, c, clock), [clock])
                files[clock] = dict(path=path, size=size, access=clock, created=clock)
                judge(f"add {size}")
            elif op[0] == "access" and files:
                i = sorted(files)[op[1] % len(files)]
                ran = []
                check(cache_file("o", lambda target, _: ran.append(1), [i]) == files[i]["path"] and not ran, "not reused")
                files[i]["access"] = clock
            elif op[0] == "usage":
                must = op[1] is not None and (usage is None or op[1] < usage)
                usage = op[1]
                config.set("maximum-cache-disk-usage", f"{usage}%" if op[2] and usage is not None else usage)
                judge(f"usage {usage}", must)
            elif op[0] == "others":
                others = op[1]
    finally:
        os.statvfs = real


def parts(tier):
    return [
        Part("limit", CASE, run, quick=2400, thorough=10000, budget=100),
        Part("disk", DISK, run_disk, quick=800, thorough=6000, budget=60),
    ]
