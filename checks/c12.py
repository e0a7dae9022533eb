import os
import tempfile

import dc
import inv
from hypothesis import strategies as st
from vp import Part, check, fail

PROPERTY = "C12"
RULE = (
    "A case is a history of 5-30 operations: set any of the cache settings (policy, user directory out of 5 spellings "
    "incl. ~ and not existing ones, both temporary roots, size limit) one by one or several at once, enter and leave "
    "(also by an exception) nested temporary contexts of such settings, reset, and request files of 8 keys. After each "
    "operation the cache directory, the files of all directories visited so far and the temporary roots are compared "
    "with a model of the settings. Non-trivial: a user directory is returned to with files created before, or a "
    "temporary directory with files is left."
)
ASSUMPTIONS = ["directories are writable; nothing else touches them"]

POLICY = st.sampled_from(["user", "user", "temporary", "off"])
USERDIR = st.integers(0, 4)
ROOT = st.sampled_from([None, 0, 1, 2])
LIMIT = st.sampled_from([None, None, 400, 1000, 2000])
SETTINGS = st.fixed_dictionaries(
    {},
    optional={"policy": POLICY, "user": USERDIR, "troot": ROOT, "oroot": ROOT, "limit": LIMIT},
)
ADD = st.tuples(st.just("get"), st.integers(0, 7), st.sampled_from([0, 1, 100, 300, 300, 900]))
OP = st.one_of(
    ADD,
    ADD,
    st.tuples(st.just("adds"), st.lists(st.tuples(st.integers(0, 7), st.sampled_from([1, 100, 300])), min_size=1, max_size=4)),
    st.tuples(st.just("set"), SETTINGS),
    st.tuples(st.just("set"), SETTINGS),
    st.tuples(st.just("set1"), st.sampled_from(["policy", "user", "troot", "oroot", "limit"]), st.integers(0, 9)),
    st.tuples(st.just("push"), SETTINGS),
    st.tuples(st.just("push"), SETTINGS),
    st.tuples(st.just("pop"), st.booleans()),
    st.tuples(st.just("pop"), st.booleans()),
    # a change right after requests, while the cache still works on them
    st.tuples(st.just("rush"), st.lists(st.integers(0, 7), min_size=1, max_size=3), SETTINGS),
    st.tuples(st.just("visit"), st.integers(0, 4)),
    st.tuples(st.just("reset")),
)
CASE = st.fixed_dictionaries(dict(ops=st.lists(OP, min_size=5, max_size=30), first=SETTINGS))

NAMES = {
    "policy": "cache-policy",
    "user": "user-cache-directory",
    "troot": "temporary-cache-directory-root",
    "oroot": "temporary-directory-root",
    "limit": "maximum-cache-size",
}


def run(case, ctx):
    from earthkit.regrid import cache, config
    from earthkit.regrid.utils.caching import cache_file

    inv.reset_package()
    base = ctx.newdir("p")
    cache.purge()  # the default directory is shared by the cases
    config.set("maximum-cache-disk-usage", None)
    home = os.path.expanduser("~")
    users = [f"{base}/u0", f"{base}/u0x/deep/er", f"{base}/u2/", f"~/vp{os.path.basename(base)}", f"{base}/u 4%"]
    roots = [f"{base}/t0", f"{base}/t1/sub", f"~/vpt{os.path.basename(base)}"]
    # the default temporary directory
    tmp = f"{base}/tmp"
    os.makedirs(tmp)
    os.makedirs(home, exist_ok=True)
    saved = tempfile.tempdir
    tempfile.tempdir = tmp

    DEFAULT = dict(policy="user", user=None, troot=None, oroot=None, limit=5 * 1024**3)
    stack = [dict(DEFAULT)]
    dirs = {}  # directory -> {key: (path, content, tag)}
    left = set()  # temporary directories left
    current = None  # (identity of the settings, directory)
    managers = []
    count = 0

    def real(kind, v):
        if kind == "user":
            return users[v]
        if kind in ("troot", "oroot"):
            return None if v is None else roots[v]
        return v

    def values(s):
        return {NAMES[k]: real(k, v) for k, v in s.items()}

    def udir(v):
        p = config.get("user-cache-directory") if v is None else users[v]
        return os.path.expanduser(p)

    def identity():
        s = stack[-1]
        if s["policy"] == "user":
            return ("user", s["user"])
        return (s["policy"], s["troot" if s["policy"] == "temporary" else "oroot"])

    def look(what, before=None):
        """Compare with the model."""
        nonlocal current
        s = stack[-1]
        d = cache.directory()
        check(isinstance(d, str) and os.path.isdir(d), f"{what}: no cache directory {d}")
        ident = identity()
        if s["policy"] == "user":
            check(d == udir(s["user"]), f"{what}: cache directory {d}, the settings name {udir(s['user'])}")
            if dirs.get(d) and current and current[1] != d:
                ctx.nontrivial()
                ctx.label("returned")
        else:
            r = s["troot" if s["policy"] == "temporary" else "oroot"]
            root = tmp if r is None else os.path.expanduser(roots[r])
            check(os.path.dirname(d) == root, f"{what}: {s['policy']} directory {d} is not in {root}")
            check(d not in left, f"{what}: a temporary directory that was left is used again")
            if current is not None and current[0] == ident:
                check(d == current[1], f"{what}: the temporary directory changed without reason")
        if current is not None and current[0] != ident and current[0][0] != "user":
            if dirs.get(current[1]):
                ctx.nontrivial()
                ctx.label("left-temporary")
            left.add(current[1])
            dirs.pop(current[1], None)
        current = (ident, d)
        mine = dirs.setdefault(d, {})
        if s["policy"] != "off":
            # the limit in force
            dc.sync()
            total = sum(len(x[1][""]) for x in mine.values())
            gone = [k for k, x in mine.items() if not os.path.exists(x[0])]
            if gone:
                lims = [x for x in (s["limit"], before) if x is not None]
                check(lims and total > min(lims), f"{what}: {len(gone)} files lost, total {total}, limit {s['limit']}")
                ctx.label("trimmed")
                for k in gone:
                    del mine[k]
            total = sum(len(x[1][""]) for x in mine.values())
            check(s["limit"] is None or total <= s["limit"] or len(mine) == 1, f"{what}: total {total} is above the limit {s['limit']}")
            check(cache.size() == total, f"{what}: size {cache.size()}, files have {total}")
            es = {e["path"] for e in cache.entries()}
            check(es == {x[0] for x in mine.values()}, f"{what}: entries of another directory?")
        for d2, fs in dirs.items():
            check(os.path.isdir(d2), f"{what}: directory {d2} was deleted")
            for k, x in fs.items():
                check(os.path.exists(x[0]), f"{what}: file of directory {d2} lost (current {d})")
                check(dc.read(x[0]) == x[1], f"{what}: content changed")
        for t in left:
            check(not os.path.exists(t), f"{what}: temporary directory {t} still there after leaving it")

    def get(key, size):
        nonlocal count
        count += 1
        tag, ran = count, []
        mine = dirs[current[1]]

        def create(target, _):
            ran.append(1)
            dc.write(target, ("file", size), tag)

        path = cache_file("o", create, [key])
        check(os.path.dirname(path.replace("//", "/")) == cache.directory().rstrip("/"), f"file {path} is not in the directory {cache.directory()}")
        if stack[-1]["policy"] == "off":
            check(ran, "the creator did not run with the policy off")
            dirs[current[1]][(key, tag)] = (path, dc.files(("file", size), tag))
        elif key in mine:
            check(not ran, "created again although it was there")
            check(path == mine[key][0], "path changed")
        else:
            check(len(ran) == 1, "the creator did not run")
            mine[key] = (path, dc.files(("file", size), tag))

    try:
        config.set(values(case["first"]) or {"cache-policy": "user"})
        stack[-1].update(case["first"])
        look("start")
        for op in case["ops"]:
            ctx.label(op[0])
            before = None
            if op[0] == "get":
                get(op[1], op[2])
            elif op[0] == "adds":
                for k, n in op[1]:
                    get(k, n)
                    look("get")
            elif op[0] == "rush" and op[2]:
                before = stack[-1]["limit"]
                if stack[-1]["policy"] == "temporary":
                    for k in op[1]:
                        get(1000 + count, 500)
                elif stack[-1]["limit"] in (None, DEFAULT["limit"]):
                    for k in op[1]:
                        get(k, 10)
                config.set(values(op[2]))
                stack[-1].update(op[2])
            elif op[0] == "set" and op[1]:
                config.set(values(op[1]))
                stack[-1].update(op[1])
            elif op[0] == "set1":
                pool = dict(policy=["user", "temporary", "off"], user=[0, 1, 2, 3, 4], troot=[None, 0, 1, 2], oroot=[None, 0, 1, 2], limit=[None, 400, 1000, 2000])
                v = pool[op[1]][op[2] % len(pool[op[1]])]
                config.set(NAMES[op[1]], real(op[1], v))
                stack[-1][op[1]] = v
            elif op[0] == "visit":
                config.set({"cache-policy": "user", "user-cache-directory": users[op[1]]})
                stack[-1].update(policy="user", user=op[1])
            elif op[0] == "push" and len(managers) < 3:
                cm = config.temporary(values(op[1]))
                cm.__enter__()
                managers.append(cm)
                stack.append(dict(stack[-1], **op[1]))
            elif op[0] == "pop" and managers:
                cm = managers.pop()
                stack.pop()
                if op[1]:
                    e = RuntimeError("leave")
                    cm.__exit__(RuntimeError, e, None)
                else:
                    cm.__exit__(None, None, None)
            elif op[0] == "reset" and not managers:
                config.reset()
                stack[-1] = dict(DEFAULT)
            look(op[0], before)
        while managers:
            managers.pop().__exit__(None, None, None)
            stack.pop()
            look("unwind")
        config.reset()
        stack[-1] = dict(DEFAULT)
        look("end")
    finally:
        while managers:
            managers.pop().__exit__(None, None, None)
        tempfile.tempdir = saved


def parts(tier):
    return [Part("settings", CASE, run, quick=2400, thorough=8000, budget=100)]
