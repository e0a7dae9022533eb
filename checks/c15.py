import os
import pathlib
import resource
import signal
import time
import warnings

import cfg
import yaml
from hypothesis import strategies as st
from procs import Child, crash_at, isolated, jitter
from vp import Part, check, fail

PROPERTY = "C15"
RULE = (
    "sessions: a case is 1-3 processes after one another (the package is imported afresh in each) using the same "
    "configuration file (default or named by the environment), each running up to 12 operations (set in all forms, also "
    "with Path and numpy values, reset, temporary contexts, autosave on and off, save_as), the first one starting with "
    "a missing, valid, older, hand-written or migrated file; every process must read the settings the previous one left, "
    "and those of every explicitly saved file. bad: a process starts with an empty, corrupt, truncated or foreign file "
    "or a path that cannot be used. faults: the process is killed at a random line of the configuration code, or the "
    "disk is full after a random number of bytes, while settings are saved. parallel: processes save and start at the "
    "same time. Non-trivial: at least one option differs from its default when it is read back, resp. the file is not "
    "a valid one, resp. the process was killed or a save failed."
)
ASSUMPTIONS = ["a restart is a fresh import of the package in a forked process", "one writer at a time (except parallel)"]

TYPED = st.booleans()
SET = st.tuples(st.just("set"), st.sampled_from(["pair", "dict", "kw"]), cfg.items(), TYPED)
OP = st.one_of(
    SET,
    SET,
    SET,
    st.tuples(st.just("reset"), st.sampled_from((None,) + cfg.OPTIONS)),
    st.tuples(st.just("push"), cfg.items()),
    st.tuples(st.just("pop")),
    st.tuples(st.just("autosave"), st.booleans()),
    st.tuples(st.just("save_as"), st.integers(0, 2)),
    st.tuples(st.just("rejected"), cfg.bad_item()),
)
VERSION = st.sampled_from([None, "0.0.1", "99.0", 5, 0.1])
START = st.one_of(
    st.just(("missing",)),
    st.tuples(st.just("valid"), cfg.items(max_size=6), VERSION),
    st.tuples(st.just("old"), cfg.items(max_size=6)),
)
SESSIONS = st.fixed_dictionaries(
    dict(
        start=START,
        where=st.sampled_from(["default", "env", "env-new-dir"]),
        sessions=st.lists(st.lists(OP, max_size=12), min_size=1, max_size=3),
    )
)


def raw(pool, pairs):
    return [(k, pool(v)) for k, v in pairs]


def typed(v):
    import numpy as np

    if isinstance(v, bool):
        return np.bool_(v)
    if isinstance(v, int):
        return np.int64(v) if v < 2**62 else v
    if isinstance(v, str) and v.startswith("/"):
        return pathlib.Path(v)
    if isinstance(v, str):
        return np.str_(v)
    return v


def call(method, form, pairs):
    if form == "pair":
        return method(*pairs[0])
    if form == "dict":
        return method(dict(pairs))
    return method(**{k.replace("-", "_"): v for k, v in pairs})


def effective(state):
    return {k: cfg.parse(k, v) for k, v in state.items()}


def read(path):
    try:
        with open(path, "rb") as f:
            return f.read()
    except (FileNotFoundError, NotADirectoryError, IsADirectoryError):
        return None


class Place:
    def __init__(self, ctx, where):
        self.home = ctx.newdir("h")
        self.pool = cfg.Pool(self.home + "/dirs")
        self.default = cfg.defaults(self.home)
        self.env = {}
        self.path = f"{self.home}/.config/earthkit/regrid/config.yaml"
        if where == "env":
            self.path = f"{self.home}/my config.yml"
        elif where == "env-new-dir":
            self.path = f"{self.home}/some/dir/c.yaml"
        if where != "default":
            self.env["EARTHKIT_REGRID_CONFIG_FILE"] = self.path

    def write(self, data, path=None):
        path = path or self.path
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "wb") as f:
            f.write(data)

    def start(self, path=None):
        env = dict(self.env)
        if path:
            env["EARTHKIT_REGRID_CONFIG_FILE"] = path
        mask = os.umask(0o022)
        r = cfg.fresh_import(self.home, env)
        check(os.umask(mask) == 0o022, "importing the package changed the umask")
        return r.config

    def expect(self, config, state, what):
        for k, v in effective(state).items():
            got = config.get(k)
            check(cfg.same(k, got, v), f"{what}: get({k!r}) is {got!r}, expected {v!r}")


def in_child(fn, *args, timeout=60):
    c = Child(lambda child: fn(child, *args))
    r = c.wait(timeout)
    if r == "hangs":
        fail("the process hangs")
    return r, c


def sessions(case, ctx):
    import numpy  # noqa

    place = Place(ctx, case["where"])
    start = case["start"]
    base = dict(place.default)
    if start[0] == "valid":
        d = dict(raw(place.pool, start[1]))
        base.update(d)
        if start[2] is not None:
            d["version"] = start[2]
        place.write(yaml.dump(d).encode())
    elif start[0] == "old":
        d = dict(raw(place.pool, start[1]))
        base.update(d)
        place.write(yaml.dump({**d, "version": "0.3.0"}).encode(), f"{place.home}/.earthkit_regrid/settings.yaml")
    ctx.label("start " + start[0])
    saved_as = {}
    for n, ops in enumerate(case["sessions"]):
        if base != place.default:
            ctx.nontrivial()
        # the settings in memory, and those saved
        stack, saved, auto = [dict(base)], dict(base), True
        steps = []
        for op in ops:
            before = saved
            if op[0] == "set":
                pairs = raw(place.pool, op[2])
                stack[-1].update(pairs[:1] if op[1] == "pair" else pairs)
            elif op[0] == "reset":
                if op[1] is None:
                    stack[-1] = dict(place.default)
                else:
                    stack[-1][op[1]] = place.default[op[1]]
            elif op[0] == "push":
                stack.append({**stack[-1], **dict(raw(place.pool, op[1]))})
            elif op[0] == "pop":
                if len(stack) > 1:
                    stack.pop()
            elif op[0] == "autosave":
                auto = op[1]
            elif op[0] == "save_as":
                saved_as[op[1]] = dict(stack[-1])
                ctx.label(f"save_as depth {min(len(stack), 3)}")
            if op[0] in ("set", "reset") and len(stack) == 1 and auto:
                saved = dict(stack[0])
            steps.append((dict(stack[-1]), saved != before or (op[0] in ("set", "reset") and len(stack) == 1 and auto)))

        def body(child):
            config = place.start()
            place.expect(config, base, f"session {n}")
            check(config.autosave is True, "autosave is off at the start")
            check(os.path.exists(place.path), "no configuration file")
            content = read(place.path)
            cms = []
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                for i, op in enumerate(ops):
                    what = f"session {n}, op {i} {op!r}"
                    if op[0] == "set":
                        pairs = raw(place.pool, op[2])
                        if op[3]:
                            pairs = [(k, typed(v)) for k, v in pairs]
                        call(config.set, op[1], pairs)
                    elif op[0] == "reset":
                        config.reset() if op[1] is None else config.reset(op[1])
                    elif op[0] == "push":
                        cms.append(config.temporary(dict(raw(place.pool, op[1]))))
                        cms[-1].__enter__()
                    elif op[0] == "pop":
                        if cms:
                            cms.pop().__exit__(None, None, None)
                    elif op[0] == "autosave":
                        config.autosave = op[1]
                        check(config.autosave is op[1], "autosave")
                    elif op[0] == "save_as":
                        config.save_as(f"{place.home}/saved{op[1]}.yaml")
                    elif op[0] == "rejected":
                        try:
                            config.set(*op[1])
                        except (ValueError, TypeError):
                            pass
                        else:
                            fail(f"{what}: accepted")
                    state, saves = steps[i]
                    place.expect(config, state, what)
                    now = read(place.path)
                    if not saves:
                        check(now == content, f"{what}: the configuration file was written")
                    content = now
                left = [x for x in os.listdir(os.path.dirname(place.path)) if x.endswith((".tmp", ".lock"))]
                check(not left, f"session {n}: {left} left behind")

        r, _ = in_child(body)
        check(r == "done", f"session {n}: the process {r}")
        base = saved

    def last(child):
        place.expect(place.start(), base, "last session")

    r, _ = in_child(last)
    check(r == "done", f"last session: the process {r}")
    if base != place.default:
        ctx.nontrivial()
    for i, state in saved_as.items():

        def body(child):
            place.expect(place.start(f"{place.home}/saved{i}.yaml"), state, f"file {i} of save_as")

        r, _ = in_child(body)
        check(r == "done", f"save_as: the process {r}")
        if state != place.default:
            ctx.nontrivial()


# -- bad files

SCALAR = st.one_of(
    st.none(), st.booleans(), st.integers(-5, 5), st.floats(allow_nan=False, width=16), st.text(max_size=6), st.just(2**70)
)
VALUE = st.one_of(SCALAR, st.lists(SCALAR, max_size=2), st.dictionaries(st.sampled_from(["a", "b"]), SCALAR, max_size=2))
KEY = st.one_of(st.sampled_from(cfg.OPTIONS), st.sampled_from(["version", "x", "server", "on", 1, True, None, 1.5]))
BAD = st.one_of(
    st.tuples(st.just("bytes"), st.binary(max_size=60)),
    st.tuples(st.just("text"), st.text(alphabet="abc:-[]{}'\"#!&*%@`\n\t |>?, 01", max_size=40)),
    st.tuples(st.just("truncated"), cfg.items(max_size=8), st.integers(0, 10000)),
    st.tuples(st.just("flipped"), cfg.items(max_size=8), st.integers(0, 10000), st.integers(0, 255)),
    st.tuples(st.just("yaml"), st.one_of(SCALAR, st.lists(SCALAR, max_size=3))),
    st.tuples(st.just("foreign"), st.lists(st.tuples(KEY, VALUE), min_size=1, max_size=5)),
    st.tuples(st.just("foreign"), st.lists(st.tuples(KEY, VALUE), min_size=1, max_size=5)),
    st.tuples(st.just("invalid"), st.lists(cfg.bad_item(), min_size=1, max_size=4), cfg.items(max_size=3)),
    st.tuples(st.just("invalid"), st.lists(cfg.bad_item(), min_size=1, max_size=4), cfg.items(max_size=3)),
    st.tuples(st.sampled_from(["tag", "directory", "old junk", "empty"])),
    st.tuples(st.sampled_from(["directory", "below a file", "below a file", "old junk", "empty"])),
)
BADCASE = st.fixed_dictionaries(dict(bad=BAD, where=st.sampled_from(["default", "env"]), then=cfg.items(cfg.LIGHT)))


def bad(case, ctx):
    place = Place(ctx, case["where"])
    b = case["bad"]
    kind = b[0]
    d = None
    known = None  # the settings that must apply, where they are certain
    if kind == "bytes":
        place.write(b[1])
    elif kind == "text":
        place.write(b[1].encode())
    elif kind in ("truncated", "flipped"):
        data = bytearray(yaml.dump(dict(raw(place.pool, b[1]))).encode())
        at = b[2] % max(1, len(data))
        if kind == "truncated":
            data = data[:at]
        elif data:
            data[at] ^= b[3]
        place.write(bytes(data))
    elif kind == "yaml":
        place.write(yaml.dump(b[1]).encode())
        known = place.default
    elif kind == "foreign":
        d = dict(b[1])
        place.write(yaml.dump(d).encode())
        if not set(d) & set(cfg.OPTIONS):
            known = place.default
    elif kind == "invalid":
        d = {**dict(raw(place.pool, b[2])), **dict(b[1])}
        place.write(yaml.dump(d).encode())
        known = {k: v for k, v in place.default.items() if k not in d or k in dict(b[1])}
    elif kind == "tag":
        place.write(b"url-download-timeout: !!python/object/apply:os.system ['touch /tmp/vp-never']\n")
        known = place.default
    elif kind == "directory":
        os.makedirs(place.path)
        known = place.default
    elif kind == "below a file":
        parent = os.path.dirname(place.path)
        if parent == place.home:
            place.path = f"{place.home}/x/y/z.yaml"
            place.env["EARTHKIT_REGRID_CONFIG_FILE"] = place.path
            parent = f"{place.home}/x/y"
        os.makedirs(os.path.dirname(parent), exist_ok=True)
        with open(parent, "w") as f:
            f.write("x")
        known = place.default
    elif kind == "old junk":
        place.write(b"\xff\x00[", f"{place.home}/.earthkit_regrid/settings.yaml")
        known = place.default
    else:
        place.write(b"")
        known = place.default
    ctx.label(kind)
    ctx.nontrivial()

    def body(child):
        config = place.start()
        # every option has a usable value
        for k in cfg.OPTIONS:
            v = config.get(k)
            if k in cfg.CHOICES:
                ok = v in cfg.CHOICES[k]
            elif k in cfg.BOOLS:
                ok = isinstance(v, bool)
            elif k in cfg.DIRS:
                ok = isinstance(v, str) or (v is None and k != "user-cache-directory")
            else:
                ok = (isinstance(v, int) and not isinstance(v, bool) and v >= 0) or (v is None and k in cfg.NONE_OK)
            check(ok, f"get({k!r}) is {v!r} with the file {read(place.path)!r}")
            if known is not None and k in known:
                check(cfg.same(k, v, cfg.parse(k, known[k])), f"get({k!r}) is {v!r}, not the default, with the file {read(place.path)!r}")
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            # and can be changed
            pairs = raw(place.pool, case["then"])
            config.set(dict(pairs))
        for k, v in pairs:
            check(cfg.same(k, config.get(k), cfg.parse(k, v)), f"cannot set {k}")

    r, _ = in_child(body)
    check(r == "done", f"the process {r}")
    if kind not in ("directory", "below a file"):

        def again(child):
            config = place.start()
            for k, v in raw(place.pool, case["then"]):
                check(cfg.same(k, config.get(k), cfg.parse(k, v)), f"{k} set after loading a bad file is lost")

        r, _ = in_child(again)
        check(r == "done", f"the process {r}")
    check(not os.path.exists("/tmp/vp-never"), "the file was executed")


# -- faults while saving

FAULT = st.fixed_dictionaries(
    dict(
        first=cfg.items(max_size=5),
        sets=st.lists(cfg.items(cfg.LIGHT), min_size=1, max_size=4),
        fault=st.one_of(
            st.tuples(st.just("crash"), st.integers(1, 1200)),
            st.tuples(st.just("crash"), st.integers(1, 1200)),
            st.tuples(st.just("full"), st.integers(0, 6000)),
        ),
    )
)


def faults(case, ctx):
    place = Place(ctx, "default")
    base = dict(place.default)
    base.update(raw(place.pool, case["first"]))
    base["cache-policy"] = "off"
    place.write(yaml.dump(base).encode())
    kind, n = case["fault"]

    def body(child):
        config = place.start()
        if kind == "crash":
            crash_at(n, ("utils/config.py",))
        else:
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (n, n))
        state = dict(base)
        for s in case["sets"]:
            config.set(dict(s))
            child.say("set")
            if kind == "full":
                state.update(s)
                place.expect(config, state, "full disk")

    r, c = in_child(body)
    done = len(c.said())
    states = [base]
    for s in case["sets"]:
        states.append({**states[-1], **dict(s)})
    if kind == "crash":
        ok = states[done : done + 2]
        check(r in ("done", "killed"), r)
        ctx.nontrivial(r == "killed")
    else:
        check(r == "done", f"full disk: the process {r}")
        ok = states
        ctx.nontrivial()
    ctx.label(kind + " " + r)

    def again(child):
        config = place.start()
        got = {k: config.get(k) for k in cfg.OPTIONS}
        check(
            any(got == effective(s) for s in ok),
            lambda: f"after {case['fault']} ({done} completed) the settings are {[(k, got[k]) for k in got if got[k] != effective(ok[0])[k]]}, "
            f"expected {[k_v for s in ok for k_v in [sorted((k, v) for k, v in effective(s).items() if v != effective(base)[k])]]}",
        )
        config.set("url-download-timeout", 4321)

    r, _ = in_child(again)
    check(r == "done", f"the process after the fault {r}")

    def third(child):
        check(place.start().get("url-download-timeout") == 4321, "settings cannot be saved after a fault")

    r, _ = in_child(third)


PARALLEL = st.fixed_dictionaries(
    dict(writers=st.integers(1, 3), times=st.integers(2, 8), readers=st.integers(1, 2), seed=st.integers(0, 10**6))
)


def parallel(case, ctx):
    """Two options that are always set together are never read apart."""
    place = Place(ctx, "default")
    place.write(yaml.dump({"cache-policy": "off", "url-download-timeout": 100, "maximum-weights-memory-cache-size": 100}).encode())

    def writer(child, w):
        config = place.start()
        jitter(case["seed"] + w, ("utils/config.py",), share=0.02)
        for i in range(case["times"]):
            n = 1000 * (w + 1) + i
            config.set({"url-download-timeout": n, "maximum-weights-memory-cache-size": n})

    def reader(child, w):
        for i in range(4):
            config = place.start()
            a, b = config.get("url-download-timeout"), config.get("maximum-weights-memory-cache-size")
            check(a == b and config.get("cache-policy") == "off", f"read {a} and {b}, {config.get('cache-policy')}")
            time.sleep(0.005)

    cs = [Child(writer, w) for w in range(case["writers"])] + [Child(reader, w) for w in range(case["readers"])]
    rs = []
    err = None
    for c in cs:
        try:
            rs.append(c.wait(60))
        except Exception as e:
            err = err or e
    if err:
        raise err
    check(all(r == "done" for r in rs), f"{rs}")
    ctx.nontrivial()

    def final(child):
        config = place.start()
        a, b = config.get("url-download-timeout"), config.get("maximum-weights-memory-cache-size")
        last = [1000 * (w + 1) + case["times"] - 1 for w in range(case["writers"])]
        check(a == b and a in last, f"finally {a} and {b}, expected one of {last}")

    r, _ = in_child(final)
    check(r == "done", f"{r}")


# -- the file of older versions

OLD = st.fixed_dictionaries(
    dict(
        old=cfg.items(max_size=6),
        junk=st.lists(
            st.one_of(cfg.bad_item(), st.tuples(st.sampled_from(["number-of-download-threads", "message-position", "version"]), SCALAR)),
            max_size=2,
        ),
        new=st.one_of(st.none(), st.none(), cfg.items(max_size=4)),
        where=st.sampled_from(["default", "env", "env-new-dir"]),
        then=st.lists(st.one_of(st.tuples(st.just("set"), cfg.items(cfg.LIGHT, max_size=2)), st.just(("none",)), st.just(("change",)), st.just(("reset",))), max_size=3),
    )
)


def migrated(case, ctx):
    """The settings of older versions are used if there are no newer ones, and never again afterwards."""
    place = Place(ctx, case["where"])
    oldpath = f"{place.home}/.earthkit_regrid/settings.yaml"
    old = dict(raw(place.pool, case["old"]))
    bad = {k: v for k, v in case["junk"]}
    text = {**old, **bad}
    place.write(yaml.dump(text).encode(), oldpath)
    before = read(oldpath)
    state = dict(place.default)
    if case["new"] is not None:
        new = dict(raw(place.pool, case["new"]))
        place.write(yaml.dump(new).encode())
        state.update(new)
        ctx.label("has a new file")
    else:
        state.update({k: v for k, v in old.items() if k not in bad})
        ctx.nontrivial(any(state[k] != place.default[k] for k in state))

    def first(child):
        config = place.start()
        place.expect(config, state, f"first start with {text}")

    def later(child, op):
        config = place.start()
        place.expect(config, state, "a later start")
        config.autosave = True
        if op[0] == "set":
            config.set(dict(raw(place.pool, op[1])))
        elif op[0] == "reset":
            config.reset()

    r, _ = in_child(first)
    check(r == "done", f"the process {r}")
    check(read(oldpath) == before, "the old file was changed")
    check(os.path.exists(place.path), "the settings were not saved in the new place")
    for op in case["then"]:
        if op[0] == "change":
            place.write(yaml.dump({"url-download-timeout": 17, "cache-policy": "off"}).encode(), oldpath)
        r, _ = in_child(later, op)
        check(r == "done", f"the process {r}")
        if op[0] == "set":
            state.update(dict(raw(place.pool, op[1])))
        elif op[0] == "reset":
            state = dict(place.default)
    os.unlink(oldpath)
    r, _ = in_child(later, ("none",))
    check(r == "done", f"the process {r}")


def parts(tier):
    return [
        Part("sessions", SESSIONS, sessions, quick=440, thorough=4000, budget=60),
        Part("bad", BADCASE, bad, quick=500, thorough=5000, budget=40),
        Part("faults", FAULT, faults, quick=300, thorough=3000, budget=40),
        Part("migrated", OLD, migrated, quick=300, thorough=3000, budget=30),
        Part("parallel", PARALLEL, parallel, quick=50, thorough=400, budget=20),
    ]
