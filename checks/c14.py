import os
import warnings

import cfg
from hypothesis import strategies as st
from procs import isolated
from vp import Part, check, fail

PROPERTY = "C14"
RULE = (
    "A case is a history of 4-40 operations on the configuration of a process of its own: set (name and value, "
    "dictionary, keywords), reset (one, all), temporary contexts entered (empty, or with settings in the three forms), "
    "left normally or by an exception that ends one or several of them, new observers, observers that fail, unknown "
    "names, rejected values. After every operation get() of every option, dump() and the observers are compared with a "
    "model stack of option maps. Non-trivial: a context that changed options was left again, or an observer failed."
)
ASSUMPTIONS = ["no environment variables (C16)", "directories are writable"]

FORM = st.sampled_from(["pair", "dict", "kw"])
SET = st.tuples(st.just("set"), FORM, cfg.items())
PUSH = st.tuples(st.just("push"), st.sampled_from(["none", "pair", "dict", "kw"]), cfg.items())
POP = st.tuples(st.just("pop"), st.sampled_from([None, None, 1, 2, 3]))
OP = st.one_of(
    SET,
    SET,
    PUSH,
    PUSH,
    POP,
    POP,
    st.tuples(st.just("reset"), st.sampled_from(cfg.OPTIONS)),
    st.tuples(st.just("reset"), st.none()),
    st.tuples(st.just("observe"), st.just(0)),
    st.tuples(st.just("failing"), st.integers(0, 3)),
    st.tuples(st.just("unknown"), st.integers(0, 5), cfg.items(max_size=2)),
    st.tuples(st.just("rejected"), st.integers(0, 3), cfg.bad_item(), cfg.items(max_size=2)),
)
CASE = st.fixed_dictionaries(
    dict(ops=st.lists(OP, min_size=4, max_size=40), autosave=st.booleans(), observers=st.integers(0, 3))
)


class Boom(Exception):
    pass


class Observed(Exception):
    pass


UNKNOWN = ["no-such-option", "cache_policy", "", "version", "CACHE-POLICY"]


def call(method, form, pairs):
    if form == "pair":
        return method(*pairs[0])
    if form == "dict":
        return method(dict(pairs))
    return method(**{k.replace("-", "_"): v for k, v in pairs})


def run(case, ctx):
    from earthkit.regrid import config

    base = ctx.newdir("c")
    pool = cfg.Pool(base)
    config.autosave = case["autosave"]
    default = cfg.defaults(os.path.expanduser("~"))
    stack = [dict(default)]
    cms = []
    observers = []
    failing = []

    def snapshot():
        return {k: config.get(k) for k in cfg.OPTIONS}

    def wanted():
        return {k: cfg.parse(k, v) for k, v in stack[-1].items()}

    def observe():
        seen = []
        observers.append(seen)
        config.on_change(lambda: seen.append(snapshot()))

    def maybe_fail():
        if failing and failing[0] > 0:
            failing[0] -= 1
            if failing[0] == 0:
                raise Observed

    for _ in range(case["observers"]):
        observe()
    config.on_change(maybe_fail)

    def settle(changed, what):
        got, want = snapshot(), wanted()
        for k in cfg.OPTIONS:
            check(cfg.same(k, got[k], want[k]), f"{what}: get({k!r}) is {got[k]!r}, expected {want[k]!r}")
            check(cfg.same(k, config.get(k, "other"), want[k]), f"{what}: get({k!r}, default) differs from get")
        dump = {k: v for k, v, _ in config.dump()}
        for k in cfg.OPTIONS:
            check(k in dump and cfg.parse(k, dump[k]) == want[k], lambda: f"{what}: dump has {dump.get(k)!r} for {k}")
        for i, seen in enumerate(observers):
            if changed:
                check(seen, f"{what}: observer {i} was not called")
            if seen:
                check(seen[-1] == want, lambda: f"{what}: observer {i} saw {diff(seen[-1], want)}")
            seen.clear()

    def diff(a, b):
        return {k: (a[k], b[k]) for k in a if a[k] != b[k]}

    changed_in = [False]
    depth = 0
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        settle(False, "start")
        for n, op in enumerate(case["ops"]):
            kind = op[0]
            what = f"op {n} {op!r} (depth {len(stack)})"
            failing.clear()
            if kind == "set":
                pairs = [(k, pool(v)) for k, v in op[2]]
                if op[1] == "pair":
                    pairs = pairs[:1]
                call(config.set, op[1], pairs)
                stack[-1].update(pairs)
                changed_in[-1] = True
                settle(True, what)
            elif kind == "reset":
                if op[1] is None:
                    config.reset()
                    stack[-1].clear()
                    stack[-1].update(default)
                else:
                    config.reset(op[1])
                    stack[-1][op[1]] = default[op[1]]
                changed_in[-1] = True
                settle(True, what)
            elif kind == "push":
                pairs = [] if op[1] == "none" else [(k, pool(v)) for k, v in op[2]]
                if op[1] == "pair":
                    pairs = pairs[:1]
                cm = config.temporary() if op[1] == "none" else call(config.temporary, op[1], pairs)
                cm.__enter__()
                cms.append(cm)
                stack.append({**stack[-1], **dict(pairs)})
                changed_in.append(bool(pairs))
                settle(True, what)
                ctx.label(f"depth{min(len(stack), 4)}")
            elif kind == "pop":
                exc = None
                if op[1] is not None:
                    exc = Boom()
                for _ in range(op[1] or 1):
                    if not cms:
                        break
                    cm = cms.pop()
                    try:
                        swallowed = cm.__exit__(*((None,) * 3 if exc is None else (Boom, exc, None)))
                    except Boom:
                        swallowed = False
                    check(not swallowed, f"{what}: the exception of the block is swallowed")
                    stack.pop()
                    if changed_in.pop():
                        ctx.nontrivial()
                    settle(True, what)
            elif kind == "observe":
                if len(observers) < 5:
                    observe()
            elif kind == "failing":
                # an observer fails while a context is entered: the context is not left behind
                failing[:] = [1]
                pairs = [("url-download-timeout", 77 + op[1])]
                try:
                    with config.temporary(*pairs[0]):
                        fail(f"{what}: the failure of the observer is lost")
                except Observed:
                    ctx.nontrivial()
                    ctx.label("failing observer")
                failing.clear()
                for s in observers:
                    s.clear()
                settle(False, what)
            elif kind == "unknown":
                name = UNKNOWN[op[1] % len(UNKNOWN)]
                pairs = [(k, pool(v)) for k, v in op[2]]
                for f in (
                    lambda: config.get(name),
                    lambda: config.get(name, 1),
                    lambda: config.set(name, 1),
                    lambda: config.reset(name),
                    lambda: config.set({**dict(pairs), name: 1}),
                    lambda: config.set({name: 1, **dict(pairs)}),
                    lambda: config.temporary(name, 1).__enter__(),
                ):
                    try:
                        f()
                    except KeyError:
                        pass
                    else:
                        fail(f"{what}: no KeyError")
                settle(False, what)
            elif kind == "rejected":
                name, value = op[2]
                pairs = [(k, pool(v)) for k, v in op[3] if k != name]
                f = [
                    lambda: config.set(name, value),
                    lambda: config.set({**dict(pairs), name: value}),
                    lambda: config.temporary({**dict(pairs), name: value}).__enter__(),
                    lambda: call(config.set, "kw", pairs + [(name, value)]),
                ][op[1]]
                try:
                    f()
                except (ValueError, TypeError):
                    pass
                else:
                    fail(f"{what}: accepted")
                settle(False, what)
        while cms:
            cms.pop().__exit__(None, None, None)
            stack.pop()
            settle(True, "end")


def parts(tier):
    return [Part("history", CASE, isolated(run), quick=3750, thorough=20000, budget=90)]
