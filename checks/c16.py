import os
import warnings

import cfg
import yaml
from hypothesis import strategies as st
from procs import Child, isolated
from vp import Part, check, fail

PROPERTY = "C16"
RULE = (
    "history: 4-30 operations in a process of its own: environment variables of options set and removed, set (three "
    "forms), reset, temporary contexts entered and left, with autosave on or off; after each one get() of every option, "
    "env() and the saved file are compared with a model (environment over stack of settings). start: processes started "
    "with a settings file and environment variables, which read the variables' values, and the file's when the variables "
    "are removed. effect: the caches work by the variables' values. Non-trivial: a variable hides a different setting."
)
ASSUMPTIONS = ["values are valid for the option (invalid ones: C17)"]

ENV = st.sampled_from(cfg.OPTIONS).flatmap(lambda n: st.tuples(st.just("env"), st.just(n), cfg.env_text(n)))
FORM = st.sampled_from(["pair", "dict", "kw"])
OP = st.one_of(
    ENV,
    ENV,
    ENV,
    st.tuples(st.just("unset"), st.integers(0, 20)),
    st.tuples(st.just("unset"), st.integers(0, 20)),
    st.tuples(st.just("set"), FORM, cfg.items()),
    st.tuples(st.just("set"), FORM, cfg.items()),
    # options that are held by the environment
    st.tuples(st.just("set_held"), st.integers(0, 20), st.integers(0, 10**6)),
    st.tuples(st.just("reset_held"), st.integers(0, 20)),
    st.tuples(st.just("reset"), st.sampled_from((None,) + cfg.OPTIONS)),
    st.tuples(st.just("push"), cfg.items()),
    st.tuples(st.just("pop")),
)
CASE = st.fixed_dictionaries(dict(ops=st.lists(OP, min_size=4, max_size=30), autosave=st.sampled_from([True, True, False])))


def call(method, form, pairs):
    if form == "pair":
        return method(*pairs[0])
    if form == "dict":
        return method(dict(pairs))
    return method(**{k.replace("-", "_"): v for k, v in pairs})


def some_value(name, n, pool):
    if name in cfg.CHOICES:
        return cfg.CHOICES[name][n % len(cfg.CHOICES[name])]
    if name in cfg.BOOLS:
        return bool(n % 2)
    if name in cfg.DIRS:
        return pool(["dir", n])
    return n


def run(case, ctx):
    home = ctx.newdir("h")
    config = cfg.fresh_import(home).config
    config.autosave = case["autosave"]
    path = f"{home}/.config/earthkit/regrid/config.yaml"
    pool = cfg.Pool(home + "/dirs")
    default = cfg.defaults(home)
    stack, saved, env, cms = [dict(default)], dict(default), {}, []

    def settle(what):
        for k in cfg.OPTIONS:
            v = env.get(k, stack[-1][k])
            want, got = cfg.parse(k, v), config.get(k)
            check(cfg.same(k, got, want), f"{what}: get({k!r}) is {got!r}, expected {want!r}; environment {env}")
            ctx.nontrivial(k in env and want != cfg.parse(k, stack[-1][k]))
        e = config.env()
        check(
            {k: tuple(v) for k, v in e.items()} == {k: (cfg.env_name(k), v) for k, v in env.items()},
            f"{what}: env() is {e}, expected {env}",
        )
        with open(path) as f:
            s = yaml.safe_load(f)
        for k in cfg.OPTIONS:
            check(
                cfg.parse(k, s.get(k, default[k])) == cfg.parse(k, saved[k]),
                f"{what}: the file has {s.get(k, '(default)')!r} for {k}, expected {saved[k]!r}; environment {env}",
            )

    def warned(f, names, what):
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            f()
        text = [str(w.message) for w in ws]
        for k in names:
            has = any(cfg.env_name(k) in t for t in text)
            if k in env:
                check(has, f"{what}: no warning for {k}")
                ctx.label("warned")
            else:
                check(not has, f"{what}: needless warning {text}")

    def keep():
        if len(stack) == 1 and case["autosave"]:
            saved.clear()
            saved.update(stack[0])

    settle("start")
    for n, op in enumerate(case["ops"]):
        what = f"op {n} {op!r}"
        if op[0] == "env":
            env[op[1]] = pool(op[2])
            os.environ[cfg.env_name(op[1])] = env[op[1]]
        elif op[0] == "unset":
            if env:
                k = sorted(env)[op[1] % len(env)]
                del env[k]
                del os.environ[cfg.env_name(k)]
                ctx.label("unset")
        elif op[0] in ("set", "set_held"):
            if op[0] == "set_held":
                if not env:
                    continue
                k = sorted(env)[op[1] % len(env)]
                form, pairs = "pair", [(k, some_value(k, op[2], pool))]
            else:
                form, pairs = op[1], [(k, pool(v)) for k, v in op[2]]
            if form == "pair":
                pairs = pairs[:1]
            warned(lambda: call(config.set, form, pairs), dict(pairs), what)
            stack[-1].update(pairs)
            keep()
        elif op[0] in ("reset", "reset_held"):
            k = op[1]
            if op[0] == "reset_held":
                if not env:
                    continue
                k = sorted(env)[op[1] % len(env)]
            if k is None:
                config.reset()
                stack[-1] = dict(default)
            else:
                warned(lambda: config.reset(k), [k], what)
                stack[-1][k] = default[k]
            keep()
        elif op[0] == "push":
            pairs = [(k, pool(v)) for k, v in op[1]]

            def enter():
                cms.append(config.temporary(dict(pairs)))
                cms[-1].__enter__()

            warned(enter, dict(pairs), what)
            stack.append({**stack[-1], **dict(pairs)})
        elif op[0] == "pop":
            if cms:
                cms.pop().__exit__(None, None, None)
                stack.pop()
        settle(what)


START = st.fixed_dictionaries(
    dict(
        file=cfg.items(max_size=6),
        env=st.lists(
            st.sampled_from(cfg.OPTIONS).flatmap(lambda n: st.tuples(st.just(n), cfg.env_text(n))),
            min_size=1,
            max_size=6,
            unique_by=lambda x: x[0],
        ),
        set=cfg.items(),
        order=st.booleans(),
    )
)


def start(case, ctx):
    home = ctx.newdir("h")
    pool = cfg.Pool(home + "/dirs")
    default = cfg.defaults(home)
    file = {k: pool(v) for k, v in case["file"]}
    env = {k: pool(v) for k, v in case["env"]}
    path = f"{home}/.config/earthkit/regrid/config.yaml"
    os.makedirs(os.path.dirname(path))
    with open(path, "w") as f:
        yaml.dump({**file, "version": "0.0.1"}, f)
    base = {**default, **file}

    def expect(config, state, what):
        for k in cfg.OPTIONS:
            got, want = config.get(k), cfg.parse(k, state[k])
            check(cfg.same(k, got, want), f"{what}: get({k!r}) is {got!r}, expected {want!r}")

    def first(child):
        config = cfg.fresh_import(home, {cfg.env_name(k): v for k, v in env.items()}).config
        expect(config, {**base, **env}, "started with variables")
        with config.temporary():
            expect(config, {**base, **env}, "temporary")
        if case["order"]:
            for k in env:
                del os.environ[cfg.env_name(k)]
            expect(config, base, "variables removed")
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            config.set({k: pool(v) for k, v in case["set"]})

    base2 = {**base, **{k: pool(v) for k, v in case["set"]}}

    def second(child):
        expect(cfg.fresh_import(home).config, base2, "next process without variables")

    for f in (first, second):
        c = Child(f)
        r = c.wait(60)
        check(r == "done", f"the process {r}")
    ctx.nontrivial(any(cfg.parse(k, v) != cfg.parse(k, base[k]) for k, v in env.items()))


EFFECT = st.fixed_dictionaries(
    dict(
        policy=st.sampled_from(cfg.CHOICES["weights-memory-cache-policy"]),
        other=st.sampled_from(cfg.CHOICES["weights-memory-cache-policy"]),
        size=st.one_of(st.none(), st.integers(1, 10**6)),
        disk=st.sampled_from(["user", "temporary", "off"]),
        disk_other=st.sampled_from(["user", "temporary", "off"]),
        dir=st.integers(0, 3),
        at_start=st.booleans(),
    )
)


def effect(case, ctx):
    home = ctx.newdir("h")
    pool = cfg.Pool(home + "/dirs")
    root = f"{home}/root"
    os.makedirs(root)
    env = {
        "weights-memory-cache-policy": case["policy"],
        "cache-policy": case["disk"],
        "user-cache-directory": pool(["dir", case["dir"]]),
        "temporary-cache-directory-root": root,
    }
    if case["size"] is not None:
        env["maximum-weights-memory-cache-size"] = f"{case['size']}"
    env = {cfg.env_name(k): v for k, v in env.items()}
    pkg = cfg.fresh_import(home, env if case["at_start"] else {})
    os.environ.update(env)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        pkg.config.set(
            {
                "weights-memory-cache-policy": case["other"],
                "maximum-weights-memory-cache-size": 123456,
                "cache-policy": case["disk_other"],
                "user-cache-directory": f"{home}/wrong",
                "temporary-cache-directory-root": f"{home}/wrong",
            }
        )
    info = pkg.memory_cache_info()
    check(info.policy == case["policy"], f"memory cache policy {info.policy}")
    if case["policy"] in ("largest", "lru"):
        check(info.maxsize == (123456 if case["size"] is None else case["size"]), f"memory cache size {info.maxsize}")
    check(pkg.cache.policy.name == case["disk"], f"cache policy {pkg.cache.policy.name}")
    d = pkg.cache.directory()
    if case["disk"] == "user":
        check(d == pool(["dir", case["dir"]]), f"cache directory {d}")
    elif case["disk"] == "temporary":
        check(d.startswith(root), f"cache directory {d}")
    check(not os.path.exists(f"{home}/wrong"), "the hidden directory was created")
    ctx.nontrivial(case["policy"] != case["other"] or case["disk"] != case["disk_other"])


def parts(tier):
    return [
        Part("history", CASE, isolated(run), quick=1400, thorough=15000, budget=70),
        Part("start", START, start, quick=300, thorough=3000, budget=30),
        Part("effect", EFFECT, isolated(effect), quick=300, thorough=2000, budget=30),
    ]
