import hashlib
import os
import re
import warnings

import cfg
import inv
from hypothesis import strategies as st
from procs import isolated
from vp import Part, check, fail

PROPERTY = "C17"
RULE = (
    "values: 40 values per case, generated from the documented grammar of the options (number, optional unit in the "
    "allowed cases, blanks, leading zeros, very large numbers, None) or outside of it (signs, fractions, wrong units, "
    "junk, other types, random text judged by an independent recogniser), given by set(), temporary() or the "
    "environment: valid ones yield the number computed independently, others raise. rejected: histories in which "
    "rejected calls (also of several options at once, some valid) must leave every setting, the saved file and both "
    "caches, with content, as they were. human: sizes printed by humanize.bytes() and read back. Non-trivial: a value "
    "with a unit or a rejected one."
)
ASSUMPTIONS = [
    "unit words longer than the documented letter (5GB, 30seconds) are accepted or not, unless they are documented "
    "defaults; digits are ASCII",
]

TEXT = st.text(alphabet="0123456789 KMGTPkmgtpsSmhdw%xZ.-+e_", max_size=7)
ITEM = st.one_of(
    cfg.item(cfg.BADABLE).map(lambda x: ("ok",) + x),
    cfg.item(cfg.BADABLE).map(lambda x: ("ok",) + x),
    cfg.bad_item().map(lambda x: ("bad",) + x),
    st.tuples(st.just("?"), st.sampled_from(cfg.SIZES + cfg.PERCENT + cfg.SECONDS), TEXT),
)
VALUES = st.lists(st.tuples(ITEM, st.sampled_from(["set", "set", "temporary", "env", "kw"])), min_size=20, max_size=40)


def judge(name, text):
    """Is the text in the documented form of the option: True, False, or None where nothing is said."""
    m = re.match(r"\s*([0-9]+)\s*(.*?)\s*$", text, re.S)
    if not m or not re.match(r"\s*([0-9]+)\s*(.*?)\s*\Z", text, re.S):
        return False
    u = m.group(2)
    units = "KMGTPkmgtp" if name in cfg.SIZES else "%" if name in cfg.PERCENT else "smhdw"
    if u == "" or u in units:
        return True
    if u[0] in units:
        return None
    return False


def run_values(case, ctx):
    from earthkit.regrid import config

    config.autosave = False
    home = os.path.expanduser("~")
    state = cfg.defaults(home)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for (kind, name, value), how in case:
            if kind == "?":
                ok = judge(name, value)
                if ok is None:
                    continue
            else:
                ok = kind == "ok"
            if how == "env":
                if value is None:
                    continue
                if not isinstance(value, str):
                    value = str(value)
                if name in cfg.CHOICES and not ok:
                    continue
                if "\0" in value:
                    continue
            ctx.nontrivial(not ok or (isinstance(value, str) and not value.strip().isdigit()))
            what = f"{how} {name} {value!r}"
            ctx.label(f"{how} {'valid' if ok else 'invalid'}")
            got = None
            try:
                if how == "set":
                    config.set(name, value)
                    got = config.get(name)
                elif how == "kw":
                    config.set(**{name.replace("-", "_"): value})
                    got = config.get(name)
                elif how == "temporary":
                    with config.temporary(name, value):
                        got = config.get(name)
                else:
                    os.environ[cfg.env_name(name)] = value
                    try:
                        got = config.get(name)
                    finally:
                        del os.environ[cfg.env_name(name)]
            except (ValueError, TypeError) as e:
                check(not ok, f"{what}: {e!r}")
            else:
                check(ok, f"{what}: accepted as {got!r}")
                want = cfg.parse(name, value)
                check(cfg.same(name, got, want), f"{what}: get() is {got!r}, expected {want!r}")
                if how in ("set", "kw"):
                    state[name] = value
            for k in cfg.BADABLE:
                check(config.get(k) == cfg.parse(k, state[k]), f"{what}: {k} is now {config.get(k)!r}")


GOOD = cfg.items()
REJ = st.tuples(
    st.just("reject"),
    st.integers(0, 5),
    st.one_of(cfg.bad_item(), cfg.bad_item(), st.just(("no-such-option", 1))),
    cfg.items(max_size=3),
    st.integers(0, 3),
)
OP = st.one_of(
    REJ,
    REJ,
    REJ,
    st.tuples(st.just("set"), cfg.items(cfg.SECONDS + cfg.BOOLS + cfg.PERCENT[:0])),
    st.tuples(st.just("push"), cfg.items(cfg.SECONDS + cfg.BOOLS)),
    st.tuples(st.just("pop")),
)
REJECTED = st.fixed_dictionaries(
    dict(ops=st.lists(OP, min_size=4, max_size=16))
)

def run_rejected(case, ctx):
    home = ctx.newdir("h")
    pkg = cfg.fresh_import(home, {"EARTHKIT_REGRID_CONFIG_FILE": f"{home}/config.yaml"})
    from earthkit.regrid.array import regrid
    from earthkit.regrid.utils.caching import cache_file

    config, cache = pkg.config, pkg.cache
    pool = cfg.Pool(home + "/dirs")
    # something in both caches
    config.set({"maximum-cache-size": "1M", "url-download-timeout": 77, "user-cache-directory": f"{home}/cache"})
    n = 3
    entries = [inv.Entry(("hp", k, "ring"), ("ll", 10, 10), "linear", k) for k in (2, 4)]
    inv.write_inventory(f"{home}/inv", entries)
    for e in entries:
        regrid(
            inv.array(inv.shape(e.gin), 1),
            inv.request_grid(e.gin),
            inv.request_grid(e.gout),
            interpolation=e.method,
            backend="precomputed",
            inventory=f"{home}/inv",
        )

    def create(i):
        def f(target, args):
            with open(target, "w") as g:
                g.write("x" * 100 * (i + 1))

        return f

    paths = [cache_file("me", create(i), {"i": i}) for i in range(n)]

    def everything():
        r = {k: config.get(k) for k in cfg.OPTIONS}
        r["dump"] = sorted((k, repr(v)) for k, v, _ in config.dump())
        r["memory"] = tuple(pkg.memory_cache_info())
        r["entries"] = sorted((e["path"], e["size"]) for e in cache.entries())
        r["size"] = cache.size()
        r["dir"] = cache.directory()
        r["files"] = sorted(
            (os.path.join(d, x), hashlib.md5(open(os.path.join(d, x), "rb").read()).hexdigest())
            for d, _, xs in os.walk(home)
            for x in xs
            if not x.endswith((".db", ".db-wal", ".db-shm", ".db-journal"))
        )
        r["dirs"] = sorted(d for d, _, _ in os.walk(home))
        r["env"] = config.env()
        return r

    check(len(cache.entries()) == n and all(map(os.path.exists, paths)), "the cache lost files")
    check(pkg.memory_cache_info().count == 2, "the memory cache lost matrices")
    cms = []
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for i, op in enumerate(case["ops"]):
            if op[0] == "set":
                config.set(dict(op[1]))
            elif op[0] == "push":
                cms.append(config.temporary(dict(op[1])))
                cms[-1].__enter__()
            elif op[0] == "pop":
                if cms:
                    cms.pop().__exit__(None, None, None)
            else:
                name, value = op[2]
                good = [(k, pool(v)) for k, v in op[3] if k != name]
                k = op[4] % (len(good) + 1)
                mixed = dict(good[:k] + [(name, value)] + good[k:])
                kw = {k.replace("-", "_"): v for k, v in mixed.items()}
                f = [
                    lambda: config.set(name, value),
                    lambda: config.set(mixed),
                    lambda: config.set(**kw),
                    lambda: config.temporary(mixed).__enter__(),
                    lambda: config.temporary(**kw).__enter__(),
                    lambda: config.temporary(name, value).__enter__(),
                ][op[1]]
                before = everything()
                try:
                    f()
                except (ValueError, TypeError, KeyError):
                    pass
                else:
                    fail(f"op {i} {op!r}: accepted")
                after = everything()
                for x in before:
                    check(before[x] == after[x], lambda: f"op {i} {op!r} was rejected but {x} changed from {before[x]} to {after[x]}")
                ctx.nontrivial(op[1] in (1, 2, 3, 4) and bool(good))
                ctx.label(f"form {op[1]} depth {min(len(cms), 2)}")
    while cms:
        cms.pop().__exit__(None, None, None)
    check(all(map(os.path.exists, paths)), "files of the cache are gone")


HUMAN = st.one_of(
    st.integers(0, 2**20),
    st.integers(0, 2**70),
    st.tuples(st.integers(0, 6), st.integers(-2000, 2000)).map(lambda x: max(0, 1024 ** x[0] + x[1])),
    st.tuples(st.integers(0, 1100), st.integers(0, 6)).map(lambda x: x[0] * 1024 ** x[1]),
)
UNITS = ["", "KiB", "MiB", "GiB", "TiB", "PiB", "EiB", "ZiB", "YiB"]


def human(case, ctx):
    from earthkit.regrid.utils import humanize

    for n in case:
        for sign in (1, -1):
            text = humanize.bytes(sign * n)
            m = re.match(r"(-?)([0-9]+(?:\.[0-9])?)(?: ([KMGTPEZY]iB))?\Z", text)
            check(m, f"bytes({sign * n}) is {text!r}")
            unit = 1024 ** UNITS.index(m.group(3) or "")
            value = float(m.group(2)) * unit
            check(abs(value - n) <= 0.0501 * unit, f"bytes({sign * n}) is {text!r}")
            check((m.group(1) == "-") == (sign * n < 0) or n == 0, f"bytes({sign * n}) is {text!r}")
            check(float(m.group(2)) <= 1024, f"bytes({sign * n}) is {text!r}: larger unit expected")
        text = humanize.bytes(n)
        if "." not in text and not text.endswith(("EiB", "ZiB", "YiB")):
            got = humanize.as_bytes(text)
            check(abs(got - n) <= 0.0501 * unit, f"{n} printed as {text!r} and read as {got}")
            ctx.label("read back")
        ctx.nontrivial(n >= 1024)


def parts(tier):
    return [
        Part("values", VALUES, isolated(run_values), quick=1000, thorough=10000, budget=40),
        Part("rejected", REJECTED, isolated(run_rejected), quick=220, thorough=2500, budget=55),
        Part("human", st.lists(HUMAN, min_size=10, max_size=30), human, quick=600, thorough=10000, budget=10),
    ]
