import html
import os
import re
import warnings

import cfg
from hypothesis import strategies as st
from procs import isolated
from vp import Part, check

PROPERTY = "C28"
RULE = (
    "history: 3-25 operations on the configuration: set (pair, dict, keywords), reset of one or all, temporary contexts entered "
    "and left, environment variables of options set and removed. After each, repr(config), its HTML form, config.dump() "
    "and config.env() are compared with the model (stack of option maps plus environment). tables: the tables of options "
    "in the documentation for generated selections of names. Non-trivial: something is shown that is neither the default "
    "nor all there is: an environment variable, or a value of a temporary context."
)
ASSUMPTIONS = [
    "the layout of the displays is not fixed: a row is recognised by the name of the option at its beginning",
    "texts do not contain line breaks",
]

ENVTEXT = {n: cfg.env_text(n) for n in cfg.OPTIONS}
OP = st.one_of(
    st.tuples(st.just("set"), st.sampled_from(["pair", "dict", "kw"]), cfg.items()),
    st.tuples(st.just("set"), st.sampled_from(["pair", "dict", "kw"]), cfg.items()),
    st.tuples(st.just("push"), cfg.items()),
    st.tuples(st.just("pop"), st.just(0)),
    st.tuples(st.just("reset"), st.sampled_from((None,) + cfg.OPTIONS)),
    st.sampled_from(cfg.LIGHT + cfg.SIZES).flatmap(lambda n: st.tuples(st.just("env"), st.just(n), ENVTEXT[n])),
    st.tuples(st.just("unenv"), st.integers(0, 5)),
)
CASE = st.fixed_dictionaries(dict(ops=st.lists(OP, min_size=3, max_size=25), autosave=st.booleans()))


def rows_of_text(text):
    return [line.split(": ", 1) for line in text.split("\n")]


def rows_of_html(text):
    out = []
    for row in re.findall(r"<tr>(.*?)</tr>", text, re.S):
        cells = re.findall(r"<td>(.*?)</td>", row, re.S)
        if cells:
            out.append((html.unescape(cells[0]), " ".join(html.unescape(c) for c in cells[1:])))
    return out


def run(case, ctx):
    from earthkit.regrid import config

    pool = cfg.Pool(ctx.newdir("c"))
    config.autosave = case["autosave"]
    default = cfg.defaults(os.path.expanduser("~"))
    stack = [dict(default)]
    cms = []
    env = {}

    def settle(what):
        dump = [d for d in config.dump() if d[0] != "version"]
        names = [d[0] for d in dump]
        check(names == sorted(cfg.OPTIONS), f"{what}: dump lists {names}")
        for k, v, item in dump:
            want = cfg.parse(k, stack[-1][k])
            check(cfg.same(k, cfg.parse(k, v), want), f"{what}: dump has {v!r} for {k}, set was {stack[-1][k]!r}")
            check(item.default == default[k], f"{what}: dump has default {item.default!r} for {k}")
        shown = {k: v for k, v, _ in dump}
        got = config.env()
        want = {k: (cfg.env_name(k), t) for k, t in env.items()}
        check({k: tuple(v) for k, v in got.items()} == want, f"{what}: env() is {got}, expected {want}")
        for form, rows, text in (
            ("repr", rows_of_text(repr(config)), str),
            ("html", rows_of_html(config._repr_html_()), repr),
        ):
            # (the config file also holds its version)
            rows = [r for r in rows if r[0] != "version"]
            names = [r[0] for r in rows]
            check(names == sorted(cfg.OPTIONS), f"{what}: {form} lists {names}")
            for k, rest in rows:
                rest = " ".join(str(x) for x in rest) if isinstance(rest, list) else rest
                check(text(shown[k]) in rest, f"{what}: {form} shows {rest!r} for {k}, its value is {shown[k]!r}")
                check(text(default[k]) in rest, f"{what}: {form} shows {rest!r} for {k}, its default is {default[k]!r}")
                # the text of a value may contain the name of a variable
                here = cfg.env_name(k) in rest.replace(str(shown[k]), "")
                check(here == (k in env), f"{what}: {form} shows {rest!r} for {k}, environment {env.get(k)!r}")
                if k in env:
                    check(text(env[k]) in rest, f"{what}: {form} shows {rest!r} for {k}, environment {env[k]!r}")
        if env or len(stack) > 1 and stack[-1] != stack[0]:
            ctx.nontrivial()
            ctx.label(f"depth {min(len(stack), 3)} env {min(len(env), 2)}")

    def call(method, form, pairs):
        if form == "pair":
            method(*pairs[0])
            return pairs[:1]
        if form == "dict":
            method(dict(pairs))
        else:
            method(**{k.replace("-", "_"): v for k, v in pairs})
        return pairs

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        settle("start")
        for n, op in enumerate(case["ops"]):
            what = f"op {n} {op!r} (depth {len(stack)})"
            kind = op[0]
            if kind == "set":
                pairs = [(k, pool(v)) for k, v in op[2]]
                stack[-1].update(call(config.set, op[1], pairs))
            elif kind == "push":
                pairs = [(k, pool(v)) for k, v in op[1]]
                cm = config.temporary(dict(pairs))
                cm.__enter__()
                cms.append(cm)
                stack.append({**stack[-1], **dict(pairs)})
            elif kind == "pop":
                if cms:
                    cms.pop().__exit__(None, None, None)
                    stack.pop()
            elif kind == "reset":
                if op[1] is None:
                    config.reset()
                    stack[-1] = dict(default)
                else:
                    config.reset(op[1])
                    stack[-1][op[1]] = default[op[1]]
            elif kind == "env":
                env[op[1]] = os.environ[cfg.env_name(op[1])] = op[2]
            elif kind == "unenv":
                if env:
                    k = sorted(env)[op[1] % len(env)]
                    del env[k]
                    del os.environ[cfg.env_name(k)]
            settle(what)
        while cms:
            cms.pop().__exit__(None, None, None)


def run_tables(case, ctx):
    import contextlib
    import io

    from earthkit.regrid.sphinxext import generate_config_env_rst
    from earthkit.regrid.sphinxext import generate_config_rst

    names = case["names"]
    want = sorted(n for n in cfg.OPTIONS if n in names) if names else sorted(cfg.OPTIONS)
    default = cfg.defaults(os.path.expanduser("~"))
    for mod in (generate_config_rst, generate_config_env_rst):
        f = io.StringIO()
        with contextlib.redirect_stdout(f):
            mod.execute(*[n + "$" for n in names])
        text = f.getvalue().replace("\u2011", "-")
        rows = re.split(r"^   \* -", text, flags=re.M)[2:]
        rows = [[c.strip() for c in re.split(r"^     -", r, flags=re.M)] for r in rows]
        check([r[0] for r in rows] == want, f"{mod.__name__} {names}: rows {[r[0] for r in rows]}")
        for r in rows:
            if mod is generate_config_env_rst:
                check(r[1] == cfg.env_name(r[0]), f"{r}: variable name")
            elif r[0] != "user-cache-directory":
                check(r[1] == repr(default[r[0]]), f"{r}: default is {default[r[0]]!r}")
                for c in cfg.CHOICES.get(r[0], ()):
                    check(c in r[2], f"{r}: choice {c} is not listed")
    if names and len(want) < len(cfg.OPTIONS):
        ctx.nontrivial()


TABLES = st.fixed_dictionaries(dict(names=st.lists(st.sampled_from(cfg.OPTIONS), max_size=5, unique=True)))


def parts(tier):
    return [
        Part("history", CASE, isolated(run), quick=1600, thorough=10000, budget=60),
        Part("tables", TABLES, run_tables, quick=200, thorough=1000, budget=20),
    ]
