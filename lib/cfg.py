"""Config options: documented forms, generators and an independent parser."""
import os
import re

from hypothesis import strategies as st

SIZES = ("maximum-cache-size", "maximum-weights-memory-cache-size")
PERCENT = ("maximum-cache-disk-usage",)
SECONDS = ("url-download-timeout",)
BOOLS = ("check-out-of-date-urls", "download-out-of-date-urls", "weights-memory-cache-strict-mode")
CHOICES = {
    "cache-policy": ("off", "temporary", "user"),
    "weights-memory-cache-policy": ("off", "unlimited", "largest", "lru"),
}
DIRS = ("user-cache-directory", "temporary-cache-directory-root", "temporary-directory-root")
NONE_OK = SIZES + PERCENT + DIRS[1:]
OPTIONS = DIRS + tuple(CHOICES) + SIZES + PERCENT + SECONDS + BOOLS
# options without side effects on the disk cache
LIGHT = SECONDS + BOOLS + ("maximum-weights-memory-cache-size", "weights-memory-cache-policy")

BYTES = {u: 1024 ** (i + 1) for i, u in enumerate("KMGTP")}
SECS = dict(s=1, m=60, h=3600, d=86400, w=604800)

DEFAULTS = {
    "user-cache-directory": None,  # below the home directory
    "temporary-cache-directory-root": None,
    "temporary-directory-root": None,
    "cache-policy": "user",
    "maximum-cache-size": "5GB",
    "maximum-cache-disk-usage": None,
    "url-download-timeout": "30s",
    "check-out-of-date-urls": False,
    "download-out-of-date-urls": False,
    "maximum-weights-memory-cache-size": "500MB",
    "weights-memory-cache-policy": "largest",
    "weights-memory-cache-strict-mode": False,
}


def defaults(home):
    d = dict(DEFAULTS)
    d["user-cache-directory"] = os.path.join(home, ".cache", "earthkit-regrid")
    return d


def env_name(name):
    return "EARTHKIT_REGRID_" + name.upper().replace("-", "_")


def parse(name, value):
    """What get() has to return for a valid value of the option."""
    if value is None:
        return None
    if name in BOOLS:
        if isinstance(value, bool):
            return value
        return str(value).strip().lower() in ("true", "yes", "on", "1")
    if name in SIZES + PERCENT + SECONDS:
        m = re.match(r"\s*([0-9]+)\s*([A-Za-z%]*)\s*$", str(value))
        n, u = int(m.group(1)), m.group(2)
        if u in ("", "%"):
            return n
        return n * (BYTES[u[0].upper()] if name in SIZES else SECS[u[0]])
    return str(value)


def same(name, got, want):
    return got == want and type(got) is type(want)


_pad = st.sampled_from(["", "", "", " ", "  ", "\t"])


def _number(units, largest):
    @st.composite
    def f(draw):
        n = draw(st.integers(0, largest))
        u = draw(st.sampled_from([""] + units))
        if not u and draw(st.booleans()):
            return n
        zeros = draw(st.sampled_from(["", "", "", "0", "00"]))
        return draw(_pad) + zeros + str(n) + draw(_pad) + u + draw(_pad)

    return f()


def valid(name):
    """Valid values; directories are indices into the pool of the case."""
    if name in SIZES:
        # small numbers as well as numbers that need exact arithmetic
        s = st.one_of(_number(list("KMGTPkmgtp") + ["KB", "kb", "MB", "GB"], 4000), _number([], 2**62), _number(list("KMGTPkmgtp"), 2**62), st.none())
    elif name in PERCENT:
        s = st.one_of(_number(["%"], 120), st.none())
    elif name in SECONDS:
        s = _number(list(SECS), 100000)
    elif name in BOOLS:
        s = st.one_of(st.booleans(), st.booleans(), st.sampled_from(["True", "False", "true", "false", "0", "1", 0, 1]))
    elif name in CHOICES:
        s = st.sampled_from(CHOICES[name])
    elif name == "user-cache-directory":
        s = st.integers(0, 3).map(lambda i: ["dir", i])
    else:
        s = st.one_of(st.none(), st.integers(0, 3).map(lambda i: ["dir", i]))
    return s


def item(names=OPTIONS):
    return st.sampled_from(names).flatmap(lambda n: st.tuples(st.just(n), valid(n)))


def items(names=OPTIONS, min_size=1, max_size=4):
    return st.lists(item(names), min_size=min_size, max_size=max_size, unique_by=lambda x: x[0])


def env_text(name):
    """Values as they are written in an environment variable."""
    if name in BOOLS:
        return st.sampled_from(["True", "False", "true", "false", "0", "1", "TRUE", "no", "yes", "on", "off"])
    return valid(name).filter(lambda v: v is not None).map(lambda v: v if isinstance(v, list) else str(v))


_JUNK = [
    "", " ", "-1", "-5K", "+3", "1.5", "1.5G", "1e3", "abc", "K", "%", "1,000", "1 2", "0x10", "5!", "5K!", "K5", "G5",
    "5 K B", "--", "None", "nan", "inf", "1_000", "5\n6", -1, 1.5, float("nan"),
]


def bad(name):
    if name in SIZES:
        return st.sampled_from(_JUNK + ["5%", "5s", "5x", "5 h", "7Z", "7 E", "3y", "3b", "100%"])
    if name in PERCENT:
        return st.sampled_from(_JUNK + ["5K", "5s", "5 x", "5G"])
    if name in SECONDS:
        return st.sampled_from(_JUNK + ["5K", "5%", "5M", "5S", "5H", "5 y", "1b", None])
    if name in BOOLS:
        return st.sampled_from(["", "maybe", "2", "-1", "truee", "nope", "5s", "None", 2, 1.5, "t rue"])
    if name in CHOICES:
        return st.sampled_from(["", "User", "OFF", "LRU", "largest ", " user", "none", "temp", "lru,off", "usr", None, True, 0, "off\n"])
    raise KeyError(name)


BADABLE = SIZES + PERCENT + SECONDS + BOOLS + tuple(CHOICES)


def bad_item():
    return st.sampled_from(BADABLE).flatmap(lambda n: st.tuples(st.just(n), bad(n)))


class Pool:
    def __init__(self, base):
        self.dirs = [f"{base}/c0", f"{base}/c1/deep", f"{base}/c 2: x", f"{base}/c#3 é"]

    def __call__(self, value):
        if isinstance(value, (list, tuple)) and len(value) == 2 and value[0] == "dir":
            return self.dirs[value[1] % len(self.dirs)]
        return value


def fresh_import(home, env=()):
    """Import the package again as a new process would (in a forked child)."""
    import sys

    for k in [k for k in os.environ if k.startswith("EARTHKIT_REGRID_")]:
        del os.environ[k]
    os.environ["HOME"] = home
    os.environ.update(env)
    for m in [m for m in sys.modules if m == "earthkit.regrid" or m.startswith("earthkit.regrid.")]:
        del sys.modules[m]
    import earthkit

    if hasattr(earthkit, "regrid"):
        del earthkit.regrid
    import earthkit.regrid  # noqa

    return earthkit.regrid
