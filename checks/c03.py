import inv
import numpy as np
from hypothesis import strategies as st
from vp import Part, check, fail

PROPERTY = "C03"
RULE = (
    "A case is an inventory with 2-6 matrices of different sizes (the recorded memory may be true, absent, too small "
    "or too large), and a history of 4-40 operations: request a matrix, request something that is not there, change "
    "policy, limit or strict mode (directly, several at once, or in nested temporary contexts), clear. A reference "
    "model of the four policies predicts hit/miss, counters, bytes, count, refusal. Limits lie around "
    "sums of matrix sizes; in a second part they are exact sums, met exactly. Non-trivial: at least one eviction or refusal and one hit."
)
ASSUMPTIONS = [
    "each matrix is always requested with the same spelling of grids and method",
]

GOUT = [("ll", 90, 90), ("ll", 45, 45), ("ll", 90, 45), ("ll", 60, 60), ("ll", 36, 36), ("ll", 30, 30)]
GIN = ("ll", 45, 90)
POL = ["off", "lru", "lru", "largest", "largest", "unlimited"]

# limits: small numbers around sums of matrix sizes; +k keeps them off the multiples of 4
SUM = st.tuples(st.just("sum"), st.lists(st.integers(0, 5), min_size=1, max_size=3), st.integers(-150, 150))
st_limit = st.one_of(
    SUM,
    SUM,
    SUM,
    SUM,
    st.just(("big",)),
    st.just(("none",)),
    st.just(("tiny",)),
    st.just(("zero",)),
)
SETTING = st.one_of(
    st.tuples(st.just("policy"), st.sampled_from(POL)),
    st.tuples(st.just("max"), st_limit),
    st.tuples(st.just("strict"), st.booleans()),
)
GETS = st.lists(st.integers(0, 5), min_size=2, max_size=8).map(lambda v: ("gets", v))
OP = st.one_of(
    GETS,
    GETS,
    GETS,
    GETS,
    st.tuples(st.just("set"), st.lists(SETTING, min_size=1, max_size=3)),
    st.tuples(st.just("set"), st.tuples(st.tuples(st.just("max"), SUM))),
    st.tuples(st.just("push"), st.lists(SETTING, min_size=0, max_size=2)),
    st.tuples(st.just("pop")),
    st.one_of(
        st.tuples(st.just("clear")),
        st.tuples(st.just("unrelated"), st.integers(1, 60)),
        st.tuples(st.just("nothing"), st.integers(0, 5)),
    ),
)
ENTRY = st.tuples(
    st.integers(0, 2**20),
    st.integers(1, 6),
    st.sampled_from(["true", "true", "true", "absent", "small", "large"]),
)
CASE = st.fixed_dictionaries(
    dict(
        entries=st.lists(ENTRY, min_size=2, max_size=6),
        first=st.one_of(
            st.tuples(
                st.tuples(st.just("policy"), st.sampled_from(["lru", "largest"])),
                st.tuples(st.just("max"), SUM),
                st.tuples(st.just("strict"), st.booleans()),
            ),
            st.tuples(
                st.tuples(st.just("policy"), st.sampled_from(["lru", "largest"])),
                st.tuples(st.just("max"), SUM),
            ),
            st.lists(SETTING, min_size=0, max_size=3),
        ),
        # most orders of requests start by filling the cache and asking again
        start=st.permutations(range(6)).flatmap(
            lambda p: st.lists(st.sampled_from(p), min_size=0, max_size=6).map(lambda v: list(p) + v)
        ),
        ops=st.lists(OP, min_size=3, max_size=14),
    )
)


class Model:
    def __init__(self):
        self.conf = [dict(policy="largest", max=500 * 1024 * 1024, strict=False)]
        self.items = {}  # name -> size, in order of use
        self.hits = self.misses = 0
        self.evicted = 0

    @property
    def c(self):
        return self.conf[-1]

    def limited(self):
        return self.c["policy"] in ("lru", "largest") and self.c["max"] is not None

    def cur(self):
        return sum(self.items.values())

    def reduce(self, target):
        while self.items and self.cur() > target:
            if self.c["policy"] == "lru":
                k = next(iter(self.items))
            else:
                k = max(self.items, key=lambda x: self.items[x])
            del self.items[k]
            self.evicted += 1

    def changed(self):
        if self.c["policy"] == "off":
            self.clear()
        elif self.limited():
            self.reduce(self.c["max"])

    def clear(self):
        self.items = {}
        self.hits = self.misses = 0

    def get(self, name, size, est):
        """-> 'ok' or 'refused'"""
        if self.c["policy"] == "off":
            return "ok"
        if name in self.items:
            self.items[name] = self.items.pop(name)
            self.hits += 1
            return "ok"
        if self.limited():
            m = self.c["max"]
            if est > m - self.cur() and est <= m:
                self.reduce(m - est)
            if self.c["strict"] and m - self.cur() < est:
                return "refused"
        self.misses += 1
        if self.limited() and size > self.c["max"]:
            return "ok"
        self.items[name] = size
        if self.limited():
            self.reduce(self.c["max"])
        return "ok"

    def info(self):
        p = self.c["policy"]
        m = 0 if p == "off" else None if p == "unlimited" else self.c["max"]
        return (self.hits, self.misses, m, self.cur(), len(self.items), p)


KEY = {
    "policy": "weights-memory-cache-policy",
    "max": "maximum-weights-memory-cache-size",
    "strict": "weights-memory-cache-strict-mode",
}


def run(case, ctx, exact=False):
    from earthkit.regrid import clear_memory_cache, config, memory_cache_info
    from earthkit.regrid.array import regrid

    inv.reset_package()
    path = ctx.newdir("inv")
    entries, est, sizes = [], [], []
    for i, (seed, per_row, mem) in enumerate(case["entries"]):
        e = inv.Entry(GIN, GOUT[i], "linear", seed, per_row=per_row)
        n = e.nbytes()
        if n in sizes:
            continue  # equal sizes: which one "largest" evicts is not specified
        if exact:
            mem = "true"
        if mem == "absent":
            e.memory = "absent"
        elif mem == "small":
            e.memory = n // 8 * 4
        elif mem == "large":
            e.memory = n + 400
        entries.append(e)
        sizes.append(n)
        est.append(0 if mem == "absent" else n if e.memory is None else e.memory)
    inv.write_inventory(path, entries)

    def limit(spec):
        if spec[0] == "sum":
            v = sum(sizes[i % len(sizes)] for i in spec[1])
            if exact:
                return v
            return max(1, (v + spec[2]) // 4 * 4 + 1 + abs(spec[2]) % 3)
        return {"big": 10**8 + 1, "none": None, "tiny": 1, "zero": 0}[spec[0]]

    m = Model()
    frames = []

    def settings(lst):
        d = {}
        for k, v in lst:
            d[k] = limit(v) if k == "max" else v
        return d

    def apply(d):
        m.c.update(d)
        m.changed()

    x = inv.array(inv.shape(GIN), 3)

    def compare(what):
        info = tuple(memory_cache_info())
        check(info == m.info(), lambda: f"after {what}: statistics {info}, model {m.info()} (items {m.items})")

    try:
        if case["first"]:
            d = settings(case["first"])
            config.set({KEY[k]: v for k, v in d.items()})
            apply(d)
        clear_memory_cache()
        m.clear()
        compare("start")
        refused = 0
        ops = [("get", i) for i in case["start"]]
        for op in case["ops"]:
            if op[0] == "gets":
                ops += [("get", i) for i in op[1]]
            else:
                ops.append(op)
        for nop, op in enumerate(ops):
            ctx.label(op[0])
            if op[0] == "get":
                i = op[1] % len(entries)
                e = entries[i]
                before = m.hits
                a = dict(interpolation="linear", backend="precomputed", inventory=path)
                try:
                    y, _ = regrid(x, inv.request_grid(e.gin), inv.request_grid(e.gout), **a)
                    got = "ok"
                except ValueError as err:
                    got = "refused"
                    msg = str(err)
                want = m.get(i, sizes[i], est[i])
                check(
                    got == want,
                    lambda: f"request for matrix {i} ({sizes[i]} bytes, recorded {est[i]}) was {got}, expected {want}; "
                    f"conf {m.c} items {m.items}",
                )
                if got == "refused":
                    refused += 1
                    # whether a refused request counts as a miss is not specified
                    now = memory_cache_info().misses
                    check(now in (m.misses, m.misses + 1), f"misses {now} after a refusal, model {m.misses}")
                    m.misses = now
                    ctx.label("refused")
                else:
                    check(y.shape == e.out_shape() and inv.same_values(y, e.expected(x), e.tol(x)), f"matrix {i}: wrong values")
                    if m.hits > before:
                        ctx.label("hit")
            elif op[0] == "nothing":
                try:
                    regrid(
                        x,
                        inv.request_grid(GIN),
                        inv.request_grid(GOUT[op[1]]),
                        interpolation="grid-box-average",
                        backend="precomputed",
                        inventory=path,
                    )
                    fail("a result was returned for weights that do not exist")
                except ValueError:
                    pass
                if m.c["policy"] != "off":
                    now = memory_cache_info().misses
                    check(now in (m.misses, m.misses + 1), f"misses {now}, model {m.misses}")
                    m.misses = now
            elif op[0] == "set":
                d = settings(op[1])
                if len(d) > 1 or nop % 2:
                    config.set({KEY[k]: v for k, v in d.items()})
                else:
                    for k, v in d.items():
                        config.set(KEY[k], v)
                apply(d)
            elif op[0] == "push":
                d = settings(op[1])
                cm = config.temporary({KEY[k]: v for k, v in d.items()}) if d else config.temporary()
                cm.__enter__()
                frames.append(cm)
                m.conf.append(dict(m.c))
                apply(d)
            elif op[0] == "pop" and frames:
                frames.pop().__exit__(None, None, None)
                m.conf.pop()
                m.changed()
            elif op[0] == "clear":
                clear_memory_cache()
                m.clear()
            elif op[0] == "unrelated":
                config.set("url-download-timeout", op[1])
            compare(op)
        ctx.nontrivial(m.hits > 0 and (m.evicted > 0 or refused > 0))
        if m.evicted:
            ctx.label("evicted")
    finally:
        while frames:
            frames.pop().__exit__(None, None, None)


def parts(tier):
    return [
        Part("model", CASE, run, quick=3600, thorough=12000, budget=110),
        Part("exact-fit", CASE, lambda c, x: run(c, x, True), quick=800, thorough=3000, budget=40),
    ]
