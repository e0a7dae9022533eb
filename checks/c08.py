import datetime
import json
import os

import dc
import inv
from hypothesis import strategies as st
from vp import Part, check, fail

PROPERTY = "C08"
RULE = (
    "A case is a history of 4-30 cache_file requests over keys (owner, arguments, extra hash, extension) chosen from pools "
    "of near-collisions, with creators that write a file or a directory tree (0 to 70000 bytes) and return metadata, "
    "forced by True/False/a callable or not, mixed with lost files, purges of one key, and switching the cache off and on "
    "again. A dictionary keyed by the JSON form of the key predicts whether the creator runs, the path, the bytes and the "
    "metadata. Non-trivial: a key is requested again, or two keys that differ in exactly one component are both present."
)
ASSUMPTIONS = [
    "arguments are JSON-like lists, dicts, strings, None or dates; two arguments are the same when their JSON form is",
    "extra hashes are not bare numbers next to bare-number arguments",
]

N = len(dc.ARGS) + 8
KEY = st.tuples(
    st.integers(0, len(dc.OWNERS) - 1),
    st.integers(0, N - 1),
    st.sampled_from([0, 0, 0, 1, 2, 3]),
    st.integers(0, len(dc.EXT) - 1),
)
FORCE = st.sampled_from([None, None, None, None, False, True, "yes", "no", "meta"])
REQ = st.tuples(st.just("get"), KEY, FORCE, dc.st_content, st.integers(0, len(dc.META) - 1))
OP = st.one_of(
    REQ,
    REQ,
    st.tuples(st.just("again"), st.integers(0, 99), FORCE, dc.st_content, st.integers(0, len(dc.META) - 1)),
    st.tuples(st.just("again"), st.integers(0, 99), FORCE, dc.st_content, st.integers(0, len(dc.META) - 1)),
    # a key that differs in one component from an earlier one
    st.tuples(st.just("near"), st.integers(0, 99), st.integers(0, 3), st.integers(0, 20), dc.st_content),
    st.tuples(st.just("lose"), st.integers(0, 99)),
    st.tuples(st.just("purge1"), st.integers(0, 99)),
    st.tuples(st.just("off_on")),
)
CASE = st.fixed_dictionaries(dict(ops=st.lists(OP, min_size=4, max_size=30), policy=st.sampled_from(["user", "user", "temporary", "off"])))



def args_of(i, other=False):
    """`other`: the same, written in another way"""
    import pandas as pd

    if i < len(dc.ARGS):
        a = dc.ARGS[i]
        if other and isinstance(a, dict):
            return dict(reversed(a.items()))
        return a
    return [
        lambda: [datetime.datetime(2020, 1, 1, 12), datetime.date(2021, 2, 3)],
        lambda: [datetime.datetime(2020, 1, 2, 12), datetime.date(2021, 2, 3)],
        lambda: [datetime.datetime(2020, 1, 1, 12, 0, 0, 1), datetime.date(2021, 2, 3)],
        lambda: pd.DatetimeIndex(["2020-01-01", "2020-01-02"]),
        lambda: {"dates": pd.DatetimeIndex(["2020-01-01", "2020-01-03"])},
        lambda: {"dates": pd.DatetimeIndex(["2020-01-01"])},
        lambda: [pd.Timestamp("2020-01-01 00:00:00.000000001")],
        lambda: [pd.Timestamp("2020-01-01 00:00:00.000000002")],
    ][i - len(dc.ARGS)]()


def same(a, b):
    return a is b or repr(a) == repr(b)


def run(case, ctx):
    from earthkit.regrid import cache, config
    from earthkit.regrid.utils.caching import cache_file

    inv.reset_package()
    config.set(
        {"user-cache-directory": ctx.newdir("c"), "maximum-cache-disk-usage": None, "maximum-cache-size": None, "temporary-directory-root": ctx.newdir("t")}
    )
    config.set("cache-policy", case["policy"])
    managed = case["policy"] != "off"
    state = {}  # key -> [path, files, meta]
    paths = {}
    seen = []
    count = 0

    def request(key, force, content, meta):
        nonlocal count
        count += 1
        owner, a, extra, ext = dc.OWNERS[key[0]], args_of(key[1], count % 2), dc.EXTRA[key[2]], dc.EXT[key[3]]
        ran = []
        asked = []

        def create(target, args):
            check(same(args, a), f"creator called with {args!r} instead of {a!r}")
            check(not os.path.lexists(target), "the creator's target exists already")
            ran.append(target)
            dc.write(target, content, count)
            return dc.META[meta]

        cached = state.get(key)
        if force in ("yes", "no", "meta"):

            def f(args, path, owner_data):
                check(same(args, a), "force called with other arguments")
                check(cached is not None and path == cached[0], f"force called with {path}")
                check(owner_data == cached[2], f"force got metadata {owner_data!r}, the creator returned {cached[2]!r}")
                asked.append(1)
                return force == "yes" or (force == "meta" and owner_data is None)

            want = cached is None or force == "yes" or (force == "meta" and cached[2] is None)
        else:
            f = force
            want = cached is None or force is True
        path = cache_file(owner, create, a, hash_extra=extra, extension=ext, force=f)
        check(path not in ran, "the temporary target was returned")
        check(os.path.exists(path), f"{path} does not exist")
        check(path.endswith(ext), f"{path} lacks the extension {ext}")
        check(os.path.dirname(path) == cache.directory(), f"{path} is not in {cache.directory()}")
        left = [n for n in os.listdir(cache.directory()) if n.endswith((".tmp", ".lock"))]
        check(not left, f"left behind: {left}")
        if not managed:
            check(len(ran) == 1, f"creator ran {len(ran)} times with the policy off")
            check(path not in paths, "a path was used again with the policy off")
            paths[path] = key
            check(dc.read(path) == dc.files(content, count), "wrong content")
            state[key + (count,)] = [path, dc.files(content, count), None]
            ctx.nontrivial(len(paths) > 2)
            return
        check(len(ran) == (1 if want else 0), f"creator ran {len(ran)} times, expected {int(want)} for {owner, a, extra, ext} force={force}")
        if cached is not None:
            ctx.nontrivial()
            check(path == cached[0], f"another path than before: {path} {cached[0]}")
            if force in ("yes", "no", "meta"):
                check(len(asked) == 1, f"force callable called {len(asked)} times")
        check(paths.setdefault(path, key) == key, f"keys {paths[path]} and {key} share {path}")
        if want:
            ctx.label("recreated" if cached is not None else "created")
            state[key] = [path, dc.files(content, count), dc.META[meta]]
        else:
            ctx.label("reused")
        check(dc.read(path) == state[key][1], f"wrong content at {path}")
        if not (key in seen):
            seen.append(key)

    def entries():
        dc.sync()
        es = {e["path"]: e for e in cache.entries()}
        check(set(es) == {s[0] for s in state.values()}, f"entries {sorted(es)}, expected {sorted(s[0] for s in state.values())}")
        for key, (path, data, meta) in state.items():
            e = es[path]
            check(e["owner"] == dc.OWNERS[key[0]], "owner")
            a = args_of(key[1])
            if key[1] < len(dc.ARGS):
                check(e["args"] == json.loads(json.dumps(a)), f"args {e['args']!r} != {a!r}")
            check(e["owner_data"] == meta, f"metadata {e['owner_data']!r} != {meta!r}")
            check(e["size"] == sum(map(len, data.values())), f"size {e['size']}")
            check(e["type"] == ("file" if "" in data else "directory"), f"type {e['type']}")

    for op in case["ops"]:
        ctx.label(op[0])
        if op[0] == "get":
            request(op[1], op[2], op[3], op[4])
        elif op[0] == "again" and seen:
            request(seen[op[1] % len(seen)], op[2], op[3], op[4])
        elif op[0] == "near" and seen:
            key = list(seen[op[1] % len(seen)])
            n = [len(dc.OWNERS), N, len(dc.EXTRA), len(dc.EXT)][op[2]]
            key[op[2]] = (key[op[2]] + 1 + op[3] % (n - 1)) % n
            ctx.nontrivial()
            request(tuple(key), None, op[4], 1)
        elif op[0] == "lose" and state:
            key = list(state)[op[1] % len(state)]
            import shutil

            p = state.pop(key)[0]
            shutil.rmtree(p) if os.path.isdir(p) else os.unlink(p)
        elif op[0] == "purge1" and state and managed:
            key = list(state)[op[1] % len(state)]
            p = state.pop(key)[0]
            cache.purge(matcher=lambda e: e["path"] == p)
            check(not os.path.exists(p), f"{p} was not purged")
        elif op[0] == "off_on" and case["policy"] == "user":
            config.set("cache-policy", "off")
            config.set("cache-policy", "user")
    if managed:
        entries()
    else:
        for path, data, _ in state.values():
            check(dc.read(path) == data, "a file changed later")


def parts(tier):
    return [Part("keys", CASE, run, quick=5000, thorough=20000, budget=100)]
