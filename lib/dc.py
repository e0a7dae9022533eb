"""Creators, content and keys for the disk cache checks."""
import hashlib
import os
import time

from hypothesis import strategies as st

OWNERS = ["url", "regrid", "URL", "my.owner", "x-y"]
ARGS = [
    ["http://a/b"],
    ["http://a", "b"],
    {"url": "http://a/b", "parts": None},
    {"url": "http://a/b", "parts": [0, 1]},
    [1, 2],
    [1, [2]],
    [12],
    ["1", "2"],
    "text",
    {"b": 1, "a": [True, None, 1.5, "é"]},
    [],
    {},
    None,
]
EXTRA = [None, "v1", ["v", 1], 0]
EXT = [".cache", ".npz", "", ".tar.gz", ".x"]

# plain data: what a creator writes
#   ("file", n)             n bytes
#   ("dir", [n...], [n...]) files and files in a sub-directory
st_content = st.one_of(
    st.tuples(st.just("file"), st.sampled_from([0, 1, 7, 100, 4096, 70000])),
    st.tuples(st.just("file"), st.integers(1, 500)),
    st.tuples(st.just("dir"), st.lists(st.integers(0, 300), max_size=3), st.lists(st.integers(1, 300), max_size=3)),
)
META = [None, {"etag": '"1"', "n": [1, 2]}, ["x", None], "text", 3, {}]


def blob(tag, n):
    h = hashlib.blake2b(repr(tag).encode(), digest_size=32).digest()
    return (h * (n // 32 + 1))[:n]


def files(content, tag):
    """relative path -> bytes"""
    if content[0] == "file":
        return {"": blob(tag, content[1])}
    r = {f"f{i}": blob((tag, i), n) for i, n in enumerate(content[1])}
    r.update({f"sub/deep/f{i}": blob((tag, "s", i), n) for i, n in enumerate(content[2])})
    return r


def nbytes(content):
    return content[1] if content[0] == "file" else sum(content[1]) + sum(content[2])


def backdate(target, seconds=3600):
    """What is left or in use by a creation looks as if it had started long ago."""
    t = time.time() - seconds
    for p in (target, target[: -len(".tmp")] + ".lock"):
        if os.path.exists(p):
            os.utime(p, (t, t))


def write(target, content, tag, stop_after=None):
    """Write; with `stop_after`, stop (return False) after that many steps."""
    steps = 0

    def step():
        nonlocal steps
        steps += 1
        return stop_after is not None and steps > stop_after

    if step():
        return False
    if content[0] == "dir":
        os.makedirs(os.path.join(target, "sub", "deep"))
    for rel, data in files(content, tag).items():
        with open(os.path.join(target, rel) if rel else target, "wb") as f:
            half = len(data) // 2
            f.write(data[:half])
            f.flush()
            if step():
                return False
            f.write(data[half:])
        if step():
            return False
    return True


def read(path):
    """What is at `path`: relative path -> bytes"""
    if os.path.isdir(path):
        r = {}
        for root, _, names in os.walk(path):
            for n in names:
                p = os.path.join(root, n)
                with open(p, "rb") as f:
                    r[os.path.relpath(p, path)] = f.read()
        return r
    with open(path, "rb") as f:
        return {"": f.read()}


def sync():
    """Wait for the queued work of the cache."""
    from earthkit.regrid import cache

    return cache.size()
