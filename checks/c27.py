import contextlib
import os

import httpd
import inv
from hypothesis import strategies as st
from vp import Part, check, fail

PROPERTY = "C27"
RULE = (
    "A case is a history of 4-25 operations against a loopback HTTP server: publish new content at one of 4 URLs (with "
    "or without ETag, Content-Length, range and HEAD support), fetch (plain, forced, or with update_if_out_of_date), "
    "change the two out-of-date options, lose or purge cached files, and inject faults into the next transfer (HTTP "
    "errors, connection reset, body truncated at any point). A model predicts per fetch whether a transfer happens and "
    "which bytes the file must hold. parts: 2-10 requests of whole files and of lists of their byte ranges, new and repeated, which have to give exactly "
    "these bytes, every list a file of its own. slow: a server that pauses for less or more than the timeout set in any way. Non-trivial: a fetch after a failed one, a refresh decision on changed "
    "content, or two requests for different parts of one file."
)
ASSUMPTIONS = [
    "the ETag identifies the content; servers that omit Content-Length are not combined with truncation (undetectable)",
    "parallel downloads are part of C13",
]

URLS = ["/a.npz", "/dir/a.npz", "/a.npz?version=2", "/noext"]
DATA = st.tuples(st.integers(0, 2**16), st.sampled_from([0, 1, 10, 63, 64, 65, 500, 3000]))
OP = st.one_of(
    st.tuples(st.just("fetch"), st.integers(0, 3), st.sampled_from([None, None, None, True, False]), st.booleans()),
    st.tuples(st.just("fetch"), st.integers(0, 3), st.just(None), st.booleans()),
    st.tuples(st.just("fetch"), st.integers(0, 3), st.just(None), st.just(False)),
    st.tuples(st.just("publish"), st.integers(0, 3), DATA),
    st.tuples(st.just("check"), st.booleans()),
    st.tuples(st.just("redownload"), st.booleans()),
    st.tuples(st.just("lose"), st.integers(0, 3)),
    st.tuples(
        st.just("fail"),
        st.integers(0, 3),
        st.sampled_from([("status", 500), ("status", 404), ("status", 403), ("status", 503), ("reset",), ("truncate", 0), ("truncate", 5), ("truncate", 10)]),
    ),
    # the same key again after a failure, with or without another version
    st.tuples(st.just("fail_publish_fetch"), st.integers(0, 3), st.sampled_from([1, 5, 9, 10]), DATA, st.booleans()),
    st.tuples(st.just("purge")),
    # new content of a file which is likely to be cached
    st.tuples(st.just("publish_fetch"), st.integers(0, 3), DATA, st.booleans()),
    st.tuples(st.just("publish_fetch"), st.integers(0, 3), DATA, st.booleans()),
)
CASE = st.fixed_dictionaries(
    dict(
        flags=st.lists(
            st.fixed_dictionaries(dict(etag=st.booleans(), ranges=st.booleans(), head=st.sampled_from([True, True, False]), length=st.sampled_from([True, True, True, False]))),
            min_size=4,
            max_size=4,
        ),
        ops=st.lists(OP, min_size=4, max_size=25),
        policy=st.sampled_from(["user", "user", "temporary"]),
        check=st.sampled_from([None, True, True]),
        redownload=st.booleans(),
    )
)


def content(d):
    import random

    seed, n = d
    return random.Random(seed).randbytes(n)


def run(case, ctx):
    from earthkit.regrid import cache, config
    from earthkit.regrid.utils import no_progress_bar
    from earthkit.regrid.utils.download import download_and_cache

    httpd.fast_sleep()
    inv.reset_package()
    srv = httpd.server()
    srv.reset()
    config.set({"user-cache-directory": ctx.newdir("c"), "cache-policy": case["policy"], "maximum-cache-disk-usage": None})
    pre = f"/{os.path.basename(ctx.newdir('u'))}"
    conf = dict(check=config.get("check-out-of-date-urls"), redownload=config.get("download-out-of-date-urls"))
    if case["check"] is not None:
        conf = dict(check=case["check"], redownload=case["redownload"])
        config.set({"check-out-of-date-urls": conf["check"], "download-out-of-date-urls": conf["redownload"]})
    version = [0] * 4
    pub = [None] * 4  # (bytes, etag)
    have = [None] * 4  # (bytes, etag, path)
    paths = {}
    failed = [False] * 4

    def publish(i, d):
        version[i] += 1
        data = content(d)
        f = case["flags"][i]
        h = {}
        if f["etag"]:
            h["ETag"] = f'"v{version[i]}"'
        if f["ranges"]:
            h["Accept-Ranges"] = "bytes"
        if not f["length"]:
            h["No-Length"] = "1"
        srv.put(pre + URLS[i], data, **h)
        pub[i] = (data, h.get("ETag"))

    for i in range(4):
        publish(i, (i, 100 * i + 1))
        if not case["flags"][i]["head"]:
            srv.fault(pre + URLS[i], "HEAD", "status", 405, "sticky")

    def fetch(i, force, update):
        srv.take_log()
        url = srv.url + pre + URLS[i]
        f = case["flags"][i]
        etag = pub[i][1] if f["head"] else None
        pending = [x for x in srv.faults if x[0] == pre + URLS[i] and x[1] == "GET"]
        if not pub[i][0]:
            # nothing to cut off (content changed after the fault was injected)
            pending = [x for x in pending if x[2][0] != "truncate"]
        cached = have[i]
        if force is True:
            must = True
        elif cached is None:
            must = True
        elif force is False:
            must = False
        else:
            changed = etag is not None and etag != cached[1]
            must = conf["check"] and changed and (conf["redownload"] or update)
            if changed:
                ctx.nontrivial()
                ctx.label("changed-refetched" if must else "changed-kept")
        if force is True and cached is not None:
            ctx.label("forced")
        try:
            path = download_and_cache(
                url, force=force, update_if_out_of_date=update, progress_bar=no_progress_bar, maximum_retries=0, retry_after=0, chunk_size=64
            )
        except Exception as e:
            check(must and pending, f"fetch of {URLS[i]} failed although the server works: {e!r}")
            failed[i] = True
            # whether a failed forced or updating fetch keeps the older file is not specified
            have[i] = None if cached is None else ("unknown",) + cached
            ctx.label("failed")
            return
        gets = sum(1 for m, p, r in srv.take_log() if m == "GET" and p == pre + URLS[i])
        check(path is not None and os.path.isfile(path), f"no file at {path}")
        check(path.startswith(cache.directory()), f"{path} is not in the cache directory")
        with open(path, "rb") as g:
            got = g.read()
        if cached is not None and cached[0] == "unknown":
            # after a failed refresh: either the old file is still served or it was fetched again
            if gets == 0:
                check(got == cached[1], "stale content is not the one cached before")
                have[i] = cached[1:]
                return
            must = True
        if must:
            check(not pending, f"the transfer of {URLS[i]} was to fail ({pending}) but no error was raised")
            check(gets == 1, f"{gets} transfers for one fetch")
            check(got == pub[i][0], lambda: f"file has {len(got)} bytes {got[:20]!r}, server sent {len(pub[i][0])} {pub[i][0][:20]!r}")
            have[i] = (pub[i][0], etag, path)
            if failed[i]:
                ctx.nontrivial()
                ctx.label("recovered")
                failed[i] = False
        else:
            check(gets == 0, f"{gets} transfers although the file is cached")
            check(got == cached[0], "the cached file does not hold the bytes served when it was fetched")
            check(path == cached[2], f"another path {path} than before {cached[2]}")
            ctx.label("reused")
        other = paths.setdefault(path, i)
        check(other == i, f"{URLS[i]} and {URLS[other]} share a file")

    with contextlib.nullcontext():
        for op in case["ops"]:
            ctx.label(op[0])
            if op[0] == "fetch":
                fetch(op[1], op[2], op[3])
            elif op[0] == "publish":
                publish(op[1], op[2])
            elif op[0] == "check":
                config.set("check-out-of-date-urls", op[1])
                conf["check"] = op[1]
            elif op[0] == "redownload":
                config.set("download-out-of-date-urls", op[1])
                conf["redownload"] = op[1]
            elif op[0] == "lose":
                i = op[1]
                if have[i] is not None and have[i][0] != "unknown":
                    os.unlink(have[i][2])
                    have[i] = None
            elif op[0] == "fail":
                i = op[1]
                if op[2][0] == "truncate" and (not case["flags"][i]["length"] or len(pub[i][0]) == 0):
                    continue
                if not any(x[0] == pre + URLS[i] and x[1] == "GET" for x in srv.faults):
                    srv.fault(pre + URLS[i], "GET", *op[2])
            elif op[0] == "fail_publish_fetch":
                _, i, where, d, force = op
                if not case["flags"][i]["length"] or len(pub[i][0]) == 0:
                    continue
                if not any(x[0] == pre + URLS[i] and x[1] == "GET" for x in srv.faults):
                    srv.fault(pre + URLS[i], "GET", "truncate", where)
                fetch(i, True, False)
                publish(i, d)
                fetch(i, True if force else None, False)
            elif op[0] == "publish_fetch":
                fetch(op[1], None, False)
                publish(op[1], op[2])
                fetch(op[1], None, op[3])
            elif op[0] == "purge":
                cache.purge()
                have = [None] * 4


_SPANS = st.lists(st.tuples(st.integers(0, 40), st.integers(1, 60)), min_size=1, max_size=3)
PARTS = st.lists(
    st.tuples(st.integers(0, 3), st.one_of(st.none(), _SPANS), st.sampled_from([None, None, False, True]), st.booleans()), min_size=2, max_size=10
)


def run_parts(case, ctx):
    """parts of files: a list of (bytes to skip, bytes to take)"""
    from earthkit.regrid import config
    from earthkit.regrid.utils import no_progress_bar
    from earthkit.regrid.utils.download import download_and_cache

    httpd.fast_sleep()
    inv.reset_package()
    srv = httpd.server()
    srv.reset()
    config.set({"user-cache-directory": ctx.newdir("c"), "maximum-cache-disk-usage": None})
    pre = f"/{os.path.basename(ctx.newdir('u'))}"
    data = [content((i, 310)) for i in range(4)]
    for i in range(4):
        srv.put(pre + URLS[i], data[i], **{"ETag": f'"{i}"', "Accept-Ranges": "bytes"})
    have, files, last = {}, {}, {}
    for i, spans, force, again in case:
        if again and i in last:
            spans = last[i]
        last[i] = spans
        want, pieces = data[i], None
        if spans is not None:
            pieces, at = [], 0
            for skip, take in spans:
                pieces.append((at + skip, take))
                at += skip + take
            want = b"".join(data[i][a : a + n] for a, n in pieces)
        key = (i, None if pieces is None else tuple(pieces))
        srv.take_log()
        given = None if pieces is None else list(pieces)
        path = download_and_cache(srv.url + pre + URLS[i], parts=given, force=force, progress_bar=no_progress_bar, maximum_retries=0, retry_after=0)
        gets = sum(1 for m, p, r in srv.take_log() if m == "GET")
        with open(path, "rb") as f:
            got = f.read()
        check(got == want, lambda: f"parts {pieces} of {URLS[i]}: {len(got)} bytes, expected {len(want)}")
        check(given == (None if pieces is None else pieces), "the list of parts was changed")
        if key in have and not force:
            check(gets == 0 and path == have[key], f"parts {pieces} of {URLS[i]} were transferred again")
            ctx.label("parts-reused")
        else:
            check(gets >= 1, f"parts {pieces} of {URLS[i]} were not transferred")
        check(files.setdefault(path, key) == key, f"{key} and {files[path]} share a file")
        have[key] = path
    ctx.nontrivial(len({k[0] for k in have}) < len(have))


SHORT = [1, "1", "1s"]
LONG = [45, "45", "45s", "1m", "2m", "1h", "1d", "30s", None]
SLOW = st.fixed_dictionaries(
    dict(
        timeout=st.one_of(st.tuples(st.just("short"), st.sampled_from(SHORT)), st.tuples(st.just("long"), st.sampled_from(LONG))),
        how=st.sampled_from(["set", "temporary", "env"]),
        stall=st.sampled_from(["start", "body"]),
        size=st.sampled_from([2, 300, 20000]),
        before=st.booleans(),
        policy=st.sampled_from(["user", "temporary"]),
    )
)


def run_slow(case, ctx):
    """a server that pauses for less or more than the timeout in effect"""
    from earthkit.regrid import cache, config
    from earthkit.regrid.utils import no_progress_bar
    from earthkit.regrid.utils.download import download_and_cache

    inv.reset_package()
    srv = httpd.server()
    srv.reset()
    config.set({"user-cache-directory": ctx.newdir("c"), "cache-policy": case["policy"], "maximum-cache-disk-usage": None})
    path = f"/{os.path.basename(ctx.newdir('u'))}/s.npz"
    data = content((case["size"], case["size"]))
    srv.put(path, data, ETag='"1"')

    def fetch():
        return download_and_cache(srv.url + path, progress_bar=no_progress_bar, maximum_retries=0, retry_after=0, force=case["before"] or None)

    def whole(p):
        with open(p, "rb") as f:
            check(f.read() == data, "content of the file fetched from a slow server")

    kind, text = case["timeout"]
    ctx.label(kind)
    ctx.nontrivial()
    if case["before"]:
        whole(fetch())
    srv.fault(path, "GET", "stall", 8 if kind == "short" else 1.5, case["stall"])
    name = "EARTHKIT_REGRID_URL_DOWNLOAD_TIMEOUT"
    with contextlib.ExitStack() as stack:
        if text is None:
            pass
        elif case["how"] == "env":
            os.environ[name] = str(text)
            stack.callback(os.environ.pop, name)
        elif case["how"] == "temporary":
            stack.enter_context(config.temporary({"url-download-timeout": text}))
        else:
            config.set("url-download-timeout", text)
        if kind == "long":
            whole(fetch())
        else:
            try:
                p = fetch()
            except Exception:
                pass
            else:
                fail(f"a server that pauses for 8 seconds does not time out after {text!r}: {p}")
            if case["before"]:
                # (the version before was given up)
                check(all(e["size"] in (None, len(data)) for e in cache.entries()), "size of the entry")
    srv.clear_faults()
    if text is not None:
        config.reset("url-download-timeout")
    n = len(srv.take_log())
    check(n > 0, "nothing was requested")
    whole(download_and_cache(srv.url + path, progress_bar=no_progress_bar, maximum_retries=0, retry_after=0))
    check(len(cache.entries()) == 1 and cache.size() == len(data), "listing after a slow transfer")


def parts(tier):
    return [
        Part("slow", SLOW, run_slow, quick=64, thorough=300, budget=60),
        Part("download", CASE, run, quick=1500, thorough=6000, budget=110),
        Part("parts", PARTS, run_parts, quick=200, thorough=1200, budget=60),
    ]
