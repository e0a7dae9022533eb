"""The built-in ("ecmwf") inventory, answered by the local server."""
import gzip
import hashlib
import io
import json

import httpd
from vp import fail

SYSTEM_URL = "https://sites.ecmwf.int/repository/earthkit/regrid/db/1/"


class Redirect:
    """Answers requests for the published inventory by the local server (`target`: its url)"""

    def __init__(self, target):
        self.target = target

    def __enter__(self):
        import requests

        self.original = original = requests.Session.request
        target = self.target

        def request(session, method, url, *args, **kwargs):
            if url.startswith(SYSTEM_URL):
                url = target + url[len(SYSTEM_URL) - 1 :]
            elif not url.startswith("http://127.0.0.1:"):
                fail(f"request for {url}")
            return original(session, method, url, *args, **kwargs)

        requests.Session.request = request

    def __exit__(self, *args):
        import requests

        requests.Session.request = self.original


def publish(prefix, index, entries):
    """Puts an index and the matrices of `entries` below `prefix` of the local server"""
    from scipy.sparse import save_npz

    srv = httpd.server()
    text = json.dumps(index, indent=1)
    srv.put(prefix + "/index.json.sha256", hashlib.sha256(text.encode()).hexdigest().encode() + b"\n")
    srv.put(prefix + "/index.json.gz", gzip.compress(text.encode()))
    for e in entries:
        f = io.BytesIO()
        save_npz(f, e.matrix())
        srv.put(f"{prefix}/mir_16_{e.method}/{e.name}.npz", f.getvalue())


class System:
    """with System(ctx, index, entries): the built-in inventory consists of these"""

    def __init__(self, ctx, index, entries, policy="user"):
        self.ctx, self.index, self.entries, self.policy = ctx, index, entries, policy

    def __enter__(self):
        import os

        import inv
        from earthkit.regrid import config
        from earthkit.regrid.backends.db import SYS_DB

        httpd.fast_sleep()
        inv.reset_package()
        srv = httpd.server()
        srv.reset()
        config.set(
            {
                "user-cache-directory": self.ctx.newdir("c"),
                "cache-policy": self.policy,
                "maximum-cache-disk-usage": None,
            }
        )
        prefix = f"/{os.path.basename(self.ctx.newdir('u'))}"
        publish(prefix, self.index, self.entries)
        SYS_DB._reset()
        self.redirect = Redirect(srv.url + prefix)
        self.redirect.__enter__()
        return SYS_DB

    def __exit__(self, *args):
        from earthkit.regrid.backends.db import SYS_DB

        self.redirect.__exit__()
        SYS_DB._reset()
