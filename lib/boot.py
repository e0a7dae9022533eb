"""Start-up shared by the checks and by the child processes they start.

* hypothesis comes from the tooling venv, appended at the END of sys.path so that the code
  under test keeps the versions of its own venv;
* sources under /repo are always compiled from the working tree (a .pyc is never trusted).
"""
import importlib.machinery
import logging
import os
import sys
import warnings

REPO = os.environ.get("VP_REPO", "/repo")
TOOL_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"

if REPO != "/repo":
    # development only (planted-bug trials in a scratch copy)
    sys.path.insert(0, os.path.join(REPO, "src"))

if TOOL_SITE not in sys.path:
    sys.path.append(TOOL_SITE)
sys.dont_write_bytecode = True

_orig_get_code = importlib.machinery.SourceFileLoader.get_code


_compiled = {}


def _get_code(self, fullname):
    path = self.get_filename(fullname)
    if path.startswith(REPO + "/"):
        data = self.get_data(path)
        # forked children import the same sources again
        if _compiled.get(path, (None,))[0] != data:
            _compiled[path] = (data, self.source_to_code(data, path))
        return _compiled[path][1]
    return _orig_get_code(self, fullname)


importlib.machinery.SourceFileLoader.get_code = _get_code

warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)


def import_regrid():
    import earthkit.regrid

    f = os.path.realpath(earthkit.regrid.__file__)
    if not f.startswith(os.path.realpath(REPO) + "/"):
        raise RuntimeError(f"earthkit.regrid imported from {f}, not from {REPO}")
    return earthkit.regrid
