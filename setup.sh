#!/bin/bash
# Nothing to build (pure Python); checks that the tools the checks need are there.
set -eu
cd "$(dirname "$0")"
/opt/venv/bin/python - <<'PY'
import sys
sys.path.insert(0, "lib")
import boot
boot.import_regrid()
import hypothesis, numpy, scipy
print("hypothesis", hypothesis.__version__, "numpy", numpy.__version__, "scipy", scipy.__version__)
PY
