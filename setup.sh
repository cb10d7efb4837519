#!/bin/bash
# Nothing to build: the framework is Python with a vendored Hypothesis. Fails early if something is missing.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
cd "$here" || exit 1
export PYTHONPYCACHEPREFIX="$(mktemp -d)" NUMBA_CACHE_DIR="$(mktemp -d)"
PYTHONPATH="$here:$here/vendor" /opt/venv/bin/python -c '
import hypothesis, numpy, scipy, pandas, numba
import pbt.core, pbt.gen, pbt.run
print("ok: hypothesis", hypothesis.__version__, "numpy", numpy.__version__)'
rc=$?
rm -rf "$PYTHONPYCACHEPREFIX" "$NUMBA_CACHE_DIR"
exit $rc
