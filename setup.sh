#!/bin/bash
# Offline set-up: unpack hypothesis (and its one dependency) from the local wheelhouse into
# /verif/.deps, for the interpreter that runs the code under test (/opt/venv, Python 3.12).
set -e
cd "$(dirname "$0")"
dest="$PWD/.deps"
if [ -f "$dest/.ok" ]; then exit 0; fi
mkdir -p "$dest"
/opt/venv/bin/python - "$dest" <<'P'
import glob, sys, zipfile
dest = sys.argv[1]
def one(pats):
    for p in pats:
        g = sorted(glob.glob('/opt/veriftools/wheels/' + p))
        if g: return g[-1]
    raise SystemExit('no wheel for %s' % pats)
for p in (['hypothesis-*-cp312-cp312-*.whl', 'hypothesis-*-py3-none-any.whl'], ['sortedcontainers-*.whl']):
    zipfile.ZipFile(one(p)).extractall(dest)
P
PYTHONPATH="$dest" /opt/venv/bin/python -c 'import hypothesis, hypothesis.strategies; print("hypothesis", hypothesis.__version__)'
touch "$dest/.ok"
