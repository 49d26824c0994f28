#!/bin/bash
# plant.sh ID: take the change made in /tmp/w/repo as seeded/ID/patch.diff; confirm it builds, passes the tests, and that
# seeded/ID/demo.sh passes without and fails with it; then run the property's check against it. Resets /tmp/w/repo.
V=$(dirname "$(dirname "$(readlink -f "$0")")"); S=$V/seeded/$1
cd /tmp/w/repo || exit 3
git diff > "$S/patch.diff"; [ -s "$S/patch.diff" ] || { echo "no change"; exit 3; }
prop=$(/opt/venv/bin/python -c "import json,sys;print(json.load(open('$S/meta.json'))['property'])")
export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1
(cd /repo && bash "$S/demo.sh" >/tmp/w/demo0.log 2>&1) && echo "demo unchanged: ok" || { echo "DEMO FAILS ON UNCHANGED TREE"; tail -5 /tmp/w/demo0.log; }
PYTHONPATH=/tmp/w/repo timeout 300 bash "$S/demo.sh" >/tmp/w/demo1.log 2>&1 && echo "DEMO PASSES WITH THE BUG" || { echo "demo with bug: fails"; tail -2 /tmp/w/demo1.log | cut -c1-200; }
timeout 800 /opt/venv/bin/python -m pytest tests -q -n 8 -p no:cacheprovider -p vp_seed -o "python_files=test_*.py *_test.py custom_obs_space.py" 2>&1 | tail -4
cd /tmp/w/repo && git checkout -q -- . && git clean -fdq -e __pycache__
[ "$2" = nocheck ] || COLS=300 "$V/tools/trybug.sh" "$S/patch.diff" "${2:-$prop}"
