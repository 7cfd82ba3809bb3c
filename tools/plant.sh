#!/bin/bash
# tools/plant.sh ID [notest]   confirm a planted bug: applies, stable tests pass, demo discriminates, which check catches it
id=$1; here=$(cd "$(dirname "$0")/.." && pwd); d=$here/seeded/$id; s=/tmp/plant-$id
prop=$(/usr/bin/python3 -c "import json,sys;print(json.load(open('$d/meta.json'))['property'])")
rm -rf "/tmp/plant-$id"; cp -a /repo "$s" || exit 9
cd "$s" && git apply "$d/patch.diff" || { echo "PATCH FAILS"; rm -rf "/tmp/plant-$id"; exit 9; }
export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
(cd /repo && timeout 300 bash "$d/demo.sh" >/tmp/demo-$id.0 2>&1); a=$?
(cd "$s" && PYTHONPATH=$s timeout 300 bash "$d/demo.sh" >/tmp/demo-$id.1 2>&1); b=$?
echo "$id demo unchanged=$a patched=$b"
[ $b = 0 ] && tail -3 /tmp/demo-$id.1; [ $a != 0 ] && tail -5 /tmp/demo-$id.0
if [ "$2" != notest ]; then
PYTHONPATH=$s:/opt/vp MPLBACKEND=Agg PYTHONHASHSEED=0 timeout 1200 /opt/venv/bin/python -m pytest -q -p no:cacheprovider -p order_slow_first --timeout=400 -n ${N:-8} --maxschedchunk 1 -W ignore tests 2>&1 | tail -4
fi
cd "$here" && QERMIT_REPO=$s VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py run ${CHECK:-$prop} 2>&1 | tail -4
rm -rf "/tmp/plant-$id"
