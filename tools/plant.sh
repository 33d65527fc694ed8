#!/bin/bash
# tools/plant.sh ID [nodemo|notest|nocheck ...]: confirm a planted bug in a scratch copy of /repo and run its property's check on that copy
ID=$1; shift; OPTS=" $* "
S=/verif/seeded/$ID
W=/tmp/plant_$ID
rm -rf "$W"; cp -a /repo "$W"
cd "$W" || exit 2
git apply "$S/patch.diff" || { echo "$ID PATCH DOES NOT APPLY"; rm -rf "$W"; exit 2; }
export PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
(export CONDA_PREFIX=/usr SETUPTOOLS_SCM_PRETEND_VERSION=1.2.5 CC="ccache gcc" CXX="ccache g++" CCACHE_DIR=/tmp/plantccache
 rm -rf src/*.so build/; /opt/venv/bin/python setup.py -q build_ext --inplace --force --parallel 8) >/tmp/plant_$ID.build 2>&1 || { echo "$ID BUILD FAILS"; exit 2; }
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
if [[ $OPTS != *" nodemo "* ]]; then
 D=$(mktemp -d); cp "$S"/* "$D"; rm -f "$D"/*.diff "$D"/meta.json
 (cd /repo; timeout 300 bash "$D/demo.sh" >/tmp/plant_$ID.clean 2>&1); echo "$ID demo clean rc=$?"
 (cd "$W"; PYTHONPATH="$W/src" timeout 300 bash "$D/demo.sh" >/tmp/plant_$ID.patched 2>&1); echo "$ID demo patched rc=$? $(tail -1 /tmp/plant_$ID.patched)"
 rm -rf "$D"
fi
if [[ $OPTS != *" notest "* ]]; then
 PYTHONPATH="$W/src" timeout 800 /opt/venv/bin/python -m pytest -q -p no:cacheprovider tests/test_hsmm.py > /tmp/plant_$ID.tests 2>&1; echo "$ID tests: $(tail -1 /tmp/plant_$ID.tests)"
fi
if [[ $OPTS != *" nocheck "* ]]; then
 (cd /verif; VERIF_REPO="$W" VERIF_EVIDENCE=/tmp/plant_ev /opt/venv/bin/python check.py "$P" > /tmp/plant_$ID.check 2>&1); echo "$ID check $P rc=$? $(grep -m1 VIOLATION /tmp/plant_$ID.check)"
fi
rm -rf "$W"
