# usage: runseeds.sh [ids]   ; own property's check against each seed in scratch clone
W=/tmp/w/seedrun; [ -d $W ] || git clone -q /repo $W
cd $W; git fetch -q; git reset -q --hard origin/HEAD
for id in ${@:-$(ls /verif/seeded)}; do
 git checkout -q -- .; git apply /verif/seeded/$id/patch.diff || echo APPLYFAIL $id
 p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
 t0=$(date +%s)
 FREESIF_REPO=$W VERIF_SEED=${SEED:-1} /opt/venv/bin/python -B /verif/pbt/run.py $p > /tmp/rs.out 2>&1; rc=$?
 echo "$id $p rc=$rc $(( $(date +%s)-t0 ))s $(grep '^facet' /tmp/rs.out | cut -c1-100)"
done
git checkout -q -- .
