#!/bin/bash
# which checks report a planted bug, on a scratch copy of /repo: catch.sh <seed-id>[:check,check]...   (default: the property of meta.json)
cd /verif
D=$(mktemp -d /tmp/catch.XXXXXX); R=$D/repo; mkdir $R
for x in "$@"; do
  id=${x%%:*}; P=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])"); [ "$x" != "$id" ] && P=$(echo ${x#*:} | tr , ' ')
  rsync -a --delete --exclude=_build --exclude=build --exclude=.git /repo/ $R/
  (cd $R && git apply --unsafe-paths $V /verif/seeded/$id/patch.diff 2>/dev/null || patch -s -p1 < /verif/seeded/$id/patch.diff) || { echo "$id: patch does not apply"; continue; }
  for p in $P; do VERIF_REPO=$R VERIF_BUILD=$D/b VERIF_EVIDENCE=$D/e python3 run.py $p > $D/out 2>&1; r=$?; echo "$id $p rc=$r"; [ $r = 1 ] && grep -B3 -m1 'VIOLATION' $D/out | head -4; [ $r = 1 ] || tail -3 $D/out; done
done
rm -rf "$D"
