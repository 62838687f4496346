#!/bin/bash
# confirm planted bugs: seedcheck.sh <id>...   (scratch copies under /tmp; nothing in /repo is touched)
SC=${SC:-/tmp/sc}; V=/verif
mk() { # $1 dir
  if [ ! -d "$1" ]; then cp -a /repo "$1"; rm -rf "$1/_build"; fi
  mkdir -p "$1.vp"; cp -a /opt/vp/support "$1.vp/"
  for f in build.sh test.sh; do sed -e "s#/repo#$1#g" -e "s#bash /opt/vp/build.sh#bash $1.vp/build.sh#" /opt/vp/$f > "$1.vp/$f"; done
  git -C "$1" checkout -q -- . ; git -C "$1" pull -q /repo HEAD 2>/dev/null || { git -C "$1" fetch -q /repo HEAD; git -C "$1" reset -q --hard FETCH_HEAD; }
}
mk "${SC}0"; mk "$SC"
bash ${SC}0.vp/build.sh >/tmp/sc0.log 2>&1 || { echo "clean build failed"; exit 2; }
for id in "$@"; do
  S=$V/seeded/$id; git -C $SC checkout -q -- .
  grep -E '^\+\+\+ ' $S/patch.diff
  git -C $SC apply $S/patch.diff || { echo "$id: patch does not apply"; continue; }
  (cd ${SC}0 && timeout 300 bash $S/demo.sh > /tmp/demo0.log 2>&1); a=$?
  bash $SC.vp/test.sh /tmp/sc_out.json > /tmp/sc_test.log 2>&1 || true
  python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/sc_out.json'))
st=b.get('stable') or b.get('passed') or b.get('tests') or b
p=set(o['passed']); miss=[t for t in st if t not in p]
print('$id: tests', len(p), 'passed; baseline missing:', miss[:5])
P
  (cd $SC && timeout 300 bash $S/demo.sh > /tmp/demo1.log 2>&1); b=$?
  echo "$id: demo clean=$a patched=$b $([ $a = 0 ] && [ $b != 0 ] && echo CONFIRMED || echo NOT-CONFIRMED)"
  tail -2 /tmp/demo1.log
done
git -C $SC checkout -q -- .
