#!/bin/bash
# usage: seedtest.sh ID... : confirm planted changes in a scratch copy of /repo (its path: $XAD_REPO), whose build and
# test scripts are $SR_T/build.sh and $SR_T/test.sh (copies of /opt/vp's with the path replaced)
export XAD_REPO=${XAD_REPO:-/tmp/sr}; T=${SR_T:-/tmp/sr_t}; L=/tmp/seed; mkdir -p $L
cd /verif
git -C $XAD_REPO checkout -q -- .
bash $T/build.sh >$L/b0.log 2>&1 || { echo "BASE BUILD FAIL"; exit 2; }
for id in "$@"; do (cd $XAD_REPO && bash /verif/seeded/$id/demo.sh >$L/$id.demo0 2>&1); echo $? > $L/$id.r0; done
for id in "$@"; do
  d=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C $XAD_REPO apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  t="tests skipped"
  if [ -z "$NOTESTS" ]; then
    bash $T/test.sh $L/t.json >$L/$id.test.log 2>&1
    t=$(python3 -c "import json; o=json.load(open('$L/t.json')); print('tests',len(o['passed']),len(o['failed']))")
  fi
  (cd $XAD_REPO && bash $d/demo.sh >$L/$id.demo1 2>&1); r1=$?
  c=""
  for p in ${CHECKS:-$prop}; do
    VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./check $p > $L/$id.$p.log 2>&1; rc=$?
    c="$c $p:rc=$rc($(grep -c '^VIOLATION' $L/$id.$p.log)v,$(grep -c 'no-failing' $L/$id.$p.log)nf)"
  done
  git -C $XAD_REPO checkout -- .
  echo "$id: demo clean=$(cat $L/$id.r0) patched=$r1; $t; checks:$c"
done
