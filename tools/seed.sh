#!/bin/bash
# seed.sh <id> [check-only]: validates /verif/seeded/<id> in a scratch copy of /repo (builds, stable tests,
# demo clean/patched), then runs the property's quick check against it in /repo, and undoes the change.
id=$1; d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
if [ "$2" != check-only ]; then
  m=/tmp/mut
  [ -d $m ] || cp -a /repo $m
  git -C $m fetch -q /repo HEAD && git -C $m checkout -qf FETCH_HEAD
  git -C $m clean -fdq -e target
  if [ -z "$SKIP_CLEAN" ]; then
  (cd $m && DEMO_TARGET=/tmp/demo_target bash $d/demo.sh >/tmp/demo.clean 2>&1); c=$?
  else c=skipped; fi
  git -C $m apply $d/patch.diff || { echo "$id: patch does not apply"; exit 1; }
  sed 's#/repo#/tmp/mut#g' /opt/vp/test.sh > /tmp/mut_test.sh; sed 's#/repo#/tmp/mut#g' /opt/vp/env.sh > /tmp/mut_env.sh
  sed -i 's#/opt/vp/env.sh#/tmp/mut_env.sh#' /tmp/mut_test.sh
  (cd $m && bash /tmp/mut_test.sh /tmp/mut_out.json >/tmp/mut_test.log 2>&1)
  t=$(python3 - <<'P'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=set(json.load(open('/tmp/mut_out.json'))['passed'])
print(len(b-o), sorted(b-o)[:3])
P
)
  (cd $m && DEMO_TARGET=/tmp/demo_target timeout 200 bash $d/demo.sh >/tmp/demo.bug 2>&1); p=$?
  git -C $m checkout -q -- .
  echo "$id: demo clean=$c patched=$p ($(grep -v '^note' /tmp/demo.bug | tail -1 | cut -c1-110)); tests missing: $t"
fi
git -C /repo apply $d/patch.diff || exit 1
t0=$(date +%s)
out=$(cd /verif && timeout 900 ./check.sh $prop quick 2>&1); rc=$?
echo "$id: $prop rc=$rc $(( $(date +%s)-t0 ))s $(echo "$out" | grep -B2 -m1 VIOLATION | tr '\n' ' ' | cut -c1-300)"
if [ $rc != 1 ]; then echo "$out" | tail -3; fi
git -C /repo checkout -q -- .
