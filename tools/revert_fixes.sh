#!/bin/bash
# Sensitivity: takes each fix out again and runs the matching check(s).
cd /verif
while read -r id c rest; do
  git -C /repo diff $c~1 $c > /tmp/fix.$c.diff
  if ! git -C /repo apply -R --3way /tmp/fix.$c.diff >/dev/null 2>&1; then git -C /repo reset -q --hard HEAD; echo "$id $c does not revert"; continue; fi
  git -C /repo reset -q
  t0=$(date +%s)
  out=$(./check.sh $id quick 2>&1); rc=$?
  echo "$id $c rc=$rc $(( $(date +%s)-t0 ))s $(echo "$out" | grep -m1 VIOLATION)"
  f=$(echo "$out" | grep -m1 -o 'replay=[^ ]*' | cut -d= -f2)
  [ -n "$f" ] && target/debug/chsim replay $f 2>&1 | tail -2
  git -C /repo checkout -q -- .
done < <(sed -n 's/^fixed: property=//p' known-findings.txt)
git -C /repo status --short
