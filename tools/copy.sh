#!/bin/bash
# copy.sh <dir>: a copy of /repo and /verif (with build products) under <dir>, for experiments beside the real ones.
d=$1; mkdir -p $d/home
[ -d $d/repo ] || cp -a /repo $d/repo
git -C $d/repo fetch -q /repo HEAD && git -C $d/repo checkout -qf FETCH_HEAD
mkdir -p $d/verif
(cd /verif && git ls-files -z | grep -zv ^seeded/ | xargs -0 cp --parents -pt $d/verif)
[ -d $d/verif/target ] || cp -a /verif/target $d/verif/target
sed -i "s#/repo#$d/repo#g; s#/verif#$d/verif#g" $d/verif/build.sh $d/verif/check.sh $d/verif/sim/Cargo.toml $d/verif/tools/*.sh
