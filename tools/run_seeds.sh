#!/bin/bash
# Runs the check of each planted bug's property against it, in private copies of /repo and /verif
# (bind mounts in a mount namespace), so that the working trees stay as they are.
# usage: run_seeds.sh [ID...]
W=/tmp/seedrun
mkdir -p $W
[ -d $W/repo ] || git clone -q /repo $W/repo
[ -d $W/verif ] || git clone -q /verif $W/verif
git -C $W/repo pull -q /repo HEAD; git -C $W/verif pull -q /verif HEAD
mkdir -p $W/verif/build
exec unshare -m bash -c '
mount --bind /tmp/seedrun/repo /repo; mount --bind /tmp/seedrun/verif /verif
cd /verif
for s in "$@"; do
  p=$(python3 -c "import json,sys; print(json.load(open(\"/verif/seeded/$s/meta.json\"))[\"property\"])")
  git -C /repo apply /verif/seeded/$s/patch.diff || { echo "$s: does not apply"; continue; }
  t=$SECONDS
  VERIF_TIER=${VERIF_TIER:-quick} timeout 900 python3 check.py $p > /tmp/seedrun/$s.log 2>&1
  echo "$s $p exit $? $((SECONDS-t))s: $(grep -m1 VIOLATION /tmp/seedrun/$s.log)"
  git -C /repo checkout -q -- .
done' _ "$@"
