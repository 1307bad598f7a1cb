#!/bin/bash
# sweep.sh "SEEDS" [extra check.py arguments]: every check at every seed on /repo, reports what is not quiet
cd "$(dirname "$0")/.."
seeds=$1; shift
for s in $seeds; do
  for c in kcv/props/c[0-9][0-9].py; do
    id=$(basename $c .py | tr c C)
    o=$(VERIF_SEED=$s KCV_EVIDENCE=/tmp/x/sweep_ev /opt/venv/bin/python check.py $id "$@" 2>&1); rc=$?
    [ $rc -ne 0 ] && { echo "seed $s $id rc=$rc"; echo "$o" | tail -5; cp -f /tmp/x/sweep_ev/replay/$id-*.json /tmp/x/ 2>/dev/null; }
  done
  echo "seed $s done"
done
