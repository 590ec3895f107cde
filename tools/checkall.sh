#!/bin/bash
# tools/checkall.sh TREE [ID...]: every quick check against another tree (scratch build), one line per property
T=$1; shift; B=$(mktemp -d /tmp/ca_XXXXXX); V=$(dirname $(dirname $(readlink -f $0)))
for p in ${@:-$(seq -f P%02g 1 99)}; do
  grep -q "\"$p\"" $V/properties.jsonl || continue
  s=$(date +%s); VF_REPO=$T VF_BUILD=$B/b VF_EVIDENCE=$B/e VF_REPLAYS=$B/r timeout 900 $V/check $p quick > $B/o 2> $B/err; rc=$?
  echo "$p rc=$rc $(($(date +%s)-s))s $([ $rc != 0 ] && head -c 600 $B/o && tail -c 300 $B/err)"
done
rm -rf $B
