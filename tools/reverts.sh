#!/bin/bash
# for each repaired defect: does the check report it when the repair is taken back? (scratch copies under /tmp)
cd "$(dirname "$0")/.."
one() {
  c=$1; ids=$2; d=/tmp/rv.$c
  cp -a /repo $d && cd $d || exit
  if ! git revert -n $c >/dev/null 2>&1; then echo "$c CONFLICT $(git diff --name-only --diff-filter=U | tr '\n' ' ')"; cd /; rm -rf /tmp/rv.$c; return; fi
  cd /verif
  for i in ${ids//,/ }; do
    SA_REPO=$d SA_EVIDENCE=/tmp/rv.$c.ev timeout 900 python3 -m sa.check --property $i --tier quick > /tmp/rv.$c.$i.out 2>&1; rc=$?
    echo "$c $i rc=$rc $(grep -a -c '^VIOLATION' /tmp/rv.$c.$i.out) $(grep -a -m1 -A2 '^VIOLATION\|rror' /tmp/rv.$c.$i.out | tr '\n' ' ' | cut -c1-160)"
  done
  rm -rf /tmp/rv.$c /tmp/rv.$c.ev
}
export -f one
grep "${1:-.}" tools/reverts.txt | xargs -P 6 -L1 bash -c 'one $0 $1'
