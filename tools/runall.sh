#!/bin/bash
# runall.sh TIER [PROP...]: runs checks one after another and prints one line each.
cd "$(dirname "$0")/.."
T=${1:-quick}; shift
PS=${@:-$(ls harness | grep '^c[0-9]' | tr a-z A-Z)}
for p in $PS; do
  s=$(date +%s.%N)
  ./check.sh $p $T >/tmp/runall-$p.log 2>&1; rc=$?
  e=$(date +%s.%N)
  printf '%s rc=%d %.1fs %s\n' $p $rc $(echo "$e-$s"|bc) "$(grep -c 'MISMATCH' /tmp/runall-$p.log) mism; $(grep -o 'solver answered[^,]*\|time budget[^,]*\|undecided paths\|unsup=[1-9][0-9]*\|unconfirmed [1-9][0-9]*' /tmp/runall-$p.log | sort | uniq -c | tr '\n' ' ')"
done
