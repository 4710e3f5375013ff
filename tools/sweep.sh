#!/bin/bash
# sweep.sh "C01 C02 ..." "1 2 3" [tier] : runs the checks with several seeds, prints one line each (a development aid)
for c in $1; do for s in $2; do
  /usr/bin/time -f "%es" timeout 3000 python3 /verif/check.py $c --seed $s --tier ${3:-quick} >/tmp/sweep.$c.$s.log 2>&1; r=$?
  echo "$c seed $s rc=$r $(grep -E "cases|VIOLATION" /tmp/sweep.$c.$s.log | tail -1 | cut -c1-200) $(tail -1 /tmp/sweep.$c.$s.log)"
  [ $r = 0 ] && rm -f /tmp/sweep.$c.$s.log
done; done
