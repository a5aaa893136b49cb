#!/bin/bash
# dev tool: try.sh ID [PROP...]: apply seeded/ID to /repo, run the check(s), undo
id=$1; shift
props="$*"; [ -n "$props" ] || props=$(sed -n 's/.*"property": "\(C[0-9]*\)".*/\1/p' /verif/seeded/$id/meta.json)
git -C /repo diff --quiet || { echo "/repo dirty"; exit 9; }
git -C /repo apply /verif/seeded/$id/patch.diff || exit 9
for c in $props; do s=$(date +%s); o=$(cd /verif && ./check.sh $c ${TIER:-quick} -evidence /tmp/ev -replays /tmp/rep 2>&1); rc=$?; echo "$id $c rc=$rc $(( $(date +%s)-s ))s $(echo "$o" | grep -m1 VIOLATION) :: $(echo "$o" | grep -iE -m1 -A1 'violat' | tail -1 | cut -c1-200)"; done
git -C /repo checkout -- .
