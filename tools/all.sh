#!/bin/bash
# every registered check on $VERIF_REPO (default /repo); prints what is not a plain pass
cd "$(dirname "$0")/.." || exit 2
tier=${1:-quick}
ls checks/c*.py | sed 's/.*c\([0-9]*\)\.py/C\1/' | xargs -P 7 -I{} sh -c 'out=$(python3 check.py --property {} --tier '$tier' 2>&1); rc=$?; echo "$rc $(echo "$out" | tail -1 | cut -c1-160) undecided=$(echo "$out" | grep -c undecided)"' | sort -k2
