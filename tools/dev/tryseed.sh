#!/bin/bash
# tryseed.sh ID PROP...: apply the seed, run the quick checks, revert
id=$1; shift
git -C /repo apply /verif/seeded/$id/patch.diff || exit 3
for p in "$@"; do timeout 900 python3 /verif/tools/check.py $p quick > /tmp/ts.$id.$p 2>&1; echo "$id $p rc=$? $(grep -m1 '^  violation' /tmp/ts.$id.$p | cut -c1-150)"; done
git -C /repo checkout -- .
