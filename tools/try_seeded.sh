#!/bin/bash
# try_seeded.sh [all|own] ID...: run the check of the bug's property (or, with all, every check) against planted bugs
# each bug is applied to /repo, checked and undone again; nothing is left behind
here=$(cd "$(dirname "$0")/.." && pwd)
mode=own; case "$1" in all|own) mode=$1; shift;; esac
[ $# -eq 0 ] && set -- $(ls "$here/seeded")
for id in "$@"; do
    d="$here/seeded/$id"
    prop=$(python3 -c "import json,sys;print(json.load(open(sys.argv[1]))['property'])" "$d/meta.json")
    git -C /repo apply "$d/patch.diff" || { echo "$id does not apply"; continue; }
    list=$prop; [ "$mode" = all ] && list="C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16"
    for p in $list; do
        t0=$(date +%s)
        out=$(VERIF_SEED=${VERIF_SEED:-1} timeout 900 "$here/check.sh" "$p" quick 2>&1); rc=$?
        line=$(echo "$out" | grep -m1 "^VIOLATION property=$p")
        echo "$id $p rc=$rc $(( $(date +%s) - t0 ))s ${line:+caught} $(echo "$out" | grep -v '^VIOLATION' | grep -v KNOWN | tail -1 | cut -c1-150)"
    done
    git -C /repo checkout -q -- .
done
