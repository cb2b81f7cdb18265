#!/bin/bash
# all.sh [quick|thorough] [ids...]: run the checks one after another, one line each.
V="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
T="${1:-quick}"; shift
IDS=("$@")
[ ${#IDS[@]} = 0 ] && IDS=(E01 E02 E03 E04 E05 E06 M01 M02 M03 M04 M05 M06 M07 M08 M09 O01 O02 O03 O04 O05 O06 O07 O08 A01 A02 A03 A04 A05 A06 A07 A08 A09 A10 A11 A12)
bad=0
for i in "${IDS[@]}"; do
    s=$(date +%s.%N)
    o="$("$V/check.sh" "$i" "$T" 2>&1)"; r=$?
    printf '%s rc %d %.1fs ' "$i" $r "$(echo "$(date +%s.%N) - $s" | bc)"
    if [ $r = 0 ]; then echo "$o" | cut -c1-"${W:-110}" | head -1; echo "$o" | grep '  note' ; else bad=1; echo; echo "$o" | cut -c1-800 | head -20; fi
done
exit $bad
