#!/bin/bash
# Developer tool: run the property's check against planted bugs (all, or those named).  Each runs on a patched
# scratch copy mounted over /repo in a mount namespace of its own, so /repo itself is left alone.
cd /verif || exit 1
J=${J:-2}
one() {
    id=$1; p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
    w=$(mktemp -d /tmp/sc.XXXXXX); cp -a /repo "$w/repo"; mkdir "$w/evidence" "$w/replay"
    git -C "$w/repo" apply "/verif/seeded/$id/patch.diff" || { echo "$id does not apply"; return; }
    s=$(date +%s)
    unshare -m bash -c "mount --bind $w/repo /repo && mount --bind $w/evidence /verif/evidence && mount --bind $w/replay /verif/replay && cd /verif && exec timeout 900 python3 check.py $p ${TIER:-quick}" > "/tmp/sc_$id.out" 2>&1; r=$?
    if [ $r = 1 ] && grep -q "^VIOLATION property=$p" "/tmp/sc_$id.out"; then v=caught; else v=MISSED; fi
    echo "$id $p $v rc=$r $(( $(date +%s) - s ))s $(grep -c '^VIOLATION' "/tmp/sc_$id.out")"
    rm -rf "$w"
}
export -f one
printf '%s\n' ${*:-$(ls seeded)} | xargs -P "$J" -I{} bash -c 'one {}'
