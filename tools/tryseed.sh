#!/bin/bash
# tryseed.sh [-t] [-n] ID...: demo without and with the change, then the check; -t: the stable tests instead (in /repo)
T= N=
while [[ $1 == -* ]]; do [ $1 = -t ] && T=1; [ $1 = -n ] && N=1; shift; done
V=$(cd "$(dirname "$0")/.." && pwd)
if [ "$T" ]; then
    for id; do
        git -C /repo apply $V/seeded/$id/patch.diff || { echo "$id: NO PATCH"; continue; }
        echo "$id: $(bash $V/tools/stable.sh) build $(bash /opt/vp/build.sh >/dev/null 2>&1; echo $?)"
        git -C /repo checkout -- .
    done
    exit
fi
for id; do
    w=$(mktemp -d /tmp/seed.XXXXXX)
    git -C /repo archive HEAD | tar -x -C $w
    prop=$(python3 -c "import json; print(json.load(open('$V/seeded/$id/meta.json'))['property'])")
    (cd $w; bash $V/seeded/$id/demo.sh) >/tmp/seed-$id.clean 2>&1; a=$?
    (cd $w; git apply $V/seeded/$id/patch.diff || echo NOPATCH; bash $V/seeded/$id/demo.sh) >/tmp/seed-$id.bad 2>&1; b=$?
    r=skipped
    [ "$N" ] || { VERIF_REPO=$w python3 $V/check.py $prop --tier quick >/tmp/seed-$id.check 2>&1; r=$?; }
    echo "$id: demo $a $b check $prop $r $(tail -1 /tmp/seed-$id.check 2>/dev/null | cut -c1-150)"
    rm -rf "$w"
done
