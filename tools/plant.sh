#!/bin/bash
# plant.sh ID...: for every seeded change: builds it in a scratch copy bound over /repo, runs the project's tests, the demonstration and the check of its property
H=$(cd "$(dirname "$0")/.." && pwd)
[ "$1" = --in ] || { rc=0; for i in ${@:-$(ls $H/seeded)}; do W=$(mktemp -d /tmp/plant.XXXXXX); cp -a /repo $W/repo; rm -rf $W/repo/.git; unshare -Urm bash -c "mount --bind $W/repo /repo && exec bash $H/tools/plant.sh --in $i" || rc=1; rm -rf "$W"; done; exit $rc; }
i=$2; D=$H/seeded/$i; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])"); cd /repo || exit 2
bash $D/demo.sh > /dev/null 2>&1 || { echo "$i: demo fails on the unchanged tree"; exit 1; }
patch -p1 -s --dry-run < $D/patch.diff > /dev/null && patch -p1 -s < $D/patch.diff || { echo "$i: patch does not apply"; exit 1; }
bash /opt/vp/build.sh > /tmp/plant.$i.log 2>&1 || { echo "$i: does not build"; exit 1; }
bash /opt/vp/test.sh /tmp/plant.$i.json > /dev/null 2>&1
M=$(python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable'] if 'stable' in json.load(open('/opt/vp/BASELINE.json')) else json.load(open('/opt/vp/BASELINE.json')); o=set(json.load(open('/tmp/plant.$i.json'))['passed']); print(len([t for t in b if t not in o]))
P
)
bash $D/demo.sh > /tmp/plant.$i.log 2>&1; d=$?
[ "$M" = 0 ] || echo "$i: $M stable tests fail"
[ $d = 0 ] && echo "$i: demo does not fail"
[ -n "$NOCHECK" ] && { echo "$i ($P): tests failing $M, demo $d"; exit 0; }
t=$(date +%s); python3 $H/run.py $P quick > /tmp/plant.$i.log 2>&1; c=$?; n=$(grep -c "^VIOLATION property=$P" /tmp/plant.$i.log)
echo "$i ($P): tests failing $M, demo $d, check exit $c, $n violations, $(( $(date +%s) - t )) s: $(grep -m1 -A1 'violation:' /tmp/plant.$i.log | head -1 | cut -c1-160)"
rm -f /tmp/plant.$i.json
