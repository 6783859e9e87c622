#!/bin/bash
# tools/seedrun.sh DIR [noverify] [CHECK...]: confirms one planted bug in a private mount namespace (a
# scratch copy of /repo is mounted over /repo) and runs the named checks against it.
set -u
S=$(realpath "$1"); shift
id=$(basename "$S"); D=$(mktemp -d /tmp/seed-$id-XXXX)
cp -a /repo "$D/repo"; mkdir "$D/build" "$D/ev"; [ -d /verif/.build/plain ] && cp -a /verif/.build/plain /verif/.build/include "$D/build/"
export D S id
unshare -m bash -c '
mount --make-rprivate /; mount --bind $D/repo /repo; mount --bind $D/build /verif/.build; mount --bind $D/ev /verif/evidence
mkdir $D/demo; cp -a $S/. $D/demo/; rm -f $D/demo/*.diff $D/demo/meta.json
cd /repo
if [ "${1:-}" = noverify ]; then shift; git apply $S/patch.diff || exit 3; else
bash $D/demo/demo.sh >$D/d0 2>&1; echo "$id demo unchanged: $?"
git apply $S/patch.diff || { echo "$id DOES NOT APPLY"; exit 3; }
bash /opt/vp/build.sh > $D/b.log 2>&1 || { echo "$id DOES NOT BUILD"; tail -20 $D/b.log; exit 3; }
bash /opt/vp/test.sh $D/o.json > $D/t.log 2>&1
python3 -c "
import json; b=json.load(open(\"/opt/vp/BASELINE.json\")); o=json.load(open(\"$D/o.json\"))
p=b[\"stable\"]; m=[x for x in p if x not in o[\"passed\"]]
print(\"$id tests:\", \"ok\" if not m else \"BROKEN %s\"%m)"
bash $D/demo/demo.sh >$D/d1 2>&1; echo "$id demo patched: $?"; tail -3 $D/d1
fi
cd /verif
for c in "$@"; do timeout 900 python3 harness/check.py $c > $D/c.log 2>&1; R=$?; [ $R -gt 1 ] && tail -15 $D/c.log; echo "$id check $c: exit $R  $(grep -m1 -A1 VIOLATION $D/c.log | tr "\n" " " | cut -c1-300)"; done
' x "$@"
case "$D" in /tmp/seed-*) rm -rf "$D";; esac
