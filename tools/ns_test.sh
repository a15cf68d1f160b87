#!/bin/bash
# ns_test.sh PATCH OUT.json : run the repository's tests on a patched copy, in private mount and network namespaces
set -e
P=$(realpath "$1"); OUT=$(realpath -m "$2")
W=$(mktemp -d /tmp/sw/XXXXXX)
cp -a /repo "$W/repo"; mkdir "$W/vp"; cp -a /opt/vp/. "$W/vp/"; touch "$W/vp/test.lock"
git -C "$W/repo" apply "$P"
unshare -Urmn bash -c "mount --bind $W/repo /repo && mount --bind $W/vp /opt/vp && ip link set lo up && bash /opt/vp/build.sh && bash /opt/vp/test.sh $OUT" > "$W/log" 2>&1 || { tail -5 "$W/log"; }
python3 - "$OUT" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; t=json.load(open(sys.argv[1]))
p=set(t['passed']); print('missing stable:', [x for x in b if x not in p][:5])
P
case "$W" in /tmp/sw/*) rm -rf "$W";; esac
