#!/bin/bash
# tools/tryseed.sh ID [notest|check]: in a private mount namespace where /repo is a scratch copy: apply a planted bug, build, run tests, demo and its check.
if [ -z "$TRYSEED_IN" ]; then
  w=$(mktemp -d /tmp/tryseed.XXXXXX); cp -a /repo $w/r; cp -a /verif $w/v
  TRYSEED_IN=$w unshare -Urm bash "$0" "$@"; rc=$?; case "$w" in /tmp/tryseed.??????) rm -rf "$w";; esac; exit $rc
fi
mount --bind $TRYSEED_IN/r /repo && mount --bind $TRYSEED_IN/v /verif || exit 9
id=$1; d=/verif/seeded/$id; w=$TRYSEED_IN; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo; git reset -q --hard
if [ "$2" != check ]; then bash /opt/vp/build.sh >/dev/null 2>&1; timeout 300 bash $d/demo.sh >$w/demo0.log 2>&1; echo "$id demo on clean tree: $? (want 0)"; fi
git apply $d/patch.diff || exit 8
if [ "$2" != check ]; then
if [ "$2" != notest ]; then bash /opt/vp/test.sh $w/t.json >$w/build.log 2>&1; python3 -c "
import json;b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);p=set(json.load(open('$w/t.json'))['passed']);print('$id tests: missing',len(b-p),sorted(b-p)[:3])"
else bash /opt/vp/build.sh >$w/build.log 2>&1 || echo BUILD FAILED; fi
timeout 300 bash $d/demo.sh >$w/demo1.log 2>&1; echo "$id demo with bug: $? (want nonzero)"; tail -2 $w/demo1.log
fi
cd /verif; python3-vt check.py $prop > $w/check.log 2>&1; echo "$id check $prop: exit $? (want 1) $(grep -c '^VIOLATION' $w/check.log)"; grep -h "violated\|UNDEC\|UNCONF" $w/check.log | head -3 | cut -c1-250
