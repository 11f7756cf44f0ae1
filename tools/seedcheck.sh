#!/bin/bash
# tools/seedcheck.sh ID...: confirm planted bugs (applies, builds, stable tests pass, demo tells them apart), then run the property's check
V=${V:-/verif}
for id in "$@"; do
  S=$V/seeded/$id; W=/tmp/seedwork-$id
  [ -d $W ] && find $W -delete
  cp -a /repo $W; cd $W; git checkout -q -- .
  ( cd $W; bash $S/demo.sh >/tmp/seed-$id.demo0 2>&1 ); d0=$?
  git apply $S/patch.diff || { echo "$id: patch does not apply"; continue; }
  ( cd $W; bash $S/demo.sh >/tmp/seed-$id.demo1 2>&1 ); d1=$?
  tests=skipped
  if [ -z "$NOTEST" ]; then
    # the stable tests on the changed copy, bound over /repo in a private mount namespace
    cp -a /opt/vp/work /tmp/seedvp-$id
    unshare -m bash -c "mount --bind $W /repo; mount --bind /tmp/seedvp-$id /opt/vp/work; cd /; bash /opt/vp/build.sh >/tmp/seed-$id.build 2>&1; bash /opt/vp/test.sh /tmp/seed-$id.json" >/dev/null 2>&1
    find /tmp/seedvp-$id -delete
    tests=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable'];t=json.load(open('/tmp/seed-$id.json'))['passed']
m=set(b)-set(t);print('ok' if not m else 'MISSING %d %s'%(len(m),sorted(m)[:3]))")
  fi
  prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  chk=skipped
  if [ -z "$NOCHECK" ]; then
    cd $V; VF_REPO=$W VF_BUILD=/tmp/seedbuild-$id timeout 900 python3-vt -m engine.run $prop --tier quick >/tmp/seed-$id.chk 2>&1; c=$?
    chk="exit $c; $(grep -c '^VIOLATION' /tmp/seed-$id.chk) violations; $(tail -1 /tmp/seed-$id.chk | grep -o 'total [0-9]*s')"
    find /tmp/seedbuild-$id -delete
  fi
  find $W -delete
  echo "$id [$prop]: demo unchanged=$d0 patched=$d1; tests $tests; check: $chk"
done
