#!/bin/bash
# check.sh <id>...: confirms planted changes: applies, builds, passes the stable tests, demo 0 -> nonzero; then runs the property's check on it
# (works on scratch copies of /repo's HEAD; nothing here touches /repo itself)
for id in "$@"; do
  d=/verif/seeded/$id
  w=/tmp/seedwt
  if [ ! -d $w ]; then git -C /repo worktree list >/dev/null; cp -a /repo $w; fi
  git -C $w fetch -q /repo HEAD && git -C $w reset -q --hard FETCH_HEAD && git -C $w clean -qfd
  run() { ( cd $w && env -u CARGO_TARGET_DIR bash $d/demo.sh >/tmp/seed-demo.log 2>&1 ); }
  run; a=$?
  if ! git -C $w apply $d/patch.diff; then echo "$id: patch does not apply"; continue; fi
  run; b=$?; tail -3 /tmp/seed-demo.log
  t=skipped
  if [ -z "$NOTESTS" ]; then
    sed "s|cd /repo|cd $w|" /opt/vp/rs/env.sh > /tmp/seed-env.sh
    sed "s|/opt/vp/rs/env.sh|/tmp/seed-env.sh|; s|/opt/vp/rs/logs|/tmp/seed-logs|" /opt/vp/test.sh > /tmp/seed-test.sh
    sed "s|/opt/vp/rs/env.sh|/tmp/seed-env.sh|" /opt/vp/build.sh > /tmp/seed-build.sh
    bash /tmp/seed-build.sh >/tmp/seed-build.log 2>&1 || echo "$id: build failed"
    bash /tmp/seed-test.sh /tmp/seed-out.json >/tmp/seed-test.log 2>&1
    t=$(python3 -c "
import json
o=json.load(open('/tmp/seed-out.json')); b=json.load(open('/opt/vp/BASELINE.json'))
fa=[x for x in b['stable'] if x not in set(o.get('passed',[]))]
print('tests-pass' if not fa else 'TESTS FAIL '+str(fa[:6]))")
  fi
  echo "$id: demo unchanged=$a patched=$b; $t"
  git -C $w reset -q --hard
done
