#!/bin/bash
# Development helper: validate planted bugs in a scratch copy that is bind-mounted over /repo in a private
# mount namespace.   usage: seedtest.sh [-q] ID...     (-q: only run the property's check)
Q=; [ "$1" = -q ] && { Q=1; shift; }
SR=/tmp/sr
[ -d $SR ] || cp -a /repo $SR
git -C $SR fetch -q /repo HEAD && git -C $SR checkout -q -f FETCH_HEAD && git -C $SR clean -fdq
for id in "$@"; do
  d=/verif/seeded/$id
  pid=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C $SR checkout -q -f . && git -C $SR clean -fdq
  cat > /tmp/seedtest.in.sh <<X
mount --bind $SR /repo || exit 9
cd /repo
if [ -z "$Q" ]; then
  bash $d/demo.sh >/tmp/seed.demo0 2>&1 && echo "  demo clean: ok" || { echo "  demo clean: FAILS"; tail -5 /tmp/seed.demo0; }
fi
git apply $d/patch.diff || { echo "  PATCH DOES NOT APPLY"; exit 1; }
if [ -z "$Q" ]; then
  bash /opt/vp/build.sh >/tmp/seed.build 2>&1 && echo "  build: ok" || { echo "  BUILD FAILS"; grep -m3 -A5 ^error /tmp/seed.build; }
  bash /opt/vp/test.sh /tmp/seed.json >/tmp/seed.test 2>&1
  python3 - <<'P'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); t=set(json.load(open('/tmp/seed.json'))['passed'])
print("  tests: ok" if b<=t else "  TESTS FAIL: %s" % sorted(b-t)[:5])
P
  bash $d/demo.sh >/tmp/seed.demo1 2>&1 && echo "  DEMO PASSES WITH THE BUG" || { echo "  demo with bug: fails as it should"; tail -1 /tmp/seed.demo1 | cut -c1-150; }
fi
cd /verif; timeout 900 python3 sa/check.py $pid > /tmp/seed.check 2>&1; rc=\$?
echo "  check $pid: rc \$rc: \$(tail -1 /tmp/seed.check | cut -c1-200)"; [ \$rc = 1 ] && head -1 /tmp/seed.check | cut -c1-200
true
X
  echo "$id:"
  unshare -Urm bash /tmp/seedtest.in.sh
done
git -C $SR checkout -q -f .
