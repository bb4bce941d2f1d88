#!/bin/bash
# Development tool: seedtest.sh ID... : applies each planted bug in /repo, builds, runs the tests, the demo and the
# check of its property, then restores /repo.  Restores the build at the end.
root=$(cd "$(dirname "$0")/.." && pwd)
trap 'git -C /repo checkout -- .' EXIT
for id in "$@"; do
  d=$root/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  [ -z "$(git -C /repo status --porcelain -uno)" ] || { echo "repo dirty"; exit 1; }
  [ -n "$SKIP_CLEAN" ] || { bash /opt/vp/build.sh >/tmp/seed.build 2>&1; (cd /repo && bash $d/demo.sh >/tmp/seed.demo0 2>&1); c0=$?; }
  git -C /repo apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  bash /opt/vp/build.sh >/tmp/seed.build 2>&1 || { echo "$id: BUILD FAILS"; git -C /repo checkout -- .; continue; }
  bash /opt/vp/test.sh /tmp/seed.tests >/tmp/seed.testlog 2>&1
  t=$(python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seed.tests'))
base=b.get('passed', b.get('stable', b)) if isinstance(b, dict) else b
miss=[x for x in base if x not in r['passed']]
print('tests-ok' if not miss else 'TESTS-FAIL %s' % miss)
P
)
  (cd /repo && bash $d/demo.sh >/tmp/seed.demo1 2>&1); c1=$?
  out=$(cd $root && bin/check $prop quick 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$id [$prop]: $t demo clean=$c0 bug=$c1 check rc=$rc $(echo "$out" | grep -c VIOLATION) violations; $(echo "$out" | grep '  case' | head -2)"
done
bash /opt/vp/build.sh >/tmp/seed.build 2>&1
