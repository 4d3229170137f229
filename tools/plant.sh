#!/bin/bash
# plant.sh ID   confirms a planted bug of /verif/seeded: the patch applies,
# builds, passes the stable tests, and its demonstration tells the trees apart.
# plant.sh ID check PROP...   also runs the checks against it.
set -u
id=$1; shift
d=/verif/seeded/$id
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 3; }
trap 'git -C /repo checkout -q -- .' EXIT
if [ "${1:-}" != check ]; then
  (cd /repo && bash "$d/demo.sh" >/tmp/plant.out 2>&1) || { echo "$id: the demo fails on the unchanged tree"; tail -20 /tmp/plant.out; exit 1; }
fi
git -C /repo apply "$d/patch.diff" || { echo "$id: does not apply"; exit 1; }
if [ "${1:-}" = check ]; then
  shift
  [ $# -gt 0 ] || set -- $(sed -n 's/.*"property": *"\([^"]*\)".*/\1/p' "$d/meta.json")
  for p in "$@"; do
    VERIF_SEED=${VERIF_SEED:-1} bash /verif/check.sh "$p" quick >/tmp/plant.check 2>&1; rc=$?
    echo "$id $p rc=$rc $(grep -c '^VIOLATION' /tmp/plant.check)"; [ -n "${VERBOSE:-}" ] && head -c 1500 /tmp/plant.check
  done
  exit 0
fi
bash /opt/vp/build.sh >/tmp/plant.out 2>&1 || { echo "$id: does not build"; tail -20 /tmp/plant.out; exit 1; }
bash /opt/vp/test.sh /tmp/plant.json >/tmp/plant.out 2>&1
python3 - <<'P' || { echo "$id: breaks the tests"; exit 1; }
import json,sys
a=json.load(open('/opt/vp/BASELINE.json')); b=json.load(open('/tmp/plant.json'))
def ok(d):
    for k in ('passed','pass','stable'):
        if k in d: return set(d[k])
    return set(k for k,v in d.get('tests',d).items() if v in('pass','passed',True))
m=ok(a)-ok(b)
if m: print(m)
sys.exit(1 if m else 0)
P
if (cd /repo && bash "$d/demo.sh" >/tmp/plant.out 2>&1); then echo "$id: the demo passes with the patch"; exit 1; fi
echo "$id: ok: $(tail -2 /tmp/plant.out | head -1 | cut -c1-200)"
