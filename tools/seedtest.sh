#!/bin/bash
# seedtest.sh ID...: take each planted bug through what vcheck asks of it,
# in a scratch copy: applies, tests pass, demo 0 before and nonzero after,
# and which checks catch it (its own property, or all with ALL=1).
top=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
  d=$top/seeded/$id
  w=$(mktemp -d /tmp/seed-XXXXXX)
  cp -a /repo "$w/repo"
  cd "$w/repo" || exit 1
  res="$id"
  (bash "$d/demo.sh" >"$w/demo0" 2>&1) && res+=" demo0:ok" || res+=" demo0:FAIL"
  if git apply "$d/patch.diff" 2>"$w/err"; then res+=" applies"; else res+=" NOAPPLY"; fi
  (bash "$d/demo.sh" >"$w/demo1" 2>&1) && res+=" demo1:NOTFAILING" || res+=" demo1:ok"
  if [ -z "$NOTESTS" ]; then
    sed -e "s#/opt/vp/reports#$w/reports#" -e "s#/repo\b#$w/repo#g" -e "s#/opt/vp/mplconfig#$w/mpl#" /opt/vp/test.sh >"$w/test.sh"
    bash "$w/test.sh" "$w/o.json" >"$w/tests" 2>&1 </dev/null
    res+=" $(python3 - "$w/o.json" <<'P'
import json, sys
base = json.load(open('/opt/vp/BASELINE.json'))
base = set(base if isinstance(base, list) else base.get('passed') or base.get('stable') or next(v for v in base.values() if isinstance(v, list)))
got = set(json.load(open(sys.argv[1]))['passed'])
print('tests:ok' if base <= got else 'tests:FAIL%d' % len(base - got))
P
)"
  fi
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  for c in ${CHECKS:-$prop}; do
    out=$(cd $top && RV_REPO="$w/repo" RV_EVID="$w/ev" ./check $c 2>&1); rc=$?
    if [ $rc = 1 ]; then res+=" $c:CAUGHT"; elif [ $rc = 0 ]; then res+=" $c:MISSED"; else res+=" $c:ERR$rc"; fi
    echo "$out" | head -${VERBOSE:-0}
  done
  echo "$res"
  rm -rf "$w"
done
