#!/bin/bash
# Development helper for planted bugs. WT is a scratch copy of /repo (cp -a /repo /tmp/wt).
#   seed.sh save <id>   store the working diff of WT as seeded/<id>/patch.diff and reset WT
#   seed.sh try <id>    confirm in WT: demo passes clean, fails patched, stable tests pass patched
#   seed.sh check <id> [tier] apply to /repo, run this property's check, undo
WT=/tmp/wt; V=/verif; ID=$2
. /opt/vp/env.sh
case $1 in
save) mkdir -p $V/seeded/$ID; git -C $WT diff > $V/seeded/$ID/patch.diff; git -C $WT checkout -q -- .; wc -l $V/seeded/$ID/patch.diff;;
try)
  cd $WT && git checkout -q -- . || exit 9
  bash $V/seeded/$ID/demo.sh >/tmp/demo.clean 2>&1; a=$?
  git apply $V/seeded/$ID/patch.diff || { echo "patch does not apply"; exit 9; }
  cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > /tmp/seedtest.log 2>&1
  python3 /opt/vp/results.py /tmp/seedtest.json cargo:/tmp/seedtest.log >/dev/null 2>&1
  t=$(python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seedtest.json'))
def names(x,k):
    v=x.get(k); return set(v if isinstance(v,list) else (v or {}))
base=names(b,'stable') or names(b,'passed') or names(b,'pass') or set(b if isinstance(b,list) else [])
fail=set(r.get('failed',[]))
print("FAILING:", sorted(base & fail), "not run or missing:", len(base - set(r.get("passed",[]))))
P
)
  bash $V/seeded/$ID/demo.sh >/tmp/demo.patched 2>&1; b=$?
  git checkout -q -- .
  echo "$ID demo clean=$a patched=$b tests $t"; [ $a = 0 ] || tail -5 /tmp/demo.clean; tail -3 /tmp/demo.patched;;
check)
  P=$(python3 -c "import json;print(json.load(open('$V/seeded/$ID/meta.json'))['property'])")
  [ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo dirty"; exit 9; }
  git -C /repo apply $V/seeded/$ID/patch.diff || exit 9
  cd $V; ./check.sh $P ${3:-quick} > /tmp/seedcheck.log 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$ID check $P rc=$rc $(grep -c VIOLATION /tmp/seedcheck.log) violations"; grep -v '^VIOL' /tmp/seedcheck.log | tail -2 | cut -c1-300;;
esac
