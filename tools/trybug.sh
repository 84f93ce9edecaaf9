#!/bin/bash
# trybug.sh <id>...: confirms a planted change and runs its property's check against it.
cd /repo || exit 3
for id in "$@"; do
  d=/verif/seeded/$id
  prop=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' $d/meta.json)
  if ! (cd /repo && bash $d/demo.sh >/tmp/trybug.log 2>&1); then echo "$id: demo fails on the unchanged tree"; cat /tmp/trybug.log | tail -5; continue; fi
  git -C /repo apply $d/patch.diff || continue
  trap 'git -C /repo checkout -q -- .' EXIT
  r="$id $prop:"
  bash /opt/vp/build.sh >/tmp/trybug.log 2>&1 || { r="$r BUILD-FAILS"; tail -3 /tmp/trybug.log; }
  bash /opt/vp/test.sh /tmp/trybug.json >/dev/null 2>&1
  r="$r tests:$(python3 -c 'import json
a=json.load(open("/tmp/trybug.json"));b=json.load(open("/opt/vp/BASELINE.json"))
m=[x for x in b["stable"] if x not in set(a["passed"])];print("missing",len(m),m[:3])')"
  bash $d/demo.sh >/tmp/trybug.log 2>&1 && r="$r DEMO-PASSES" || r="$r demo-fails($(grep -v '^exit status' /tmp/trybug.log | tail -1 | cut -c1-80))"
  t0=$(date +%s)
  (cd /verif && VERIF_SEED=1 VERIF_TIER=quick ./check.sh ${CHECK:-$prop} >/tmp/trybug.out 2>&1); e=$?
  r="$r check exit $e in $(( $(date +%s)-t0 ))s $(grep -c "^VIOLATION property=${CHECK:-$prop} " /tmp/trybug.out)"
  git -C /repo checkout -q -- .
  echo "$r"
  [ $e = 1 ] && grep -v '^VIOLATION' /tmp/trybug.out | head -${LINES_SHOWN:-3}
  [ $e = 1 ] || tail -3 /tmp/trybug.out
done
