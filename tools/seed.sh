#!/bin/bash
# seed.sh new ID PROP "needs" "breaks"   : take /repo's uncommitted diff + /tmp/seed_main.rs as a planted bug
# seed.sh try ID [PROP...]               : apply, build, test, demo, run checks, undo
set -u
S=/verif/seeded
case $1 in
new) d=$S/$2; mkdir -p $d; git -C /repo diff > $d/patch.diff; cp /tmp/seed_main.rs $d/main.rs; cp /verif/tools/demo.sh $d/demo.sh
  python3 - "$d" "$3" "$4" "$5" <<'P'
import sys,json
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1]+"/meta.json","w"),indent=1)
P
  git -C /repo checkout -- . ;;
demo0) for d in $S/*/; do (cd /repo; bash $d/demo.sh >/tmp/sd.log 2>&1; r=$?; [ $r = 0 ] || { echo "$d demo clean exit $r"; tail -3 /tmp/sd.log; }); done ;;
try) d=$S/$2; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply $d/patch.diff || exit 2
  bash /opt/vp/build.sh >/tmp/sb.log 2>&1 || echo "BUILD FAILED"
  if [ -z "${NOTEST:-}" ]; then
  bash /opt/vp/test.sh /tmp/st.json >/dev/null 2>&1
  python3 -c "
import json
a=json.load(open('/tmp/st.json'));b=json.load(open('/opt/vp/BASELINE.json'))
m=[t for t in b['stable'] if t not in a['passed']];print('stable tests missing:',m[:5])"
  (cd /repo; bash $d/demo.sh >/tmp/sd.log 2>&1; echo "demo exit $?"; tail -2 /tmp/sd.log)
  fi
  shift 2
  for p in ${@:-$prop}; do python3 /verif/check.py $p 2>&1 | grep -E "VIOLATION|KNOWN|held|exit" | cut -c1-200; done
  git -C /repo checkout -- . ;;
esac
