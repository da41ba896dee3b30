#!/bin/bash
# Confirms a planted bug and runs the property's check against it, in throw-away overlays of /repo, /verif and /opt/vp.
# usage: try_bug.sh ID [test|notest] [PID...]     (default: test, and the property of meta.json)
set -u
ID=$1; MODE=${2:-test}; shift; shift
S=/verif/seeded/$ID
PIDS=${*:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}
T=/tmp/try/$ID
rm -rf "$T"; mkdir -p "$T"
export S PIDS T MODE ID
unshare -Urm bash -c '
  ov() { mkdir -p $T/$2.u $T/$2.w; mount -t overlay overlay -o lowerdir=$1,upperdir=$T/$2.u,workdir=$T/$2.w $1; }
  cp -r $S $T/demo
  ov /repo repo; ov /verif verif; ov /opt/vp vp
  cd /repo
  res="$ID:"
  if [ -z "${SKIPBASE:-}" ]; then
    timeout 300 bash $T/demo/demo.sh >$T/demo-base.log 2>&1 </dev/null; res="$res demo-base=$?"
  fi
  git apply $S/patch.diff || { echo "$ID: patch does not apply" | tee $T/summary; exit 1; }
  bash /opt/vp/build.sh >$T/build.log 2>&1; res="$res build=$?"
  timeout 300 bash $T/demo/demo.sh >$T/demo-bug.log 2>&1 </dev/null; res="$res demo-bug=$?"
  if [ $MODE = test ]; then
    bash /opt/vp/test.sh $T/out.json >$T/test.log 2>&1
    lost=$(python3 - $T/out.json <<P
import json,sys
b=set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
o=json.load(open(sys.argv[1]))
p=o.get("passed") or []
p=set(p if isinstance(p,list) else p.keys())
l=sorted(b-p); print(len(l), *l[:4])
P
)
    res="$res lost-tests=[$lost]"
  fi
  for p in $PIDS; do
    cd /verif; timeout 900 ./check $p >$T/check-$p.log 2>&1; r=$?
    res="$res $p=$r$(grep -c ^VIOLATION $T/check-$p.log)"
  done
  echo "$res" | tee $T/summary
'
chmod -R u+rwx "$T" 2>/dev/null
rm -rf "$T"/repo.* "$T"/verif.* "$T"/vp.*
