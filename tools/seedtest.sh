#!/bin/bash
# seedtest.sh ID...: applies the planted change, checks build, tests, demo and the property's check, undoes it.
cd /verif
for id in "$@"; do
  D=/verif/seeded/$id; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  git -C /repo diff --quiet || { echo "/repo is dirty"; exit 1; }
  if [ -z "$NODEMO" ]; then (cd /repo && bash $D/demo.sh >/tmp/sd.out 2>&1); a=$?; else a=skip; fi
  git -C /repo apply $D/patch.diff || { echo "$id does not apply"; continue; }
  b=skip; t=skip
  if [ -z "$NODEMO" ]; then
    bash /opt/vp/test.sh /tmp/sd.json >/tmp/sd.log 2>&1; t=$(python3 -c "import json;d=json.load(open('/tmp/sd.json'));print(len(d['passed']),'passed',len(d['failed']),'failed')")
    (cd /repo && bash $D/demo.sh >/tmp/sd.out 2>&1); b=$?
  fi
  VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3-vt check.py $P >/tmp/sd.chk 2>&1; c=$?
  git -C /repo checkout -q -- .
  echo "$id ($P): demo clean=$a bug=$b; tests $t; check=$c  $(grep -h VIOLATION /tmp/sd.chk | tail -1 | cut -c1-120) $(grep -h 'obligations,' /tmp/sd.chk)"
  grep -h 'note:\|failing input\|failed obl' /tmp/sd.chk | head -4 | cut -c1-300
done
bash /opt/vp/build.sh >/dev/null 2>&1
