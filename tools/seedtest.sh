#!/bin/bash
# tools/seedtest.sh ID...: in a scratch copy of /repo, confirms that a planted bug builds, passes the stable tests, is shown by its
# demo, and is caught by its property's check. Never touches /repo.
S=/tmp/seedtest; mkdir -p $S
if [ ! -d $S/repo ]; then cp -a /repo $S/repo; fi
for id in "$@"; do
  d=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C $S/repo checkout -q -f --detach HEAD; git -C $S/repo fetch -q /repo HEAD && git -C $S/repo checkout -q -f FETCH_HEAD
  git -C $S/repo apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  unshare -Urm bash -c "
    mount --bind $S/repo /repo
    bash /opt/vp/build.sh > $S/build.log 2>&1 || { echo '$id: BUILD FAILS'; tail -5 $S/build.log; exit; }
    bash /opt/vp/test.sh $S/o.json > /dev/null 2>&1
    python3 - <<'P'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);o=set(json.load(open('$S/o.json'))['passed'])
print('$id: tests', 'pass' if b<=o else 'FAIL '+str(sorted(b-o)[:5]))
P
    cd /repo; bash $d/demo.sh > $S/demo.log 2>&1; echo '$id: demo with patch exits' \$?
  "
  VP_REPO=$S/repo VP_BUILD=$S/vb python3 /verif/run.py $prop 2>&1 | cut -c1-220 | tail -2 | sed "s/^/$id: /"
done
