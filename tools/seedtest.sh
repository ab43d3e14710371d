#!/bin/bash
# tools/seedtest.sh ID... : in a scratch copy of /repo, confirm that a planted
# bug applies, passes the stable tests, and that its demonstration tells.
here=$(cd "$(dirname "$0")/.." && pwd)
. /opt/vp/env.sh
one() {
  id=$1; d=$here/seeded/$id; w=/tmp/seedwt/$id
  rm -rf "/tmp/seedwt/$id"; mkdir -p /tmp/seedwt; cp -a /repo "$w"
  cd "$w"
  PYTHONPATH=$w timeout 300 bash "$d/demo.sh" >"/tmp/seedwt/$id.clean" 2>&1; a=$?
  git apply "$d/patch.diff" || { echo "$id: patch does not apply"; return; }
  PYTHONPATH=$w timeout 300 bash "$d/demo.sh" >"/tmp/seedwt/$id.bug" 2>&1; b=$?
  PYTHONPATH=$w python -m pytest -q --tb=short --show-capture=no -p no:cacheprovider -n ${N:-4} --dist worksteal \
    --mpl --mpl-baseline-path=tests/imgs_baseline --timeout=600 --basetemp="/tmp/seedwt/$id.t" \
    -o junit_family=xunit2 --junitxml="/tmp/seedwt/$id.xml" >"/tmp/seedwt/$id.tests" 2>&1
  /usr/bin/python3 /opt/vp/results.py "/tmp/seedwt/$id.json" "junit:/tmp/seedwt/$id.xml" >/dev/null
  python - "$id" $a $b <<'P'
import json,sys
i,a,b=sys.argv[1:4]
base=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
r=json.load(open('/tmp/seedwt/%s.json'%i))
p=r.get('passed') or [k for k,v in r.get('tests',{}).items() if v=='passed']
miss=sorted(base-set(p))
ok = a=='0' and b!='0' and not miss
print("%s: demo clean=%s bug=%s; stable tests failing: %d %s -> %s"%(i,a,b,len(miss),miss[:4],"OK" if ok else "NOT OK"))
P
  rm -rf "/tmp/seedwt/$id" "/tmp/seedwt/$id.t"
}
for i in "$@"; do one "$i"; done
