#!/bin/bash
# tryseed.sh ID [check...]: does the planted change count, and which checks notice it? (development)
id=$1; shift
d=/verif/seeded/$id
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo || exit 2
git diff --quiet || { echo "repo dirty"; exit 2; }
bash /opt/vp/build.sh > /tmp/ts.log 2>&1
mkdir -p /tmp/ts_demo; cp $d/* /tmp/ts_demo/; 
bash /tmp/ts_demo/demo.sh > /tmp/ts_demo0.log 2>&1; c0=$?
git apply $d/patch.diff || { echo "$id: does not apply"; exit 2; }
trap 'git -C /repo checkout -- .' EXIT
if bash /opt/vp/test.sh /tmp/ts.json > /tmp/ts.log 2>&1; [ -s /tmp/ts.json ]; then
t=$(python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); b=b['stable']
r=set(json.load(open('/tmp/ts.json'))['passed'])
m=[x for x in b if x not in r]
print('tests ok' if not m else 'TESTS FAIL %s' % m[:4])
P
)
fi
bash /tmp/ts_demo/demo.sh > /tmp/ts_demo1.log 2>&1; c1=$?
rm -rf /tmp/ts_demo
out=""
for c in ${@:-$p}; do
  python3 /verif/check.py $c quick > /tmp/ts_chk.$c 2>&1; r=$?
  out="$out $c=$r"
  [ $r = 1 ] && out="$out($(grep -m1 '  violated' /tmp/ts_chk.$c | cut -c1-150))"
  [ $r = 0 ] && out="$out($(grep -m1 "^$c:" /tmp/ts_chk.$c | cut -c1-100))"
done
echo "$id [$p] demo clean=$c0 patched=$c1 $t |$out"
