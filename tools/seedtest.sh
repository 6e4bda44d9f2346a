#!/bin/bash
# seedtest.sh ID...: confirms planted bugs on /repo itself and undoes them; prints what caught them
cd /verif
ALL=${ALL:-0}
run_demo() { rm -rf /tmp/demo_copy; mkdir /tmp/demo_copy; cp -a /verif/seeded/$1/. /tmp/demo_copy/; rm -f /tmp/demo_copy/*.diff /tmp/demo_copy/*.patch /tmp/demo_copy/meta.json; (cd /repo && timeout 300 bash /tmp/demo_copy/demo.sh >/tmp/demo.log 2>&1); local r=$?; rm -rf /tmp/demo_copy; return $r; }
trap 'git -C /repo checkout -q -- .' EXIT
for id in "$@"; do
  d=/verif/seeded/$id
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo checkout -q -- .
  base=-; if [ -z "$NOBASE" ]; then run_demo $id; base=$?; [ $base != 0 ] && tail -5 /tmp/demo.log; fi
  git -C /repo apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  b=-; t=-; dm=-
  if [ -z "$CHECKONLY" ]; then
  bash /opt/vp/build.sh >/tmp/build.log 2>&1; b=$?; [ $b != 0 ] && tail -20 /tmp/build.log
  bash /opt/vp/test.sh /tmp/out.json >/dev/null 2>&1
  t=$(python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/tmp/out.json'))
def passed(x):
    for k in ("stable","passed","pass"):
        if k in x: return set(x[k])
    return {k for k,v in x.get("tests",x).items() if v in ("pass","passed","ok")}
print("ok" if passed(b)<=passed(o) else "FAIL:%s"%sorted(passed(b)-passed(o))[:3])
P
)
  run_demo $id; dm=$?
  fi
  python3 lib/check.py $p >/tmp/chk.log 2>&1; c=$?
  echo "$id: property=$p base=$base build=$b tests=$t demo=$dm check=$c $(grep -c '^    at' /tmp/chk.log) $(grep -A0 -m2 -E '^  [a-z]' /tmp/chk.log | tr '\n' ';')"
  git -C /repo checkout -q -- .
done
