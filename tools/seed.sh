#!/bin/bash
# seed.sh test ID   : validate a planted bug (applies it to /repo, builds, tests, demo, check; always reverts)
# seed.sh new ID PROP DEMO.cpp "needs" "what it breaks" : make seeded/ID from the current diff of /repo (which is then reverted)
set -u
V=/verif; S=$V/seeded/$2
baseline() { python3 - <<'P'
import json
o=json.load(open('/tmp/seed_out.json'));b=json.load(open('/opt/vp/BASELINE.json'))['stable']
m=set(b)-set(o['passed']); print('tests', len(o['passed']),'missing',list(m)[:3]); raise SystemExit(1 if m else 0)
P
}
case $1 in
new)
  mkdir -p $S; git -C /repo diff > $S/patch.diff; git -C /repo checkout -q -- .
  [ -s $S/patch.diff ] || { echo "empty diff"; exit 1; }
  cp "$4" $S/demo.cpp
  cat > $S/demo.sh <<'D'
#!/bin/bash
# run with cwd = the repository; exit 0 when the behaviour is right
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
trap 'rm -r -- "$T"' EXIT
g++ -std=c++20 -O1 -g -w -pthread $(cat "$D/flags" 2>/dev/null) -I "$PWD/Source" -I "$PWD" -o "$T/demo" "$D/demo.cpp" $(find "$PWD/Source" -name '*.cpp' ! -name '*.Windows.cpp') || exit 2
cd "$T" && timeout 120 "$T/demo"
D
  python3 - "$S" "$3" "$5" "$6" <<'P'
import json,sys
json.dump(dict(property=sys.argv[2],needs=sys.argv[3],what_it_breaks=sys.argv[4]),open(sys.argv[1]+'/meta.json','w'),indent=1)
P
  exec bash "$0" test "$2" ;;
test)
  P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  cd /repo; git diff --quiet || { echo "dirty /repo"; exit 1; }
  bash $S/demo.sh >/tmp/seed_demo0.log 2>&1; d0=$?
  git apply $S/patch.diff || exit 1
  trap 'git -C /repo checkout -q -- .' EXIT
  bash /opt/vp/test.sh /tmp/seed_out.json >/tmp/seed_t.log 2>&1; baseline; t=$?
  bash $S/demo.sh >/tmp/seed_demo1.log 2>&1; d1=$?
  ok=yes; [ $d0 = 0 -a $d1 != 0 -a $d1 != 2 -a $t = 0 ] || ok=NO
  r=-; if [ $ok = yes ]; then (cd $V; VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py $P --tier quick >/tmp/seed_c.log 2>&1); r=$?; fi
  grep -m1 VIOLATION /tmp/seed_c.log
  echo "SEED $2 property=$P demo_clean=$d0 demo_patched=$d1 tests=$t valid=$ok check_exit=$r" | tee -a /tmp/seed_matrix.txt
  [ $d0 = 0 ] || tail -5 /tmp/seed_demo0.log
  [ $ok = yes ] || { tail -5 /tmp/seed_demo1.log; tail -3 /tmp/seed_t.log; }
  ;;
esac
