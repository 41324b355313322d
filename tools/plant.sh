#!/bin/bash
# plant.sh <id>: confirms the planted bug in /verif/seeded/<id> in a scratch
# copy: it applies, builds, keeps the stable tests passing and its demo.sh tells the trees apart.
id=$1; d=/verif/seeded/$id
w=$(mktemp -d /tmp/plant.XXXX); trap 'rm -rf "$w"' EXIT
cp -a /repo "$w/r"; cd "$w/r" || exit 1
mkdir "$w/d"; for f in "$d"/*; do case $f in *.diff|*meta.json) ;; *) cp "$f" "$w/d/";; esac; done
bash "$w/d/demo.sh" > "$w/clean.log" 2>&1 || { echo "$id: demo fails on the unchanged tree"; cat "$w/clean.log"; exit 1; }
git apply "$d/patch.diff" || { echo "$id: does not apply"; exit 1; }
GOFLAGS= go build ./cnf ./query/... ./compute || { echo "$id: does not build"; exit 1; }
bash "$w/d/demo.sh" > "$w/bug.log" 2>&1 && { echo "$id: demo passes with the bug"; exit 1; }
grep -q BROKEN "$w/bug.log" || { echo "$id: demo failed oddly"; cat "$w/bug.log"; }
GOFLAGS= go test -json ./cnf ./query/... ./compute 2>/dev/null > "$w/t.json"
python3 - "$w/t.json" <<'P' || { echo "$id: stable tests fail"; exit 1; }
import json,sys
st=json.load(open('/opt/vp/BASELINE.json'))['stable']
ok=set()
for l in open(sys.argv[1]):
    try: e=json.loads(l)
    except: continue
    if e.get('Action')=='pass' and 'Test' in e: ok.add((e['Package'],e['Test']))
names={t for _,t in ok}|{p+'/'+t for p,t in ok}|{p+'::'+t for p,t in ok}|{p.replace('github.com/jtcaraball/goexpdt/','')+'::'+t for p,t in ok}
miss=[s for s in st if not (s in names or any(s.endswith(n) for n in ()))]
if miss: print(miss[:5],len(miss)); sys.exit(1)
P
echo "$id: confirmed ($(tail -1 "$w/bug.log"))"
[ -n "$NOCHECK" ] && exit 0
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
mkdir -p "$w/v/evidence"; cp /verif/known-findings.json "$w/v/"
bin=${GOEXV:-/tmp/goexv}
for p in ${CHECKS:-$prop}; do timeout 900 "$bin" -repo "$w/r" -prop $p -tier quick -verif "$w/v" > "$w/c.log" 2>&1; s=$?; echo "   $p exit $s: $(grep -v '^VIOLATION' "$w/c.log" | head -${LINES_:-2} | cut -c1-260)"; done
