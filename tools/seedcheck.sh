#!/bin/bash
# seedcheck.sh ID [notest]: confirms one planted change in a scratch copy (build, stable tests, demo both ways, checks)
id=$1; s=/verif/seeded/$id; w=/tmp/seed.$id; rm -rf "$w"; mkdir -p "$w"
cp -a /repo "$w/repo"; mkdir "$w/vp"
for f in build.sh test.sh gen.py runtests.py results.py; do sed "s,/repo,$w/repo,g; s,/opt/vp,$w/vp,g" /opt/vp/$f > "$w/vp/$f"; done
cd "$w/repo"
sed -i "s,/repo/,$w/repo/,g" _build/build.ninja
bash "$w/vp/build.sh" > "$w/b0.log" 2>&1 || { echo "BASE BUILD FAILED"; exit 1; }
mkdir "$w/demo"; cp -r $s/. "$w/demo"; rm -f "$w/demo/patch.diff" "$w/demo/meta.json"
timeout 300 bash "$w/demo/demo.sh" > "$w/d0.log" 2>&1; echo "$id demo unchanged: $? (want 0)"
git apply "$s/patch.diff" || { echo "PATCH FAILS"; exit 1; }
bash "$w/vp/build.sh" > "$w/b1.log" 2>&1 || { echo "BUILD FAILED"; tail -5 "$w/b1.log"; exit 1; }
timeout 300 bash "$w/demo/demo.sh" > "$w/d1.log" 2>&1; echo "$id demo patched: $? (want !=0)"
if [ "$2" != notest ]; then
 bash "$w/vp/test.sh" "$w/out.json" > "$w/t.log" 2>&1
 python3 - "$w/out.json" <<'P'
import json,sys
o=json.load(open(sys.argv[1])); b=json.load(open("/opt/vp/BASELINE.json"))
def ids(x):
    for k in ("stable","passed","tests"):
        if k in x: return x[k]
st=ids(b); st=[t if isinstance(t,str) else t.get("id") for t in st]
miss=[t for t in st if t not in set(o["passed"])]
print("tests: stable",len(st),"not passing",len(miss),miss[:5])
P
fi
cd /verif
for p in ${CHECKS:-$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")}; do
 XK_REPO="$w/repo" python3 check.py $p quick > "$w/c.$p.log" 2>&1; echo "$id check $p: $?"; grep -h "^  P\|VIOLATION" "$w/c.$p.log" | head -5
done
[ "$KEEP" ] || rm -rf "$w"
