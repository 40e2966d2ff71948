#!/bin/bash
# Instruments the current working tree of the repository and builds the simulator: build.sh OUTDIR
set -e
. /opt/vp/env.sh
VERIF="$(cd "$(dirname "$0")" && pwd)"
REPO="${VERIF_REPO:-/repo}"
OUT="$1"
mkdir -p "$OUT"
cd "$REPO"
P=internal/verifsim
python3 - "$VERIF/sim" "$REPO/$P" > "$OUT/base.json" <<'PY'
import json,os,sys
src,dst=sys.argv[1:]
rep={}
for d,_,fs in os.walk(src):
    for f in fs:
        if f.endswith(('.go','.s')):
            p=os.path.join(d,f); rep[os.path.join(dst,os.path.relpath(p,src))]=p
json.dump({"Replace":rep},sys.stdout)
PY
go build -buildvcs=false -overlay "$OUT/base.json" -o "$OUT/instr" "./$P/instr"
rm -rf "$OUT/gen"
"$OUT/instr" -sim "$VERIF/sim" -repo "$REPO" -out "$OUT/gen"
python3 - "$OUT" <<'PY'
import json,sys
o=sys.argv[1]
b=json.load(open(o+'/base.json'))
b["Replace"].update(json.load(open(o+'/gen/instrumented.json')))
json.dump(b,open(o+'/overlay.json','w'))
PY
# The dst library calls back into the repository's code in the iteration order of a map: fix that order.
DST="$(go list -m -f '{{.Dir}}' github.com/dave/dst)"
rm -rf "$OUT/dst"
cp -r "$DST" "$OUT/dst"
chmod -R u+w "$OUT/dst"
python3 - "$OUT/dst/decorator/restorer.go" <<'PY'
import sys
s=open(sys.argv[1]).read()
loop="\tfor path := range packagesInUse {\n"
if s.count(loop)==1 and '"sort"' in s:
    s=s.replace(loop,"\tvar inUse []string\n\tfor path := range packagesInUse {\n\t\tinUse = append(inUse, path)\n\t}\n\tsort.Strings(inUse)\n\tfor _, path := range inUse {\n")
    open(sys.argv[1],'w').write(s)
PY
cp go.mod "$OUT/go.mod"
cp go.sum "$OUT/go.sum"
go mod edit -replace "github.com/dave/dst=$OUT/dst" "$OUT/go.mod"
go test -c -vet=off -mod=mod -modfile="$OUT/go.mod" -buildvcs=false -overlay "$OUT/overlay.json" -ldflags=-checklinkname=0 -o "$OUT/simtest" "./$P/harness"
