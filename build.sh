#!/bin/bash
# build.sh OUTDIR: instruments /repo's working tree (never written to) and builds the simulator into OUTDIR/dst.
# Any trouble ends with exit status 3.
set -u
OUT=$1
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=${VERIF_REPO:-/repo}
export HOME=${HOME:-/root}
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:/opt/veriftools/go1.27.3/bin
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off CGO_ENABLED=0 GOSUMDB=off GONOSUMDB='*' GONOSUMCHECK=1
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${VERIF_GOCACHE:-/root/.cache/go-build}
unset GOFLAGS
fail() { echo "BUILD-ERROR: $*" >&2; exit 3; }
mkdir -p "$OUT/plain" "$OUT/dxsvalue" "$OUT/dxcommon" "$OUT/tool" || fail mkdir

# the tree under test, without tests, for type information
for f in "$REPO"/*.go; do
  case "$f" in *_test.go) ;; *) cp "$f" "$OUT/plain/" || fail "copy $f" ;; esac
done
DXC=$(sed -n 's/.*suiyunonghen\/DxCommonLib \(v[0-9.]*\).*/\1/p' "$REPO/go.mod" | head -1)
DXCDIR="$GOMODCACHE/github.com/suiyunonghen/!dx!common!lib@$DXC"
[ -d "$DXCDIR" ] || fail "no DxCommonLib $DXC in the module cache"
grep -vE '^replace|json-iterator' "$REPO/go.mod" > "$OUT/plain/go.mod"
cp "$HERE/sim/deps.sum" "$OUT/plain/go.sum" || fail go.sum
( cd "$OUT/plain" && GOFLAGS=-mod=mod go list -export -deps -f '{{if .Export}}{{.ImportPath}} {{.Export}}{{end}}' . > "$OUT/exports.txt" ) 2> "$OUT/list.log" || { cat "$OUT/list.log" >&2; fail "the tree does not compile"; }

( cd "$HERE/sim" && go build -o "$OUT/tool/instrument" ./cmd/instrument ) || fail "instrumenter"
mkdir -p "$OUT/dxcommon"
chmod -R u+w "$OUT"
"$OUT/tool/instrument" -src "$DXCDIR" -dst "$OUT/dxcommon" -files strfuncs.go,delphi_time.go -sites "$OUT/sites1.json" > "$OUT/n1" || fail "instrument DxCommonLib"
N1=$(cut -d' ' -f1 "$OUT/n1")
"$OUT/tool/instrument" -src "$OUT/plain" -dst "$OUT/dxsvalue" -exports "$OUT/exports.txt" -globals -base "$N1" -sites "$OUT/sites2.json" > "$OUT/n2" || fail "instrument dxsvalue"
GOV=$(sed -n 's/^go \([0-9.]*\).*/\1/p' "$REPO/go.mod" | head -1)
case "$GOV" in 1.[0-9]|1.1[0-9]|1.20) GOV=1.20 ;; esac
printf 'module github.com/suiyunonghen/dxsvalue\n\ngo %s\n\nrequire github.com/suiyunonghen/DxCommonLib %s\n' "$GOV" "$DXC" > "$OUT/dxsvalue/go.mod"
printf 'module github.com/suiyunonghen/DxCommonLib\n\ngo 1.20\n\nrequire golang.org/x/text v0.3.4\n' > "$OUT/dxcommon/go.mod"
cat > "$OUT/go.mod" <<EOM
module verifsim

go 1.24

require (
	github.com/anishathalye/porcupine v1.3.1
	github.com/suiyunonghen/DxCommonLib $DXC
	github.com/suiyunonghen/dxsvalue v0.0.0
)

replace github.com/suiyunonghen/dxsvalue => $OUT/dxsvalue

replace github.com/suiyunonghen/DxCommonLib => $OUT/dxcommon
EOM
cp "$HERE/sim/deps.sum" "$OUT/go.sum"
( cd "$HERE/sim" && GOFLAGS=-mod=mod go build -trimpath -modfile="$OUT/go.mod" -o "$OUT/dst" ./cmd/dst ) || fail "simulator"
