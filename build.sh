#!/bin/bash
# build.sh OUTDIR: instruments /repo's working tree and builds OUTDIR/mc against it.
set -e
out=${1:?}
here=$(cd "$(dirname "$0")" && pwd)
repo=${VERIF_REPO:-/repo}
export HOME="${HOME:-/root}"
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOENV=off CGO_ENABLED=0 GOFLAGS=-mod=mod
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
export GONOSUMDB=* GONOSUMCHECK=1 GOSUMDB=off
mkdir -p "$out/repo" "$out/fsm"
M=github.com/younglifestyle/secs4go
# 1. the instrumenter
(cd "$here/instr" && go build -o "$out/instr" .)
# 2. package list with export data; a copy of go.mod keeps /repo untouched
cp "$repo/go.mod" "$out/orig.mod"; cp "$repo/go.sum" "$out/orig.sum"
(cd "$repo" && go list -modfile="$out/orig.mod" -export -deps -json=ImportPath,Dir,GoFiles,Export,Standard,Module . ./codec ./common ./utils ./hsms ./gem ./lib-secs2-hsms-go/pkg/ast ./lib-secs2-hsms-go/pkg/parser/hsms ./lib-secs2-hsms-go/pkg/parser/sml > "$out/list.json")
# 3. instrument the module and the state machine library it calls back from
"$out/instr" -list "$out/list.json" -map $M="$out/repo" -map github.com/looplab/fsm="$out/fsm"
# 4. module files
sed -e "s#^go 1.*#go 1.23#" "$repo/go.mod" > "$out/repo/go.mod"
printf 'module github.com/looplab/fsm\n\ngo 1.23\n' > "$out/fsm/go.mod"
{
  sed -e "s#^module .*#module verif.local/mc#" -e "s#^go 1.*#go 1.23#" "$repo/go.mod"
  printf '\nrequire %s v0.0.0\nreplace %s => %s\nreplace github.com/looplab/fsm => %s\n' $M $M "$out/repo" "$out/fsm"
} > "$out/go.mod"
cp "$repo/go.sum" "$out/go.sum"
# 5. the checker
(cd "$here/mc" && go build -modfile="$out/go.mod" -o "$out/mc" ./cmd/mc)
