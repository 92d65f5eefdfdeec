#!/bin/bash
# exit 0 when the behaviour is right; runs demo_test.go inside the package named below
PKG=@PKG@
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd)
export HOME=${HOME:-/root} PATH=/opt/veriftools/go1.24.13/bin:$PATH GOROOT=/opt/veriftools/go1.24.13 GOTOOLCHAIN=local GOPATH=/root/go \
  GOMODCACHE=/root/go/pkg/mod GOWORK=off GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
echo "{\"Replace\":{\"$R/$PKG/zz_seeded_demo_test.go\":\"$D/demo_test.go\"}}" > "$T/overlay.json"
go test -overlay "$T/overlay.json" -vet=off -count=1 -timeout 240s -run '^TestSeededDemo$' "./$PKG"
