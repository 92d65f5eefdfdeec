#!/bin/bash
# seed.sh ID [nocheck]: confirm a planted bug in a scratch copy, then run its property's check on it.
ID=$1; S=/verif/seeded/$ID; W=/tmp/seed_$ID
export PATH=/opt/veriftools/go1.24.13/bin:$PATH GOROOT=/opt/veriftools/go1.24.13 GOTOOLCHAIN=local GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOWORK=off GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off
rm -rf "$W"; cp -a "${BASE:-/repo}" "$W"; cd "$W" || exit 2
bash $S/demo.sh >/tmp/seed_$ID.demo0 2>&1; a=$?
git apply $S/patch.diff || { echo "$ID: patch does not apply"; rm -rf "$W"; exit 2; }
go build ./... || { echo "$ID: does not build"; rm -rf "$W"; exit 2; }
t=$(go test -vet=off -count=1 ./... 2>&1 | grep -E "^(FAIL|---|panic)|--- FAIL" | head -5)
bash $S/demo.sh >/tmp/seed_$ID.demo1 2>&1; b=$?
echo "$ID: demo clean=$a patched=$b tests: ${t:-pass}"
if [ "$2" != nocheck ]; then
  P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  unset GOROOT; export PATH=${PATH#*:}; hash -r
  VERIF_REPO=$W VERIF_EVID=/tmp/seed_ev_$ID python3 /verif/bin/check.py $P 2>&1 | cut -c1-300 | tail -6
fi
cd /; rm -rf "$W" /tmp/seed_ev_$ID
