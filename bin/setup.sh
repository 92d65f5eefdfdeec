#!/bin/bash
# builds the verifier from /verif/gover (offline)
cd "$(dirname "$0")/.." || exit 1
mkdir -p .build
cd gover && GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOWORK=off GOTOOLCHAIN=local go build -o ../.build/gover .
