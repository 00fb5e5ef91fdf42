#!/bin/sh
# Builds the verifier from the committed sources, offline.
set -e
cd "$(dirname "$0")"
mkdir -p .build evidence
export PATH=/usr/local/bin:$PATH GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=0 GOTOOLCHAIN=local
cd govc && go build -o ../.build/govc .
