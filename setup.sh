#!/bin/bash
# Builds the verifier and checks that the replay harness compiles (offline).
set -e
cd "$(dirname "$0")"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
mkdir -p bin evidence
(cd govc && go build -o ../bin/govc .)
(cd replay && GOFLAGS=-mod=mod go build -o ../bin/replay-warm .)
