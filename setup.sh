#!/bin/bash
# Builds the checker from the committed files, offline.
set -e
. /opt/vp/env.sh 2>/dev/null || true
export GOPROXY=off GOTOOLCHAIN=local GONOSUMDB='*' GONOSUMCHECK=1
cd "$(dirname "$0")/engine"
mkdir -p ../bin
go build -o ../bin/gosym ./cmd/gosym
cd ../harness
go build ./verif ./models 
