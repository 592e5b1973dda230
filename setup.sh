#!/bin/bash
# builds the verifier from the committed files (offline)
set -e
cd "$(dirname "$0")/govc"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
mkdir -p ../bin
go build -o ../bin/govc .
