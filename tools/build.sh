#!/bin/bash
# builds the engine into /verif/bin (git-ignored)
set -e
cd "$(dirname "$0")/../engine"
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOTOOLCHAIN=local HOME=${HOME:-/root}
mkdir -p ../bin
go build -buildvcs=false -o ../bin/gosym .
