#!/bin/bash
# Builds the symbolic executor into /verif/bin (offline).
set -e
cd "$(dirname "$0")/gosym"
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOENV=off CGO_ENABLED=0
mkdir -p ../bin
go build -o ../bin/gosym .
