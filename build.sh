#!/bin/bash
# builds the symbolic executor into /verif/bin (git-ignored)
set -e
cd "$(dirname "$0")/engine"
export PATH=/opt/veriftools/go1.26.10/bin:$PATH GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GONOSUMDB=* GONOSUMCHECK=1 GOWORK=off GOROOT=/opt/veriftools/go1.26.10
mkdir -p ../bin
go build -o ../bin/gosym .
