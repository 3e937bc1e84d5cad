#!/bin/bash
# builds the engine into /verif/bin/engine
set -e
cd /verif/engine
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOENV=off CGO_ENABLED=0 GOCACHE=/verif/.cache/go-build GOFLAGS=-mod=mod GO111MODULE=on GOSUMDB=off
mkdir -p /verif/bin
go build -o /verif/bin/engine .
