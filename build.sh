#!/bin/bash
# Builds the engine from the committed sources, offline.
cd "$(dirname "$0")/engine" || exit 3
export GOPROXY=off GOFLAGS=-mod=mod GOTOOLCHAIN=local GOWORK=off
sed "s/^package xgen/package main/" ../harness/tok.go > tok_gen.go
mkdir -p ../bin
go build -o ../bin/vpengine.$$ . && mv ../bin/vpengine.$$ ../bin/vpengine
