#!/bin/bash
set -e
cd "$(dirname "$0")"
mkdir -p bin evidence
cd checker && GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local CGO_ENABLED=0 go build -o ../bin/xv .
