#!/bin/bash
# builds the analyser from the committed sources, offline
cd "$(dirname "$0")" || exit 2
export PATH=/opt/veriftools/go1.26.10/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOSUMDB=off
mkdir -p bin && cd phpvet && GOFLAGS=-mod=vendor go build -o ../bin/phpvet .
