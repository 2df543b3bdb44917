#!/bin/bash
# check.sh ID: decide one property on /repo's current source.
cd "$(dirname "$0")" || exit 2
export PATH=/opt/veriftools/go1.26.10/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOSUMDB=off
[ -n "$HOME" ] || export HOME=/root
if [ ! -x bin/phpvet ] || [ -n "$(find phpvet -maxdepth 1 \( -name '*.go' -o -name go.mod \) -newer bin/phpvet | head -1)" ]; then
  mkdir -p bin && (cd phpvet && GOFLAGS=-mod=vendor go build -o ../bin/phpvet .) || exit 2
fi
exec bin/phpvet -dir "${REPO:-/repo}" -verif "$PWD" -property "$1"
