#!/bin/bash
# builds the verifier and warms the Go build cache (offline)
cd "$(dirname "$0")" || exit 1
export PATH=/opt/veriftools/go1.26.10/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod GOSUMDB=off CGO_ENABLED=0
mkdir -p build evidence
(cd gvc && go build -o ../build/gvc .) || exit 1
tools/mkmod.sh build/mod || exit 1
(cd "${REPO:-/repo}" && go build -modfile "$OLDPWD/build/mod/go.mod" ./internal/... ) || true
exit 0
