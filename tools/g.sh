#!/bin/bash
# developer helper: run gvc for a property
export PATH=/opt/veriftools/go1.26.10/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod GOSUMDB=off
[ -f /tmp/w/go.mod ] || /verif/tools/mkmod.sh /tmp/w
cd /verif/gvc && go build -o /tmp/gvc . || exit 9
for p in $PROPS; do GVC_PANIC=${GVC_PANIC-1} /tmp/gvc -repo ${REPO:-/repo} -modfile /tmp/w/go.mod -specs /verif/contracts -prop $p -dump /tmp/d_$p "$@" 2>&1; done
