#!/bin/bash
# fulltest.sh: the repository's whole test suite (mocks generated, otel stubs) on a scratch copy of REPO.
set -e
export PATH=/opt/veriftools/go1.26.10/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod GOSUMDB=off
rm -rf /tmp/full; cp -a ${REPO:-/repo} /tmp/full; cd /tmp/full
if [ ! -x /tmp/mockgen ]; then
  rm -rf /tmp/mk; cp -r /root/go/pkg/mod/go.uber.org/mock@v0.6.0 /tmp/mk; chmod -R u+w /tmp/mk; (cd /tmp/mk; sed -i '/testify\|indirect/d' go.mod; sed -i 's#golang.org/x/mod .*#golang.org/x/mod v0.42.0#; s#golang.org/x/tools .*#golang.org/x/tools v0.52.0#' go.mod; go build -o /tmp/mockgen ./mockgen)
fi
mkdir -p internal/mocks
g(){ /tmp/mockgen -destination=internal/mocks/$1 -package=mocks -source=$2; }
g mock_audit.go internal/audit/audit.go; g mock_cache.go internal/queue/cache/cache.go; g mock_storage.go internal/queue/storage/storage.go
g mock_queue.go internal/queue/queue.go; g mock_queue_configuration_service.go internal/queue/queue_configuration_service.go
REPO=/tmp/full /verif/tools/mkmod.sh /tmp/w2
go test -modfile=/tmp/w2/go.mod -short ./... 2>&1 | grep -v "no test files" || true
