#!/bin/bash
# Runs demo_test.go.txt (a test laid into the package named in its second line by an overlay) against the tree in
# the current directory. Exit 0: the behaviour is as described; nonzero: it is not. Works offline (stubs.tgz stands
# in for telemetry modules that are not on this machine).
here="$(cd "$(dirname "$0")" && pwd)"; repo="$PWD"
w="$(mktemp -d)"; trap 'rm -rf "$w"' EXIT
for d in /opt/veriftools/go1.26.10/bin; do [ -d $d ] && PATH=$d:$PATH; done
export PATH GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod GOSUMDB=off GOMODCACHE="${GOMODCACHE:-$(go env GOMODCACHE)}"
cp go.mod go.sum "$w/"
if [ -f "$here/stubs.tgz" ]; then
  tar xzf "$here/stubs.tgz" -C "$w"; s="$w/stubs"
  while read -r m d; do echo "replace $m => $s/$d" >> "$w/go.mod"; done <<'L'
go.opentelemetry.io/otel otel
go.opentelemetry.io/otel/metric metric
go.opentelemetry.io/otel/trace trace
go.opentelemetry.io/otel/sdk sdk
go.opentelemetry.io/otel/sdk/metric sdkmetric
go.opentelemetry.io/otel/exporters/prometheus promexp
go.opentelemetry.io/otel/exporters/otlp/otlptrace otlptrace
go.opentelemetry.io/otel/exporters/otlp/otlptrace/otlptracegrpc otlptracegrpc
go.opentelemetry.io/contrib/instrumentation/google.golang.org/grpc/otelgrpc otelgrpc
go.opentelemetry.io/contrib/instrumentation/go.mongodb.org/mongo-driver/v2/mongo/otelmongo otelmongo
github.com/redis/go-redis/extra/redisotel/v9 redisotel
L
fi
pkg="$(sed -n '2s#^// ##p' "$here/demo_test.go.txt")"
python3 - "$repo" "$pkg" "$here/demo_test.go.txt" "$w/ov.json" <<'P'
import sys,glob,json,os
repo,pkg,f,o=sys.argv[1:]
d=os.path.join(repo,pkg)
rep={t:"" for t in glob.glob(d+"/*_test.go")}
rep[os.path.join(d,"zz_demo_test.go")]=f
json.dump({"Replace":rep},open(o,"w"))
P
go test -vet=off -count=1 -timeout 120s -overlay "$w/ov.json" -modfile "$w/go.mod" -run TestDemo "./$pkg"
