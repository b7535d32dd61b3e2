#!/bin/bash
# mkmod.sh OUTDIR: writes OUTDIR/go.mod and go.sum = /repo's plus replace directives to the stubs.
set -e
here="$(cd "$(dirname "$0")/.." && pwd)"; repo="${REPO:-/repo}"; out="$1"; mkdir -p "$out"
cp "$repo/go.mod" "$out/go.mod"; cp "$repo/go.sum" "$out/go.sum"
r(){ echo "replace $1 => $here/stubs/$2" >> "$out/go.mod"; }
r go.opentelemetry.io/otel otel
r go.opentelemetry.io/otel/metric metric
r go.opentelemetry.io/otel/trace trace
r go.opentelemetry.io/otel/sdk sdk
r go.opentelemetry.io/otel/sdk/metric sdkmetric
r go.opentelemetry.io/otel/exporters/prometheus promexp
r go.opentelemetry.io/otel/exporters/otlp/otlptrace otlptrace
r go.opentelemetry.io/otel/exporters/otlp/otlptrace/otlptracegrpc otlptracegrpc
r go.opentelemetry.io/contrib/instrumentation/google.golang.org/grpc/otelgrpc otelgrpc
r go.opentelemetry.io/contrib/instrumentation/go.mongodb.org/mongo-driver/v2/mongo/otelmongo otelmongo
r github.com/redis/go-redis/extra/redisotel/v9 redisotel
