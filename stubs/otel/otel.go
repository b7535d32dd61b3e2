// Package otel is an inert stand-in for go.opentelemetry.io/otel (absent offline).
package otel

import (
	"go.opentelemetry.io/otel/metric"
	"go.opentelemetry.io/otel/propagation"
	"go.opentelemetry.io/otel/trace"
)

var mp metric.MeterProvider = metric.NoopProvider{}

func SetMeterProvider(p metric.MeterProvider)            { mp = p }
func GetMeterProvider() metric.MeterProvider             { return mp }
func SetTracerProvider(trace.TracerProvider)             {}
func SetTextMapPropagator(propagation.TextMapPropagator) {}
