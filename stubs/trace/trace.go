// Package trace is an inert stand-in for go.opentelemetry.io/otel/trace (absent offline).
package trace

import (
	"context"

	"go.opentelemetry.io/otel/attribute"
)

type TracerProvider interface{ Tracer(string) any }
type TraceID [16]byte
type SpanID [8]byte

func (t TraceID) String() string { return "" }
func (t SpanID) String() string  { return "" }

type SpanContext struct{}

func (SpanContext) HasTraceID() bool { return false }
func (SpanContext) HasSpanID() bool  { return false }
func (SpanContext) IsValid() bool    { return false }
func (SpanContext) TraceID() TraceID { return TraceID{} }
func (SpanContext) SpanID() SpanID   { return SpanID{} }

type TraceFlags byte

func (f TraceFlags) String() string        { return "00" }
func (f TraceFlags) IsSampled() bool       { return false }
func (SpanContext) TraceFlags() TraceFlags { return 0 }

type Span interface {
	SpanContext() SpanContext
	SetAttributes(kv ...attribute.KeyValue)
}
type noopSpan struct{}

func (noopSpan) SpanContext() SpanContext                { return SpanContext{} }
func (noopSpan) SetAttributes(...attribute.KeyValue)     {}
func SpanFromContext(context.Context) Span               { return noopSpan{} }
func SpanContextFromContext(context.Context) SpanContext { return SpanContext{} }
