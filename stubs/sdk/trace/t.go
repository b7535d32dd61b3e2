package trace

import (
	"context"

	"go.opentelemetry.io/otel/sdk/resource"
)

type SpanExporter interface{ Shutdown(context.Context) error }
type TracerProvider struct{ exp SpanExporter }
type TracerProviderOption func(*TracerProvider)

func WithBatcher(e SpanExporter, o ...any) TracerProviderOption {
	return func(t *TracerProvider) { t.exp = e }
}
func WithResource(*resource.Resource) TracerProviderOption { return func(*TracerProvider) {} }
func NewTracerProvider(o ...TracerProviderOption) *TracerProvider {
	t := &TracerProvider{}
	for _, f := range o {
		f(t)
	}
	return t
}
func (t *TracerProvider) Tracer(string) any { return nil }
func (t *TracerProvider) Shutdown(ctx context.Context) error {
	if t.exp != nil {
		return t.exp.Shutdown(ctx)
	}
	return nil
}
