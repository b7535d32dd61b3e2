package otlptracegrpc

import "go.opentelemetry.io/otel/exporters/otlp/otlptrace"

type c struct{}

func (c) C()                            {}
func NewClient(...any) otlptrace.Client { return c{} }
