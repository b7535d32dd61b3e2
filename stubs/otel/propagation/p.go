package propagation

type TextMapPropagator interface{ Fields() []string }
type TraceContext struct{}
type Baggage struct{}

func (TraceContext) Fields() []string                                        { return nil }
func (Baggage) Fields() []string                                             { return nil }
func NewCompositeTextMapPropagator(p ...TextMapPropagator) TextMapPropagator { return TraceContext{} }
