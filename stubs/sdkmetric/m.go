package metric

import (
	m "go.opentelemetry.io/otel/metric"
	"go.opentelemetry.io/otel/sdk/resource"
)

type InstrumentKind uint8

const (
	InstrumentKindUndefined InstrumentKind = iota
	InstrumentKindCounter
	InstrumentKindUpDownCounter
	InstrumentKindHistogram
)

type Aggregation interface{ A() }
type AggregationExplicitBucketHistogram struct {
	Boundaries []float64
	NoMinMax   bool
}

func (AggregationExplicitBucketHistogram) A() {}

type AggregationDefault struct{}

func (AggregationDefault) A() {}

type AggregationSelector func(InstrumentKind) Aggregation

func DefaultAggregationSelector(InstrumentKind) Aggregation { return AggregationDefault{} }

type Reader interface{ R() }
type Option interface{ o() }
type opt struct{}

func (opt) o()                               {}
func WithReader(Reader) Option               { return opt{} }
func WithResource(*resource.Resource) Option { return opt{} }

type MeterProvider struct{ m.NoopProvider }

func NewMeterProvider(...Option) *MeterProvider { return &MeterProvider{} }
