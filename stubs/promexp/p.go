package prometheus

import (
	"github.com/prometheus/client_golang/prometheus"
	"go.opentelemetry.io/otel/sdk/metric"
)

type Exporter struct{}

func (*Exporter) R() {}

type Option func()

func WithRegisterer(prometheus.Registerer) Option               { return nil }
func WithoutUnits() Option                                      { return nil }
func WithAggregationSelector(metric.AggregationSelector) Option { return nil }
func New(...Option) (*Exporter, error)                          { return &Exporter{}, nil }
