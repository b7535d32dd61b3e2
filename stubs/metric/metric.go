// Package metric is an inert stand-in for go.opentelemetry.io/otel/metric (absent offline).
package metric

import (
	"context"

	"go.opentelemetry.io/otel/attribute"
)

type MeterProvider interface {
	Meter(name string, opts ...MeterOption) Meter
}
type MeterOption interface{ m() }
type Meter interface {
	Int64Counter(name string, o ...Int64CounterOption) (Int64Counter, error)
	Int64Histogram(name string, o ...Int64HistogramOption) (Int64Histogram, error)
	Int64ObservableGauge(name string, o ...Int64ObservableGaugeOption) (Int64ObservableGauge, error)
	Int64UpDownCounter(name string, o ...Int64CounterOption) (Int64Counter, error)
	Int64Gauge(name string, o ...Int64GaugeOption) (Int64Gauge, error)
}
type Int64UpDownCounter = Int64Counter
type Int64GaugeOption interface{ GaugeOpt() }
type Int64Gauge interface {
	Record(ctx context.Context, v int64, options ...RecordOption)
}
type Int64Counter interface {
	Add(ctx context.Context, incr int64, options ...AddOption)
}
type Int64Histogram interface {
	Record(ctx context.Context, incr int64, options ...RecordOption)
}
type Int64ObservableGauge interface{ Gauge() }
type Int64Observer interface {
	Observe(value int64, options ...ObserveOption)
}
type AddOption interface{ AddOpt() }
type RecordOption interface{ RecordOpt() }
type ObserveOption interface{ ObserveOpt() }
type MeasurementOption interface {
	AddOption
	RecordOption
	ObserveOption
}
type Int64CounterOption interface{ CounterOpt() }
type Int64HistogramOption interface{ HistOpt() }
type Int64ObservableGaugeOption interface{ GaugeOpt() }
type InstrumentOption interface {
	Int64CounterOption
	Int64HistogramOption
	Int64ObservableGaugeOption
}
type Int64Callback func(context.Context, Int64Observer) error

type AttrOpt struct{ Set attribute.Set }

func (AttrOpt) AddOpt()     {}
func (AttrOpt) RecordOpt()  {}
func (AttrOpt) ObserveOpt() {}

type instOpt struct{}

func (instOpt) CounterOpt() {}
func (instOpt) HistOpt()    {}
func (instOpt) GaugeOpt()   {}

func WithAttributes(a ...attribute.KeyValue) MeasurementOption {
	return AttrOpt{attribute.NewSet(a...)}
}
func WithAttributeSet(s attribute.Set) MeasurementOption             { return AttrOpt{s} }
func WithDescription(string) InstrumentOption                        { return instOpt{} }
func WithUnit(string) InstrumentOption                               { return instOpt{} }
func WithInt64Callback(Int64Callback) Int64ObservableGaugeOption     { return instOpt{} }
func WithExplicitBucketBoundaries(b ...float64) Int64HistogramOption { return instOpt{} }

type NoopProvider struct{}
type noopMeter struct{}
type noop struct{}

func (NoopProvider) Meter(string, ...MeterOption) Meter { return noopMeter{} }
func (noopMeter) Int64Counter(string, ...Int64CounterOption) (Int64Counter, error) {
	return noop{}, nil
}
func (noopMeter) Int64Histogram(string, ...Int64HistogramOption) (Int64Histogram, error) {
	return noop{}, nil
}
func (noopMeter) Int64ObservableGauge(string, ...Int64ObservableGaugeOption) (Int64ObservableGauge, error) {
	return noop{}, nil
}
func (noopMeter) Int64UpDownCounter(string, ...Int64CounterOption) (Int64Counter, error) {
	return noop{}, nil
}
func (noopMeter) Int64Gauge(string, ...Int64GaugeOption) (Int64Gauge, error) { return noop{}, nil }
func (noop) Add(context.Context, int64, ...AddOption)                        {}
func (noop) Record(context.Context, int64, ...RecordOption)                  {}
func (noop) Gauge()                                                          {}
