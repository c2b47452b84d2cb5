// Package metric is a minimal offline stand-in for go.opentelemetry.io/otel/metric.
// Instruments do nothing unless Sink is set: they must not add synchronisation
// (it would hide races from the race detector).
package metric

import (
	"context"

	"go.opentelemetry.io/otel/attribute"
)

// Sink, if set before use, receives every measurement.
var Sink func(instrument string, value float64, attrs []attribute.KeyValue)

// Callbacks holds the observable-gauge callbacks by instrument name.
var Callbacks = map[string][]Int64Callback{}

type config struct {
	attrs []attribute.KeyValue
	cbs   []Int64Callback
}
type opt func(*config)

type MeasurementOption interface {
	AddOption
	RecordOption
	ObserveOption
}
type AddOption interface{ applyM(*config) }
type RecordOption interface{ applyM(*config) }
type ObserveOption interface{ applyM(*config) }
type InstrumentOption interface {
	Int64CounterOption
	Int64HistogramOption
	Int64ObservableGaugeOption
}
type Int64CounterOption interface{ applyI(*config) }
type Int64UpDownCounterOption interface{ applyI(*config) }
type Int64HistogramOption interface{ applyI(*config) }
type Int64GaugeOption interface{ applyI(*config) }
type Float64CounterOption interface{ applyI(*config) }
type Float64HistogramOption interface{ applyI(*config) }
type Int64ObservableGaugeOption interface{ applyI(*config) }
type Int64ObservableOption interface{ applyI(*config) }
type MeterOption interface{ applyMeter() }

func (o opt) applyM(c *config) { o(c) }
func (o opt) applyI(c *config) { o(c) }

func WithAttributes(a ...attribute.KeyValue) MeasurementOption {
	return opt(func(c *config) { c.attrs = append(c.attrs, a...) })
}
func WithAttributeSet(s attribute.Set) MeasurementOption {
	return opt(func(c *config) { c.attrs = append(c.attrs, s.ToSlice()...) })
}
func WithDescription(string) InstrumentOption { return opt(func(*config) {}) }
func WithUnit(string) InstrumentOption        { return opt(func(*config) {}) }
func WithExplicitBucketBoundaries(...float64) InstrumentOption {
	return opt(func(*config) {})
}
func WithInt64Callback(cb Int64Callback) Int64ObservableGaugeOption {
	return opt(func(c *config) { c.cbs = append(c.cbs, cb) })
}

type Int64Callback func(context.Context, Int64Observer) error
type Int64Observer interface {
	Observe(value int64, options ...ObserveOption)
}

type Int64Counter interface {
	Add(ctx context.Context, incr int64, options ...AddOption)
}
type Int64UpDownCounter interface {
	Add(ctx context.Context, incr int64, options ...AddOption)
}
type Float64Counter interface {
	Add(ctx context.Context, incr float64, options ...AddOption)
}
type Int64Histogram interface {
	Record(ctx context.Context, incr int64, options ...RecordOption)
}
type Int64Gauge interface {
	Record(ctx context.Context, incr int64, options ...RecordOption)
}
type Float64Histogram interface {
	Record(ctx context.Context, incr float64, options ...RecordOption)
}
type Int64ObservableGauge interface{ observable() }

type MeterProvider interface {
	Meter(name string, opts ...MeterOption) Meter
}
type Meter interface {
	Int64Counter(name string, options ...Int64CounterOption) (Int64Counter, error)
	Int64UpDownCounter(name string, options ...Int64UpDownCounterOption) (Int64UpDownCounter, error)
	Int64Histogram(name string, options ...Int64HistogramOption) (Int64Histogram, error)
	Int64Gauge(name string, options ...Int64GaugeOption) (Int64Gauge, error)
	Float64Counter(name string, options ...Float64CounterOption) (Float64Counter, error)
	Float64Histogram(name string, options ...Float64HistogramOption) (Float64Histogram, error)
	Int64ObservableGauge(name string, options ...Int64ObservableGaugeOption) (Int64ObservableGauge, error)
}

type Provider struct{}

func (Provider) Meter(string, ...MeterOption) Meter { return meter{} }

type meter struct{}
type inst struct{ name string }
type finst struct{ name string }

func (i inst) Add(_ context.Context, v int64, o ...AddOption) {
	if Sink != nil {
		var c config
		for _, x := range o {
			x.applyM(&c)
		}
		Sink(i.name, float64(v), c.attrs)
	}
}
func (i inst) Record(_ context.Context, v int64, o ...RecordOption) {
	if Sink != nil {
		var c config
		for _, x := range o {
			x.applyM(&c)
		}
		Sink(i.name, float64(v), c.attrs)
	}
}
func (i finst) Add(_ context.Context, v float64, o ...AddOption)       {}
func (i finst) Record(_ context.Context, v float64, o ...RecordOption) {}
func (i inst) observable()                                             {}

func (meter) Int64Counter(n string, _ ...Int64CounterOption) (Int64Counter, error) {
	return inst{n}, nil
}
func (meter) Int64UpDownCounter(n string, _ ...Int64UpDownCounterOption) (Int64UpDownCounter, error) {
	return inst{n}, nil
}
func (meter) Int64Histogram(n string, _ ...Int64HistogramOption) (Int64Histogram, error) {
	return inst{n}, nil
}
func (meter) Int64Gauge(n string, _ ...Int64GaugeOption) (Int64Gauge, error) { return inst{n}, nil }
func (meter) Float64Counter(n string, _ ...Float64CounterOption) (Float64Counter, error) {
	return finst{n}, nil
}
func (meter) Float64Histogram(n string, _ ...Float64HistogramOption) (Float64Histogram, error) {
	return finst{n}, nil
}
func (meter) Int64ObservableGauge(n string, o ...Int64ObservableGaugeOption) (Int64ObservableGauge, error) {
	var c config
	for _, x := range o {
		x.applyI(&c)
	}
	Callbacks[n] = append(Callbacks[n], c.cbs...)
	return inst{n}, nil
}

// Attrs resolves the attributes of observe options (used by harness observers).
func Attrs(o ...ObserveOption) []attribute.KeyValue {
	var c config
	for _, x := range o {
		x.applyM(&c)
	}
	return c.attrs
}
