// Package metric is a minimal offline stand-in for go.opentelemetry.io/otel/sdk/metric.
package metric

import (
	api "go.opentelemetry.io/otel/metric"
	"go.opentelemetry.io/otel/sdk/resource"
)

type InstrumentKind uint8

const (
	InstrumentKindCounter InstrumentKind = iota + 1
	InstrumentKindUpDownCounter
	InstrumentKindHistogram
	InstrumentKindObservableCounter
	InstrumentKindObservableUpDownCounter
	InstrumentKindObservableGauge
	InstrumentKindGauge
)

type Aggregation interface{}
type AggregationExplicitBucketHistogram struct {
	Boundaries []float64
	NoMinMax   bool
}
type AggregationDefault struct{}
type AggregationSelector func(InstrumentKind) Aggregation

func DefaultAggregationSelector(InstrumentKind) Aggregation { return AggregationDefault{} }

type Reader interface{}
type Option interface{}

type MeterProvider struct{ api.Provider }

func NewMeterProvider(o ...Option) *MeterProvider { return &MeterProvider{} }
func WithReader(r Reader) Option                  { return nil }
func WithResource(r *resource.Resource) Option    { return nil }
