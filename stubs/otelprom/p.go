// Package prometheus is a minimal offline stand-in for
// go.opentelemetry.io/otel/exporters/prometheus: it exposes the observable
// gauges through the configured registry.
package prometheus

import (
	"context"

	"github.com/prometheus/client_golang/prometheus"
	api "go.opentelemetry.io/otel/metric"
	"go.opentelemetry.io/otel/sdk/metric"
)

type Exporter struct{}
type config struct{ reg prometheus.Registerer }
type Option func(*config)

// Aggregations holds the selector the repository configured.
var Aggregations metric.AggregationSelector

// Registerer is the registry the repository configured.
var Registerer prometheus.Registerer

func New(o ...Option) (*Exporter, error) {
	var c config
	for _, x := range o {
		if x != nil {
			x(&c)
		}
	}
	if c.reg == nil {
		c.reg = prometheus.DefaultRegisterer
	}
	Registerer = c.reg
	return &Exporter{}, c.reg.Register(collector{})
}
func WithRegisterer(r prometheus.Registerer) Option               { return func(c *config) { c.reg = r } }
func WithoutUnits() Option                                        { return nil }
func WithAggregationSelector(a metric.AggregationSelector) Option { Aggregations = a; return nil }

type collector struct{}

func (collector) Describe(chan<- *prometheus.Desc) {}

func (collector) Collect(ch chan<- prometheus.Metric) {
	ch <- prometheus.MustNewConstMetric(prometheus.NewDesc("target_info", "Target metadata", nil, prometheus.Labels{"service_name": "x"}), prometheus.GaugeValue, 1)
	for name, cbs := range api.Callbacks {
		o := &observer{values: map[string]int64{}, labels: map[string]prometheus.Labels{}}
		for _, cb := range cbs {
			if err := cb(context.Background(), o); err != nil {
				ch <- prometheus.NewInvalidMetric(prometheus.NewDesc(name, name, nil, nil), err)
			}
		}
		for k, v := range o.values {
			ch <- prometheus.MustNewConstMetric(prometheus.NewDesc(name, name, nil, o.labels[k]), prometheus.GaugeValue, float64(v))
		}
	}
}

type observer struct {
	values map[string]int64
	labels map[string]prometheus.Labels
}

func (o *observer) Observe(v int64, opts ...api.ObserveOption) {
	l, k := prometheus.Labels{}, ""
	for _, a := range api.Attrs(opts...) {
		l[string(a.Key)] = a.Value.AsString()
		k += string(a.Key) + "\x00" + a.Value.AsString() + "\x00"
	}
	o.values[k], o.labels[k] = v, l
}
