package sut

import (
	"fmt"
	"sort"
	"strings"

	prom "github.com/prometheus/client_golang/prometheus"
	dto "github.com/prometheus/client_model/go"
	"github.com/takenet/deckard/internal/metrics"
	exporter "go.opentelemetry.io/otel/exporters/prometheus"
)

// Families gathers everything the metrics endpoint exposes.
func Families() ([]*dto.MetricFamily, error) {
	g, ok := exporter.Registerer.(prom.Gatherer)
	if !ok {
		return nil, fmt.Errorf("the registry cannot be gathered")
	}
	return g.Gather()
}

// Gauges returns the exposed values of one gauge by its queue label.
func Gauges(name string) (map[string]float64, error) {
	fs, err := Families()
	if err != nil {
		return nil, err
	}
	r := map[string]float64{}
	for _, f := range fs {
		if f.GetName() != name {
			continue
		}
		for _, m := range f.Metric {
			q, n := "", 0
			for _, l := range m.Label {
				if l.GetName() == "queue" {
					q = l.GetValue()
					n++
				}
			}
			if n != 1 {
				return nil, fmt.Errorf("a sample of %s carries %d queue labels", name, n)
			}
			if _, dup := r[q]; dup {
				return nil, fmt.Errorf("%s is exposed twice for %q", name, q)
			}
			r[q] = m.GetGauge().GetValue()
		}
	}
	return r, nil
}

// ResetMetrics forgets the queue metrics of earlier histories.
func ResetMetrics() {
	metrics.MetricsMap.UpdateOldestElementMap(nil)
	metrics.MetricsMap.UpdateTotalElementsMap(nil)
}

func metricsDump() string {
	t, _ := Gauges("deckard_total_messages")
	var ks []string
	for k, v := range t {
		ks = append(ks, fmt.Sprintf("%q=%v", k, v))
	}
	o, _ := Gauges("deckard_oldest_message")
	for k := range o {
		ks = append(ks, fmt.Sprintf("%q", k))
	}
	sort.Strings(ks)
	return strings.Join(ks, ";")
}
