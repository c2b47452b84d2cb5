// Package otel is a minimal offline stand-in for go.opentelemetry.io/otel.
package otel

import (
	"go.opentelemetry.io/otel/metric"
	"go.opentelemetry.io/otel/propagation"
	"go.opentelemetry.io/otel/trace"
)

var mp metric.MeterProvider = metric.Provider{}

func GetMeterProvider() metric.MeterProvider               { return mp }
func SetMeterProvider(p metric.MeterProvider)              { mp = p }
func SetTracerProvider(p trace.TracerProvider)             {}
func SetTextMapPropagator(p propagation.TextMapPropagator) {}
func Meter(name string) metric.Meter                       { return mp.Meter(name) }
