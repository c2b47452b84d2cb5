package otlptracegrpc

import "go.opentelemetry.io/otel/exporters/otlp/otlptrace"

type Option interface{}

func NewClient(o ...Option) otlptrace.Client { return nil }
