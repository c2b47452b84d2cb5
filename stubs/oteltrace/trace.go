// Package trace is a minimal offline stand-in for go.opentelemetry.io/otel/trace.
package trace

import (
	"context"

	"go.opentelemetry.io/otel/attribute"
)

type TraceID [16]byte
type SpanID [8]byte
type TraceFlags byte

func (TraceID) String() string    { return "" }
func (SpanID) String() string     { return "" }
func (TraceFlags) String() string { return "" }

type SpanContext struct{ traceID TraceID }

func (s SpanContext) HasTraceID() bool       { return s.traceID != TraceID{} }
func (s SpanContext) IsValid() bool          { return false }
func (s SpanContext) TraceID() TraceID       { return s.traceID }
func (s SpanContext) SpanID() SpanID         { return SpanID{} }
func (s SpanContext) TraceFlags() TraceFlags { return 0 }

type Span interface {
	SpanContext() SpanContext
	SetAttributes(kv ...attribute.KeyValue)
	IsRecording() bool
	RecordError(err error)
	End()
}
type noop struct{}

func (noop) SpanContext() SpanContext            { return SpanContext{} }
func (noop) SetAttributes(...attribute.KeyValue) {}
func (noop) IsRecording() bool                   { return false }
func (noop) RecordError(error)                   {}
func (noop) End()                                {}

type TracerProvider interface{}

func SpanFromContext(context.Context) Span               { return noop{} }
func SpanContextFromContext(context.Context) SpanContext { return SpanContext{} }
