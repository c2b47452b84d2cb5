package trace

import (
	"context"

	"go.opentelemetry.io/otel/sdk/resource"
)

type SpanExporter interface {
	Shutdown(ctx context.Context) error
}
type TracerProvider struct{}
type TracerProviderOption interface{}

func NewTracerProvider(o ...TracerProviderOption) *TracerProvider { return &TracerProvider{} }
func (*TracerProvider) Shutdown(context.Context) error            { return nil }
func (*TracerProvider) ForceFlush(context.Context) error          { return nil }
func WithBatcher(e SpanExporter, o ...any) TracerProviderOption   { return nil }
func WithResource(r *resource.Resource) TracerProviderOption      { return nil }
