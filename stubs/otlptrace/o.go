package otlptrace

import "context"

type Client interface{}
type Exporter struct{}

func New(ctx context.Context, c Client) (*Exporter, error) { return &Exporter{}, nil }
func (*Exporter) Shutdown(context.Context) error           { return nil }
