module go.opentelemetry.io/otel/exporters/prometheus

go 1.24
