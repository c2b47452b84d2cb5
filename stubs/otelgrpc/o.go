package otelgrpc

import (
	"context"

	"google.golang.org/grpc/stats"
)

type Option interface{}
type h struct{}

func (h) TagRPC(ctx context.Context, _ *stats.RPCTagInfo) context.Context   { return ctx }
func (h) HandleRPC(context.Context, stats.RPCStats)                         {}
func (h) TagConn(ctx context.Context, _ *stats.ConnTagInfo) context.Context { return ctx }
func (h) HandleConn(context.Context, stats.ConnStats)                       {}

func NewServerHandler(o ...Option) stats.Handler { return h{} }
func NewClientHandler(o ...Option) stats.Handler { return h{} }
