package otelmongo

import "go.mongodb.org/mongo-driver/v2/event"

type Option interface{}

func NewMonitor(o ...Option) *event.CommandMonitor { return &event.CommandMonitor{} }
