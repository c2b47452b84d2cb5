// Package attribute is a minimal offline stand-in for go.opentelemetry.io/otel/attribute.
package attribute

import "sort"

type Key string

func (k Key) String(v string) KeyValue   { return KeyValue{k, Value{v}} }
func (k Key) Int64(v int64) KeyValue     { return KeyValue{k, Value{v}} }
func (k Key) Int(v int) KeyValue         { return KeyValue{k, Value{int64(v)}} }
func (k Key) Float64(v float64) KeyValue { return KeyValue{k, Value{v}} }
func (k Key) Bool(v bool) KeyValue       { return KeyValue{k, Value{v}} }

type Value struct{ v any }

func (v Value) AsString() string   { s, _ := v.v.(string); return s }
func (v Value) AsInt64() int64     { s, _ := v.v.(int64); return s }
func (v Value) AsFloat64() float64 { s, _ := v.v.(float64); return s }
func (v Value) AsBool() bool       { s, _ := v.v.(bool); return s }
func (v Value) AsInterface() any   { return v.v }

type KeyValue struct {
	Key   Key
	Value Value
}

func String(k, v string) KeyValue               { return KeyValue{Key(k), Value{v}} }
func StringSlice(k string, v []string) KeyValue { return KeyValue{Key(k), Value{v}} }
func Int64(k string, v int64) KeyValue          { return KeyValue{Key(k), Value{v}} }
func Int(k string, v int) KeyValue              { return KeyValue{Key(k), Value{int64(v)}} }
func Float64(k string, v float64) KeyValue      { return KeyValue{Key(k), Value{v}} }
func Bool(k string, v bool) KeyValue            { return KeyValue{Key(k), Value{v}} }
func Int64Slice(k string, v []int64) KeyValue   { return KeyValue{Key(k), Value{v}} }

type Set struct{ kvs []KeyValue }

func NewSet(kvs ...KeyValue) Set {
	s := append([]KeyValue(nil), kvs...)
	sort.SliceStable(s, func(i, j int) bool { return s[i].Key < s[j].Key })
	return Set{s}
}

func (s *Set) ToSlice() []KeyValue { return s.kvs }
func (s *Set) Len() int            { return len(s.kvs) }
func (s *Set) Value(k Key) (Value, bool) {
	for _, kv := range s.kvs {
		if kv.Key == k {
			return kv.Value, true
		}
	}
	return Value{}, false
}
