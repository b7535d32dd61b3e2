// Package attribute is an inert stand-in for go.opentelemetry.io/otel/attribute (absent offline).
package attribute

type Key string
type Value struct{ v any }
type KeyValue struct {
	Key   Key
	Value Value
}
type Set struct{ kvs []KeyValue }

func (k Key) String(v string) KeyValue          { return KeyValue{k, Value{v}} }
func (v Value) AsInterface() any                { return v.v }
func String(k string, v string) KeyValue        { return KeyValue{Key(k), Value{v}} }
func Int64(k string, v int64) KeyValue          { return KeyValue{Key(k), Value{v}} }
func Float64(k string, v float64) KeyValue      { return KeyValue{Key(k), Value{v}} }
func StringSlice(k string, v []string) KeyValue { return KeyValue{Key(k), Value{v}} }
func Bool(k string, v bool) KeyValue            { return KeyValue{Key(k), Value{v}} }
func Int(k string, v int) KeyValue              { return KeyValue{Key(k), Value{v}} }
func NewSet(kvs ...KeyValue) Set                { return Set{kvs} }
func (s *Set) ToSlice() []KeyValue              { return s.kvs }

func (k Key) Int64(v int64) KeyValue          { return KeyValue{k, Value{v}} }
func (k Key) Int(v int) KeyValue              { return KeyValue{k, Value{v}} }
func (k Key) Bool(v bool) KeyValue            { return KeyValue{k, Value{v}} }
func (k Key) Float64(v float64) KeyValue      { return KeyValue{k, Value{v}} }
func StringValue(v string) Value              { return Value{v} }
func Int64Value(v int64) Value                { return Value{v} }
func BoolValue(v bool) Value                  { return Value{v} }
func (v Value) AsString() string              { s, _ := v.v.(string); return s }
func (v Value) AsInt64() int64                { s, _ := v.v.(int64); return s }
func (v Value) AsBool() bool                  { s, _ := v.v.(bool); return s }
func (v Value) Emit() string                  { s, _ := v.v.(string); return s }
func (kv KeyValue) Valid() bool               { return kv.Key != "" }
func Int64Slice(k string, v []int64) KeyValue { return KeyValue{Key(k), Value{v}} }
func EmptySet() *Set                          { return &Set{} }
func (s *Set) Len() int                       { return len(s.kvs) }
func (s *Set) HasValue(k Key) bool            { _, ok := s.Value(k); return ok }
func (s *Set) Value(k Key) (Value, bool) {
	for _, kv := range s.kvs {
		if kv.Key == k {
			return kv.Value, true
		}
	}
	return Value{}, false
}
