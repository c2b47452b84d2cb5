package mongofake

import (
	"bytes"
	"fmt"
	"strings"
	"time"

	"go.mongodb.org/mongo-driver/v2/bson"
)

type missingT struct{}

var missing any = missingT{}

func get(d bson.D, k string) any {
	for _, e := range d {
		if e.Key == k {
			return e.Value
		}
	}
	return nil
}

func getPath(d bson.D, p string) any {
	head, rest, more := strings.Cut(p, ".")
	for _, e := range d {
		if e.Key == head {
			if !more {
				return e.Value
			}
			if s, ok := e.Value.(bson.D); ok {
				return getPath(s, rest)
			}
			return missing
		}
	}
	return missing
}

func clone(d bson.D) bson.D {
	r := make(bson.D, len(d))
	for i, e := range d {
		r[i] = bson.E{Key: e.Key, Value: cloneV(e.Value)}
	}
	return r
}

func cloneV(v any) any {
	switch x := v.(type) {
	case bson.D:
		return clone(x)
	case bson.A:
		r := make(bson.A, len(x))
		for i := range x {
			r[i] = cloneV(x[i])
		}
		return r
	}
	return v
}

func equal(a, b bson.D) bool {
	x, e1 := bson.Marshal(a)
	y, e2 := bson.Marshal(b)
	return e1 == nil && e2 == nil && bytes.Equal(x, y)
}

func num(v any) float64 {
	switch x := v.(type) {
	case int32:
		return float64(x)
	case int64:
		return float64(x)
	case int:
		return float64(x)
	case float64:
		return x
	case bool:
		if x {
			return 1
		}
	}
	return 0
}

func rank(v any) int {
	switch v.(type) {
	case missingT, nil, bson.Null:
		return 1
	case int32, int64, float64, int:
		return 2
	case string, bson.Symbol:
		return 3
	case bson.D:
		return 4
	case bson.A:
		return 5
	case bson.Binary, []byte:
		return 6
	case bson.ObjectID:
		return 7
	case bool:
		return 8
	case bson.DateTime, time.Time:
		return 9
	}
	return 20
}

func ms(v any) int64 {
	switch x := v.(type) {
	case bson.DateTime:
		return int64(x)
	case time.Time:
		return x.UnixMilli()
	}
	return 0
}

func compare(a, b any) int {
	ra, rb := rank(a), rank(b)
	if ra != rb {
		if ra < rb {
			return -1
		}
		return 1
	}
	switch ra {
	case 1:
		return 0
	case 2:
		x, y := num(a), num(b)
		if x < y {
			return -1
		} else if x > y {
			return 1
		}
		return 0
	case 3:
		if x, ok := a.(string); ok {
			if y, ok := b.(string); ok {
				return strings.Compare(x, y)
			}
		}
		return strings.Compare(fmt.Sprint(a), fmt.Sprint(b))
	case 7:
		x, y := a.(bson.ObjectID), b.(bson.ObjectID)
		return bytes.Compare(x[:], y[:])
	case 8:
		x, y := num(a), num(b)
		return int(x - y)
	case 9:
		x, y := ms(a), ms(b)
		if x < y {
			return -1
		} else if x > y {
			return 1
		}
		return 0
	}
	x, _ := bson.Marshal(bson.D{{Key: "", Value: a}})
	y, _ := bson.Marshal(bson.D{{Key: "", Value: b}})
	return bytes.Compare(x, y)
}

func match(d, f bson.D) bool {
	for _, e := range f {
		switch e.Key {
		case "$and":
			for _, x := range e.Value.(bson.A) {
				if !match(d, x.(bson.D)) {
					return false
				}
			}
			continue
		case "$or":
			hit := false
			for _, x := range e.Value.(bson.A) {
				hit = hit || match(d, x.(bson.D))
			}
			if !hit {
				return false
			}
			continue
		case "$nor":
			for _, x := range e.Value.(bson.A) {
				if match(d, x.(bson.D)) {
					return false
				}
			}
			continue
		case "$comment":
			continue
		}
		if strings.HasPrefix(e.Key, "$") {
			panic("unsupported operator " + e.Key)
		}
		v := getPath(d, e.Key)
		if ops, ok := e.Value.(bson.D); ok && len(ops) > 0 && strings.HasPrefix(ops[0].Key, "$") {
			for _, o := range ops {
				if !op(v, o.Key, o.Value) {
					return false
				}
			}
			continue
		}
		if !eq(v, e.Value) {
			return false
		}
	}
	return true
}

func eq(v, w any) bool {
	if rank(v) != rank(w) {
		return false
	}
	return compare(v, w) == 0
}

func op(v any, o string, w any) bool {
	switch o {
	case "$eq":
		return eq(v, w)
	case "$ne":
		return !eq(v, w)
	case "$in", "$nin":
		if set, ok := w.(stringSet); ok {
			x, isS := v.(string)
			return (isS && set[x]) == (o == "$in")
		}
		hit := false
		for _, x := range w.(bson.A) {
			hit = hit || eq(v, x)
		}
		return hit == (o == "$in")
	case "$exists":
		return (v != missing) == (num(w) != 0)
	case "$gt", "$gte", "$lt", "$lte":
		if v == missing || rank(v) != rank(w) {
			return false
		}
		c := compare(v, w)
		switch o {
		case "$gt":
			return c > 0
		case "$gte":
			return c >= 0
		case "$lt":
			return c < 0
		}
		return c <= 0
	case "$not":
		for _, x := range w.(bson.D) {
			if !op(v, x.Key, x.Value) {
				return true
			}
		}
		return false
	}
	panic("unsupported operator " + o)
}

func setPath(d bson.D, p string, v any) (bson.D, string) {
	head, rest, more := strings.Cut(p, ".")
	if head == "" {
		return d, "The update path '" + p + "' contains an empty field name, which is not allowed."
	}
	for i, e := range d {
		if e.Key == head {
			if !more {
				d[i].Value = v
				return d, ""
			}
			sub, ok := e.Value.(bson.D)
			if !ok {
				return d, "Cannot create field '" + rest + "' in element {" + head + ": ...}"
			}
			ns, e := setPath(sub, rest, v)
			d[i].Value = ns
			return d, e
		}
	}
	if !more {
		return append(d, bson.E{Key: head, Value: v}), ""
	}
	ns, e := setPath(bson.D{}, rest, v)
	return append(d, bson.E{Key: head, Value: ns}), e
}

func unset(d bson.D, p string) bson.D {
	head, rest, more := strings.Cut(p, ".")
	for i, e := range d {
		if e.Key == head {
			if !more {
				return append(d[:i:i], d[i+1:]...)
			}
			if sub, ok := e.Value.(bson.D); ok {
				d[i].Value = unset(sub, rest)
			}
		}
	}
	return d
}

func add(a, b any) any {
	_, fa := a.(float64)
	_, fb := b.(float64)
	if fa || fb {
		return num(a) + num(b)
	}
	_, la := a.(int64)
	_, lb := b.(int64)
	s := int64(num(a)) + int64(num(b))
	if la || lb || s > 1<<31-1 || s < -1<<31 {
		return s
	}
	return int32(s)
}

func apply(d, u bson.D, insert bool) (bson.D, string) {
	if len(u) > 0 && !strings.HasPrefix(u[0].Key, "$") {
		id := get(d, "_id")
		nd := clone(u)
		if id != nil && get(nd, "_id") == nil {
			nd = append(bson.D{{Key: "_id", Value: id}}, nd...)
		}
		return nd, ""
	}
	seen := map[string]bool{}
	for _, o := range u {
		fs, ok := o.Value.(bson.D)
		if !ok {
			return d, "Modifiers operate on fields"
		}
		for _, e := range fs {
			for s := range seen {
				if s == e.Key || strings.HasPrefix(s, e.Key+".") || strings.HasPrefix(e.Key, s+".") {
					return d, "Updating the path '" + e.Key + "' would create a conflict at '" + e.Key + "'"
				}
			}
			seen[e.Key] = true
			var msg string
			switch o.Key {
			case "$set":
				d, msg = setPath(d, e.Key, cloneV(e.Value))
			case "$setOnInsert":
				if insert {
					d, msg = setPath(d, e.Key, cloneV(e.Value))
				}
			case "$inc":
				old := getPath(d, e.Key)
				if old == missing {
					d, msg = setPath(d, e.Key, e.Value)
				} else if rank(old) != 2 {
					msg = "Cannot apply $inc to a value of non-numeric type"
				} else {
					d, msg = setPath(d, e.Key, add(old, e.Value))
				}
			case "$unset":
				d = unset(d, e.Key)
			case "$max", "$min":
				old := getPath(d, e.Key)
				c := compare(e.Value, old)
				if old == missing || o.Key == "$max" && c > 0 || o.Key == "$min" && c < 0 {
					d, msg = setPath(d, e.Key, e.Value)
				}
			default:
				panic("unsupported update operator " + o.Key)
			}
			if msg != "" {
				return d, msg
			}
		}
	}
	return d, ""
}

func project(d, p bson.D) bson.D {
	if len(p) == 0 {
		return d
	}
	include := false
	for _, e := range p {
		if e.Key != "_id" && num(e.Value) != 0 {
			include = true
		}
	}
	if len(p) == 1 && p[0].Key == "_id" && num(p[0].Value) != 0 {
		include = true
	}
	if !include {
		for _, e := range p {
			if num(e.Value) == 0 {
				d = unset(d, e.Key)
			}
		}
		return d
	}
	r := bson.D{}
	idOff := false
	for _, e := range p {
		if e.Key == "_id" && num(e.Value) == 0 {
			idOff = true
		}
	}
	if v := getPath(d, "_id"); v != missing && !idOff {
		r = append(r, bson.E{Key: "_id", Value: v})
	}
	for _, e := range p {
		if e.Key == "_id" || num(e.Value) == 0 {
			continue
		}
		if v := getPath(d, e.Key); v != missing {
			r, _ = setPath(r, e.Key, v)
		}
	}
	return r
}

// stringSet is a prepared $in list.
type stringSet map[string]bool

// prepare speeds up a filter that is matched against many documents.
func prepare(f bson.D) bson.D {
	out := make(bson.D, len(f))
	for i, e := range f {
		out[i] = e
		switch v := e.Value.(type) {
		case bson.D:
			out[i].Value = prepare(v)
		case bson.A:
			if e.Key != "$in" && e.Key != "$nin" {
				a := make(bson.A, len(v))
				for j, x := range v {
					a[j] = x
					if d, ok := x.(bson.D); ok {
						a[j] = prepare(d)
					}
				}
				out[i].Value = a
				continue
			}
			set := stringSet{}
			for _, x := range v {
				if s, ok := x.(string); ok {
					set[s] = true
				} else {
					set = nil
					break
				}
			}
			if set != nil {
				out[i].Value = set
			}
		}
	}
	return out
}

// identity is the (queue, id) a filter or document names by equality.
func identity(d bson.D) (string, bool) {
	q, ok1 := get(d, "queue").(string)
	id, ok2 := get(d, "id").(string)
	return q + "\x00" + id, ok1 && ok2
}
