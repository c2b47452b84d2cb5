package sut

import (
	"container/list"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"
	"unsafe"
)

type visit struct {
	p uintptr
	t reflect.Type
}

// dumper renders values reachable through deckard, container/list and go-cache
// types; everything else (clients, loggers, channels, functions) is opaque.
type dumper struct {
	b   []byte
	ids map[visit]int
}

var (
	timeT = reflect.TypeOf(time.Time{})
	listT = reflect.TypeOf(list.List{})
)

func transparent(t reflect.Type) bool {
	p := t.PkgPath()
	if strings.Contains(p, "/verifx/") {
		return false
	}
	return p == "" || strings.HasPrefix(p, "github.com/takenet/deckard") || p == "github.com/patrickmn/go-cache" || p == "google.golang.org/protobuf/types/known/anypb"
}

func expose(v reflect.Value) reflect.Value {
	if v.CanInterface() || !v.CanAddr() {
		return v
	}
	return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
}

func (d *dumper) str(s string) { d.b = append(d.b, s...) }

func (d *dumper) value(v reflect.Value, depth int) {
	if !v.IsValid() || depth > 40 {
		d.str("~")
		return
	}
	t := v.Type()
	switch t.Kind() {
	case reflect.Bool:
		d.b = strconv.AppendBool(d.b, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		d.b = strconv.AppendInt(d.b, v.Int(), 10)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		d.b = strconv.AppendUint(d.b, v.Uint(), 10)
	case reflect.Float32, reflect.Float64:
		d.b = strconv.AppendFloat(d.b, v.Float(), 'g', -1, 64)
	case reflect.String:
		d.b = strconv.AppendQuote(d.b, v.String())
	case reflect.Interface:
		if v.IsNil() {
			d.str("nil")
			return
		}
		d.value(v.Elem(), depth+1)
	case reflect.Pointer:
		if v.IsNil() {
			d.str("nil")
			return
		}
		if !transparent(t.Elem()) && t.Elem() != listT && t.Elem() != timeT {
			d.str("*")
			return
		}
		k := visit{v.Pointer(), t}
		if n, ok := d.ids[k]; ok {
			d.str("@" + strconv.Itoa(n))
			return
		}
		d.ids[k] = len(d.ids)
		d.value(v.Elem(), depth+1)
	case reflect.Slice, reflect.Array:
		d.str("[")
		for i := 0; i < v.Len(); i++ {
			d.value(v.Index(i), depth+1)
			d.str(",")
		}
		d.str("]")
	case reflect.Map:
		type kv struct{ k, v string }
		var es []kv
		it := v.MapRange()
		for it.Next() {
			kd := dumper{ids: map[visit]int{}}
			kd.value(it.Key(), depth+1)
			// values get their own numbering: map order must not matter
			vd := dumper{ids: map[visit]int{}}
			vd.value(it.Value(), depth+1)
			es = append(es, kv{string(kd.b), string(vd.b)})
		}
		sort.Slice(es, func(i, j int) bool { return es[i].k < es[j].k })
		d.str("{")
		for _, e := range es {
			d.str(e.k + ":" + e.v + ",")
		}
		d.str("}")
	case reflect.Struct:
		if t == timeT {
			if v.CanInterface() || v.CanAddr() {
				d.b = strconv.AppendInt(d.b, expose(v).Interface().(time.Time).UnixNano(), 10)
			} else {
				d.str("t" + strconv.FormatUint(v.Field(0).Uint(), 10) + "." + strconv.FormatInt(v.Field(1).Int(), 10))
			}
			return
		}
		if t == listT {
			if v.CanAddr() {
				l := (*list.List)(unsafe.Pointer(v.UnsafeAddr()))
				d.str("<")
				for e := l.Front(); e != nil; e = e.Next() {
					d.value(reflect.ValueOf(e.Value), depth+1)
					d.str(",")
				}
				d.str(">")
			}
			return
		}
		if !transparent(t) {
			d.str("#")
			return
		}
		d.str("(")
		for i := 0; i < t.NumField(); i++ {
			switch t.Field(i).Type.Kind() {
			case reflect.Chan, reflect.Func:
				continue
			}
			if t.Field(i).Name == "state" && strings.HasSuffix(t.PkgPath(), "anypb") {
				continue
			}
			d.value(v.Field(i), depth+1)
			d.str(";")
		}
		d.str(")")
	default:
		d.str("?")
	}
}

// Show is a canonical rendering of a value.
func Show(v any) string {
	d := dumper{ids: map[visit]int{}}
	d.value(reflect.ValueOf(v), 0)
	return string(d.b)
}
