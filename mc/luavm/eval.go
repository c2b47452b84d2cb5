package luavm

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
)

// Value is nil, bool, float64, string, *Table or *Func.
type Value interface{}

// Table is a Lua table.
type Table struct {
	arr  []Value // 1..n
	hash map[Value]Value
	keys []Value // insertion order of hash keys, for deterministic iteration
}

func NewTable() *Table { return &Table{} }

func (t *Table) Get(k Value) Value {
	if f, ok := k.(float64); ok {
		if i := int(f); float64(i) == f && i >= 1 && i <= len(t.arr) {
			return t.arr[i-1]
		}
	}
	if t.hash == nil {
		return nil
	}
	return t.hash[k]
}

func (t *Table) Set(k, v Value) {
	if f, ok := k.(float64); ok {
		i := int(f)
		if float64(i) == f && i >= 1 {
			if i <= len(t.arr) {
				t.arr[i-1] = v
				if v == nil && i == len(t.arr) {
					for len(t.arr) > 0 && t.arr[len(t.arr)-1] == nil {
						t.arr = t.arr[:len(t.arr)-1]
					}
				}
				return
			}
			if i == len(t.arr)+1 {
				if v == nil {
					t.hset(k, nil)
					return
				}
				t.hset(k, nil)
				t.arr = append(t.arr, v)
				for {
					n := float64(len(t.arr) + 1)
					x, ok := t.hash[n]
					if !ok || x == nil {
						break
					}
					t.hset(n, nil)
					t.arr = append(t.arr, x)
				}
				return
			}
		}
	}
	t.hset(k, v)
}

func (t *Table) hset(k, v Value) {
	if v == nil {
		if t.hash != nil {
			if _, ok := t.hash[k]; ok {
				delete(t.hash, k)
				for i := range t.keys {
					if t.keys[i] == k {
						t.keys = append(t.keys[:i:i], t.keys[i+1:]...)
						break
					}
				}
			}
		}
		return
	}
	if t.hash == nil {
		t.hash = map[Value]Value{}
	}
	if _, ok := t.hash[k]; !ok {
		t.keys = append(t.keys, k)
	}
	t.hash[k] = v
}

// Len is the border used by the # operator.
func (t *Table) Len() int       { return len(t.arr) }
func (t *Table) Append(v Value) { t.arr = append(t.arr, v) }
func (t *Table) next(k Value) (Value, Value, bool) {
	idx := 0
	if k != nil {
		found := false
		if f, ok := k.(float64); ok {
			if i := int(f); float64(i) == f && i >= 1 && i <= len(t.arr) {
				idx, found = i, true
			}
		}
		if !found {
			for i := range t.keys {
				if t.keys[i] == k {
					idx, found = len(t.arr)+i+1, true
					break
				}
			}
		}
		if !found {
			return nil, nil, false
		}
	}
	for ; idx < len(t.arr); idx++ {
		if t.arr[idx] != nil {
			return float64(idx + 1), t.arr[idx], true
		}
	}
	if h := idx - len(t.arr); h < len(t.keys) {
		return t.keys[h], t.hash[t.keys[h]], true
	}
	return nil, nil, true
}

// Func is a Lua or host function.
type Func struct {
	host func(vm *VM, args []Value) []Value
	def  *eFunc
	env  *scope
	va   []Value
}

func HostFunc(f func(vm *VM, args []Value) []Value) *Func { return &Func{host: f} }

// Error is a Lua error value being raised.
type Error struct{ V Value }

func (e Error) Error() string {
	if t, ok := e.V.(*Table); ok {
		if s, ok := t.Get("err").(string); ok {
			return s
		}
	}
	return ToString(e.V)
}

type cell struct{ v Value }
type scope struct {
	vars   map[string]*cell
	parent *scope
	va     []Value
}

func (s *scope) lookup(n string) *cell {
	for x := s; x != nil; x = x.parent {
		if c, ok := x.vars[n]; ok {
			return c
		}
	}
	return nil
}
func (s *scope) child() *scope { return &scope{parent: s, va: s.va} }
func (s *scope) declare(n string, v Value) {
	if s.vars == nil {
		s.vars = map[string]*cell{}
	}
	s.vars[n] = &cell{v}
}

// VM runs one chunk.
type VM struct {
	Globals map[string]Value
	// ProtectGlobals makes accesses to undefined globals an error, as Redis does.
	ProtectGlobals bool
	steps          int
	MaxSteps       int
	// MaxUnpack is the number of results unpack may produce (Lua C stack limit).
	MaxUnpack int
}

// Chunk is a compiled script.
type Chunk struct{ body []stmt }

func Compile(src string) (*Chunk, error) {
	b, err := parse(src)
	if err != nil {
		return nil, err
	}
	return &Chunk{b}, nil
}

func New() *VM {
	vm := &VM{Globals: map[string]Value{}, MaxSteps: 50_000_000, MaxUnpack: 7990}
	vm.installStd()
	return vm
}

// Run executes the chunk and returns its results.
func (vm *VM) Run(c *Chunk) (res []Value, err error) {
	defer func() {
		if r := recover(); r != nil {
			if le, ok := r.(Error); ok {
				err = le
				return
			}
			panic(r)
		}
	}()
	sc := &scope{}
	ctl, vals := vm.block(c.body, sc)
	if ctl == ctlReturn {
		return vals, nil
	}
	return nil, nil
}

func raise(f string, a ...any) { panic(Error{fmt.Sprintf(f, a...)}) }

type ctl int

const (
	ctlNone ctl = iota
	ctlBreak
	ctlReturn
)

func (vm *VM) tick() {
	vm.steps++
	if vm.steps > vm.MaxSteps {
		raise("script exceeded the step limit")
	}
}

func (vm *VM) block(b []stmt, sc *scope) (ctl, []Value) {
	for _, s := range b {
		vm.tick()
		switch s := s.(type) {
		case sLocal:
			vals := vm.exprs(s.exprs, sc)
			for i, n := range s.names {
				var v Value
				if i < len(vals) {
					v = vals[i]
				}
				sc.declare(n, v)
			}
		case sAssign:
			vals := vm.exprs(s.exprs, sc)
			for i, l := range s.lhs {
				var v Value
				if i < len(vals) {
					v = vals[i]
				}
				vm.assign(l, v, sc)
			}
		case sCall:
			vm.multi(s.e, sc)
		case sDo:
			if c, v := vm.block(s.body, sc.child()); c != ctlNone {
				return c, v
			}
		case sIf:
			done := false
			for i, cnd := range s.conds {
				if truthy(vm.one(cnd, sc)) {
					if c, v := vm.block(s.blocks[i], sc.child()); c != ctlNone {
						return c, v
					}
					done = true
					break
				}
			}
			if !done && s.els != nil {
				if c, v := vm.block(s.els, sc.child()); c != ctlNone {
					return c, v
				}
			}
		case sWhile:
			for truthy(vm.one(s.cond, sc)) {
				vm.tick()
				c, v := vm.block(s.body, sc.child())
				if c == ctlBreak {
					break
				}
				if c == ctlReturn {
					return c, v
				}
			}
		case sRepeat:
			for {
				vm.tick()
				in := sc.child()
				c, v := vm.block(s.body, in)
				if c == ctlBreak {
					break
				}
				if c == ctlReturn {
					return c, v
				}
				if truthy(vm.one(s.cond, in)) {
					break
				}
			}
		case sNumFor:
			a := vm.num(vm.one(s.a, sc), "'for' initial value must be a number")
			e := vm.num(vm.one(s.b, sc), "'for' limit must be a number")
			st := 1.0
			if s.c != nil {
				st = vm.num(vm.one(s.c, sc), "'for' step must be a number")
			}
			for i := a; st > 0 && i <= e || st <= 0 && i >= e; i += st {
				vm.tick()
				in := sc.child()
				in.declare(s.name, i)
				c, v := vm.block(s.body, in)
				if c == ctlBreak {
					break
				}
				if c == ctlReturn {
					return c, v
				}
			}
		case sGenFor:
			vals := vm.exprs(s.exprs, sc)
			for len(vals) < 3 {
				vals = append(vals, nil)
			}
			f, st, k := vals[0], vals[1], vals[2]
			for {
				vm.tick()
				rs := vm.call(f, []Value{st, k}, 0)
				if len(rs) == 0 || rs[0] == nil {
					break
				}
				k = rs[0]
				in := sc.child()
				for i, n := range s.names {
					var v Value
					if i < len(rs) {
						v = rs[i]
					}
					in.declare(n, v)
				}
				c, v := vm.block(s.body, in)
				if c == ctlBreak {
					break
				}
				if c == ctlReturn {
					return c, v
				}
			}
		case sLocalFunc:
			sc.declare(s.name, nil)
			sc.vars[s.name].v = &Func{def: s.f, env: sc}
		case sReturn:
			return ctlReturn, vm.exprs(s.exprs, sc)
		case sBreak:
			return ctlBreak, nil
		default:
			raise("internal: unknown statement %T", s)
		}
	}
	return ctlNone, nil
}

func (vm *VM) assign(l expr, v Value, sc *scope) {
	switch l := l.(type) {
	case eName:
		if c := sc.lookup(l.name); c != nil {
			c.v = v
			return
		}
		if vm.ProtectGlobals {
			raise("Script attempted to create global variable '%s'", l.name)
		}
		vm.Globals[l.name] = v
	case eIndex:
		o := vm.one(l.obj, sc)
		t, ok := o.(*Table)
		if !ok {
			raise("line %d: attempt to index a %s value", l.line, TypeName(o))
		}
		k := vm.one(l.key, sc)
		if k == nil {
			raise("line %d: table index is nil", l.line)
		}
		t.Set(k, v)
	}
}

func (vm *VM) exprs(es []expr, sc *scope) []Value {
	if len(es) == 0 {
		return nil
	}
	out := make([]Value, 0, len(es))
	for i, e := range es {
		if i == len(es)-1 {
			out = append(out, vm.multi(e, sc)...)
		} else {
			out = append(out, vm.one(e, sc))
		}
	}
	return out
}

func (vm *VM) multi(e expr, sc *scope) []Value {
	switch e := e.(type) {
	case eCall:
		return vm.call(vm.one(e.fn, sc), vm.exprs(e.args, sc), e.line)
	case eMethod:
		o := vm.one(e.obj, sc)
		f := vm.index(o, e.name, e.line)
		return vm.call(f, append([]Value{o}, vm.exprs(e.args, sc)...), e.line)
	case eVararg:
		return sc.va
	}
	return []Value{vm.one(e, sc)}
}

func (vm *VM) index(o, k Value, line int) Value {
	switch t := o.(type) {
	case *Table:
		return t.Get(k)
	case string:
		if s, ok := vm.Globals["string"].(*Table); ok {
			return s.Get(k)
		}
	}
	raise("line %d: attempt to index a %s value (field '%s')", line, TypeName(o), ToString(k))
	return nil
}

func (vm *VM) one(e expr, sc *scope) Value {
	vm.tick()
	switch e := e.(type) {
	case eNil:
		return nil
	case eTrue:
		return true
	case eFalse:
		return false
	case eNum:
		return e.v
	case eStr:
		return e.v
	case eParen:
		return vm.one(e.e, sc)
	case eName:
		if c := sc.lookup(e.name); c != nil {
			return c.v
		}
		v, ok := vm.Globals[e.name]
		if !ok && vm.ProtectGlobals {
			raise("Script attempted to access nonexistent global variable '%s'", e.name)
		}
		return v
	case eIndex:
		return vm.index(vm.one(e.obj, sc), vm.one(e.key, sc), e.line)
	case *eFunc:
		return &Func{def: e, env: sc}
	case eTable:
		t := NewTable()
		for i, x := range e.arr {
			if e.keys[i] != nil {
				k := vm.one(e.keys[i], sc)
				t.Set(k, vm.one(x, sc))
				continue
			}
			if i == len(e.arr)-1 {
				for _, v := range vm.multi(x, sc) {
					t.Append(v)
				}
			} else {
				t.Append(vm.one(x, sc))
			}
		}
		return t
	case eUn:
		v := vm.one(e.a, sc)
		switch e.op {
		case "not":
			return !truthy(v)
		case "-":
			return -vm.num(v, fmt.Sprintf("line %d: attempt to perform arithmetic on a %s value", e.line, TypeName(v)))
		case "#":
			switch x := v.(type) {
			case *Table:
				return float64(x.Len())
			case string:
				return float64(len(x))
			}
			raise("line %d: attempt to get length of a %s value", e.line, TypeName(v))
		}
	case eBin:
		switch e.op {
		case "and":
			a := vm.one(e.a, sc)
			if !truthy(a) {
				return a
			}
			return vm.one(e.b, sc)
		case "or":
			a := vm.one(e.a, sc)
			if truthy(a) {
				return a
			}
			return vm.one(e.b, sc)
		}
		return vm.binop(e.op, vm.one(e.a, sc), vm.one(e.b, sc), e.line)
	case eCall, eMethod, eVararg:
		rs := vm.multi(e, sc)
		if len(rs) == 0 {
			return nil
		}
		return rs[0]
	}
	raise("internal: unknown expression %T", e)
	return nil
}

func truthy(v Value) bool { return v != nil && v != false }

func (vm *VM) num(v Value, msg string) float64 {
	f, ok := ToNumber(v)
	if !ok {
		raise("%s", msg)
	}
	return f
}

func (vm *VM) binop(op string, a, b Value, line int) Value {
	switch op {
	case "==":
		return a == b
	case "~=":
		return a != b
	case "..":
		_, an := a.(float64)
		_, as := a.(string)
		_, bn := b.(float64)
		_, bs := b.(string)
		if !(an || as) || !(bn || bs) {
			x := a
			if an || as {
				x = b
			}
			raise("line %d: attempt to concatenate a %s value", line, TypeName(x))
		}
		return ToString(a) + ToString(b)
	case "<", "<=", ">", ">=":
		if x, ok := a.(float64); ok {
			if y, ok := b.(float64); ok {
				switch op {
				case "<":
					return x < y
				case "<=":
					return x <= y
				case ">":
					return x > y
				}
				return x >= y
			}
		}
		if x, ok := a.(string); ok {
			if y, ok := b.(string); ok {
				switch op {
				case "<":
					return x < y
				case "<=":
					return x <= y
				case ">":
					return x > y
				}
				return x >= y
			}
		}
		raise("line %d: attempt to compare %s with %s", line, TypeName(a), TypeName(b))
	}
	x, ok1 := ToNumber(a)
	y, ok2 := ToNumber(b)
	if !ok1 || !ok2 {
		w := a
		if ok1 {
			w = b
		}
		raise("line %d: attempt to perform arithmetic on a %s value", line, TypeName(w))
	}
	switch op {
	case "+":
		return x + y
	case "-":
		return x - y
	case "*":
		return x * y
	case "/":
		return x / y
	case "%":
		return x - math.Floor(x/y)*y
	case "^":
		return math.Pow(x, y)
	}
	raise("internal: unknown operator %s", op)
	return nil
}

func (vm *VM) call(f Value, args []Value, line int) []Value {
	fn, ok := f.(*Func)
	if !ok {
		raise("line %d: attempt to call a %s value", line, TypeName(f))
	}
	if fn.host != nil {
		return fn.host(vm, args)
	}
	sc := fn.env.child()
	sc.va = nil
	for i, p := range fn.def.params {
		var v Value
		if i < len(args) {
			v = args[i]
		}
		sc.declare(p, v)
	}
	if fn.def.vararg && len(args) > len(fn.def.params) {
		sc.va = args[len(fn.def.params):]
	}
	c, vals := vm.block(fn.def.body, sc)
	if c == ctlReturn {
		return vals
	}
	return nil
}

func TypeName(v Value) string {
	switch v.(type) {
	case nil:
		return "nil"
	case bool:
		return "boolean"
	case float64:
		return "number"
	case string:
		return "string"
	case *Table:
		return "table"
	case *Func:
		return "function"
	}
	return "userdata"
}

func ToNumber(v Value) (float64, bool) {
	switch x := v.(type) {
	case float64:
		return x, true
	case string:
		return parseNumber(x)
	}
	return 0, false
}

// FormatNumber is C's %.{prec}g.
func FormatNumber(f float64, prec int) string {
	if math.IsInf(f, 1) {
		return "inf"
	}
	if math.IsInf(f, -1) {
		return "-inf"
	}
	if math.IsNaN(f) {
		return "nan"
	}
	if f == math.Trunc(f) && math.Abs(f) < 1e14 {
		return strconv.FormatFloat(f, 'f', 0, 64)
	}
	s := strconv.FormatFloat(f, 'e', prec-1, 64)
	mant, exps, _ := strings.Cut(s, "e")
	ex, _ := strconv.Atoi(exps)
	if ex < -4 || ex >= prec {
		if strings.Contains(mant, ".") {
			mant = strings.TrimRight(strings.TrimRight(mant, "0"), ".")
		}
		sign := "+"
		if ex < 0 {
			sign, ex = "-", -ex
		}
		return fmt.Sprintf("%se%s%02d", mant, sign, ex)
	}
	s = strconv.FormatFloat(f, 'f', prec-1-ex, 64)
	if strings.Contains(s, ".") {
		s = strings.TrimRight(strings.TrimRight(s, "0"), ".")
	}
	return s
}

func ToString(v Value) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case bool:
		if x {
			return "true"
		}
		return "false"
	case float64:
		return FormatNumber(x, 14)
	case string:
		return x
	case *Table:
		return "table"
	case *Func:
		return "function"
	}
	return "?"
}

func arg(a []Value, i int) Value {
	if i < len(a) {
		return a[i]
	}
	return nil
}

func (vm *VM) installStd() {
	g := vm.Globals
	def := func(name string, f func(vm *VM, a []Value) []Value) { g[name] = HostFunc(f) }
	tab := func(a []Value, i int, fn string) *Table {
		t, ok := arg(a, i).(*Table)
		if !ok {
			raise("bad argument #%d to '%s' (table expected, got %s)", i+1, fn, TypeName(arg(a, i)))
		}
		return t
	}
	numA := func(a []Value, i int, fn string) float64 {
		f, ok := ToNumber(arg(a, i))
		if !ok {
			raise("bad argument #%d to '%s' (number expected, got %s)", i+1, fn, TypeName(arg(a, i)))
		}
		return f
	}
	strA := func(a []Value, i int, fn string) string {
		switch x := arg(a, i).(type) {
		case string:
			return x
		case float64:
			return ToString(x)
		}
		raise("bad argument #%d to '%s' (string expected, got %s)", i+1, fn, TypeName(arg(a, i)))
		return ""
	}
	def("tostring", func(_ *VM, a []Value) []Value { return []Value{ToString(arg(a, 0))} })
	def("tonumber", func(_ *VM, a []Value) []Value {
		if f, ok := ToNumber(arg(a, 0)); ok {
			return []Value{f}
		}
		return []Value{nil}
	})
	def("type", func(_ *VM, a []Value) []Value { return []Value{TypeName(arg(a, 0))} })
	next := HostFunc(func(_ *VM, a []Value) []Value {
		k, v, ok := tab(a, 0, "next").next(arg(a, 1))
		if !ok {
			raise("invalid key to 'next'")
		}
		if k == nil {
			return []Value{nil}
		}
		return []Value{k, v}
	})
	g["next"] = next
	def("pairs", func(_ *VM, a []Value) []Value { return []Value{next, tab(a, 0, "pairs"), nil} })
	inext := HostFunc(func(_ *VM, a []Value) []Value {
		i := arg(a, 1).(float64) + 1
		v := arg(a, 0).(*Table).Get(i)
		if v == nil {
			return []Value{nil}
		}
		return []Value{i, v}
	})
	def("ipairs", func(_ *VM, a []Value) []Value { return []Value{inext, tab(a, 0, "ipairs"), float64(0)} })
	unpack := func(vm *VM, a []Value) []Value {
		t := tab(a, 0, "unpack")
		i, j := 1, t.Len()
		if arg(a, 1) != nil {
			i = int(numA(a, 1, "unpack"))
		}
		if arg(a, 2) != nil {
			j = int(numA(a, 2, "unpack"))
		}
		if j-i+1 > vm.MaxUnpack {
			raise("too many results to unpack")
		}
		var out []Value
		for k := i; k <= j; k++ {
			out = append(out, t.Get(float64(k)))
		}
		return out
	}
	def("unpack", unpack)
	def("select", func(_ *VM, a []Value) []Value {
		if s, ok := arg(a, 0).(string); ok && s == "#" {
			return []Value{float64(len(a) - 1)}
		}
		n := int(numA(a, 0, "select"))
		if n < 0 {
			n = len(a) + n
		}
		if n < 1 {
			raise("bad argument #1 to 'select' (index out of range)")
		}
		if n >= len(a) {
			return nil
		}
		return a[n:]
	})
	def("error", func(_ *VM, a []Value) []Value { panic(Error{arg(a, 0)}) })
	def("assert", func(_ *VM, a []Value) []Value {
		if !truthy(arg(a, 0)) {
			m := arg(a, 1)
			if m == nil {
				m = "assertion failed!"
			}
			panic(Error{m})
		}
		return a
	})
	def("pcall", func(vm *VM, a []Value) (res []Value) {
		defer func() {
			if r := recover(); r != nil {
				if le, ok := r.(Error); ok {
					res = []Value{false, le.V}
					return
				}
				panic(r)
			}
		}()
		if len(a) == 0 {
			raise("bad argument #1 to 'pcall'")
		}
		return append([]Value{true}, vm.call(a[0], a[1:], 0)...)
	})

	t := NewTable()
	g["table"] = t
	t.Set("insert", HostFunc(func(_ *VM, a []Value) []Value {
		tb := tab(a, 0, "insert")
		switch len(a) {
		case 2:
			tb.Set(float64(tb.Len()+1), a[1])
		case 3:
			pos := int(numA(a, 1, "insert"))
			n := tb.Len() + 1
			if pos > n {
				n = pos
			}
			for i := n; i > pos; i-- {
				tb.Set(float64(i), tb.Get(float64(i-1)))
			}
			tb.Set(float64(pos), a[2])
		default:
			raise("wrong number of arguments to 'insert'")
		}
		return nil
	}))
	t.Set("remove", HostFunc(func(_ *VM, a []Value) []Value {
		tb := tab(a, 0, "remove")
		n := tb.Len()
		pos := n
		if arg(a, 1) != nil {
			pos = int(numA(a, 1, "remove"))
		}
		if n == 0 || pos < 1 || pos > n {
			return nil
		}
		v := tb.Get(float64(pos))
		for i := pos; i < n; i++ {
			tb.Set(float64(i), tb.Get(float64(i+1)))
		}
		tb.Set(float64(n), nil)
		return []Value{v}
	}))
	t.Set("getn", HostFunc(func(_ *VM, a []Value) []Value { return []Value{float64(tab(a, 0, "getn").Len())} }))
	t.Set("concat", HostFunc(func(_ *VM, a []Value) []Value {
		tb := tab(a, 0, "concat")
		sep := ""
		if arg(a, 1) != nil {
			sep = strA(a, 1, "concat")
		}
		i, j := 1, tb.Len()
		if arg(a, 2) != nil {
			i = int(numA(a, 2, "concat"))
		}
		if arg(a, 3) != nil {
			j = int(numA(a, 3, "concat"))
		}
		var p []string
		for k := i; k <= j; k++ {
			v := tb.Get(float64(k))
			switch v.(type) {
			case string, float64:
			default:
				raise("invalid value (%s) at index %d in table for 'concat'", TypeName(v), k)
			}
			p = append(p, ToString(v))
		}
		return []Value{strings.Join(p, sep)}
	}))
	t.Set("maxn", HostFunc(func(_ *VM, a []Value) []Value { return []Value{float64(tab(a, 0, "maxn").Len())} }))
	t.Set("sort", HostFunc(func(vm *VM, a []Value) []Value {
		tb := tab(a, 0, "sort")
		sort.SliceStable(tb.arr, func(i, j int) bool {
			if arg(a, 1) != nil {
				r := vm.call(a[1], []Value{tb.arr[i], tb.arr[j]}, 0)
				return len(r) > 0 && truthy(r[0])
			}
			return truthy(vm.binop("<", tb.arr[i], tb.arr[j], 0))
		})
		return nil
	}))

	m := NewTable()
	g["math"] = m
	for n, f := range map[string]func(float64) float64{"floor": math.Floor, "ceil": math.Ceil, "abs": math.Abs, "sqrt": math.Sqrt} {
		f := f
		n := n
		m.Set(n, HostFunc(func(_ *VM, a []Value) []Value { return []Value{f(numA(a, 0, n))} }))
	}
	m.Set("huge", math.Inf(1))
	m.Set("max", HostFunc(func(_ *VM, a []Value) []Value {
		r := numA(a, 0, "max")
		for i := range a {
			r = math.Max(r, numA(a, i, "max"))
		}
		return []Value{r}
	}))
	m.Set("min", HostFunc(func(_ *VM, a []Value) []Value {
		r := numA(a, 0, "min")
		for i := range a {
			r = math.Min(r, numA(a, i, "min"))
		}
		return []Value{r}
	}))

	s := NewTable()
	g["string"] = s
	s.Set("len", HostFunc(func(_ *VM, a []Value) []Value { return []Value{float64(len(strA(a, 0, "len")))} }))
	s.Set("lower", HostFunc(func(_ *VM, a []Value) []Value { return []Value{strings.ToLower(strA(a, 0, "lower"))} }))
	s.Set("upper", HostFunc(func(_ *VM, a []Value) []Value { return []Value{strings.ToUpper(strA(a, 0, "upper"))} }))
	s.Set("rep", HostFunc(func(_ *VM, a []Value) []Value {
		n := int(numA(a, 1, "rep"))
		if n < 0 {
			n = 0
		}
		return []Value{strings.Repeat(strA(a, 0, "rep"), n)}
	}))
	s.Set("sub", HostFunc(func(_ *VM, a []Value) []Value {
		x := strA(a, 0, "sub")
		i := int(numA(a, 1, "sub"))
		j := -1
		if arg(a, 2) != nil {
			j = int(numA(a, 2, "sub"))
		}
		if i < 0 {
			i = len(x) + i + 1
		}
		if i < 1 {
			i = 1
		}
		if j < 0 {
			j = len(x) + j + 1
		}
		if j > len(x) {
			j = len(x)
		}
		if i > j {
			return []Value{""}
		}
		return []Value{x[i-1 : j]}
	}))
	s.Set("find", HostFunc(func(_ *VM, a []Value) []Value {
		x, pat := strA(a, 0, "find"), strA(a, 1, "find")
		if !truthy(arg(a, 3)) && strings.ContainsAny(pat, "^$*+?.([%-") {
			raise("string.find: patterns are not supported by this interpreter")
		}
		i := strings.Index(x, pat)
		if i < 0 {
			return []Value{nil}
		}
		return []Value{float64(i + 1), float64(i + len(pat))}
	}))
	s.Set("format", HostFunc(func(_ *VM, a []Value) []Value {
		f := strA(a, 0, "format")
		var b strings.Builder
		n := 1
		for i := 0; i < len(f); i++ {
			if f[i] != '%' {
				b.WriteByte(f[i])
				continue
			}
			j := i + 1
			for j < len(f) && strings.IndexByte("0123456789.-+ #", f[j]) >= 0 {
				j++
			}
			if j >= len(f) {
				raise("invalid format")
			}
			spec := f[i:j]
			switch f[j] {
			case '%':
				b.WriteByte('%')
			case 'd', 'i':
				fmt.Fprintf(&b, spec+"d", int64(numA(a, n, "format")))
				n++
			case 'f', 'e':
				fmt.Fprintf(&b, spec+string(f[j]), numA(a, n, "format"))
				n++
			case 'g':
				prec := 6
				if k := strings.IndexByte(spec, '.'); k >= 0 {
					prec, _ = strconv.Atoi(spec[k+1:])
				}
				b.WriteString(FormatNumber(numA(a, n, "format"), prec))
				n++
			case 's':
				fmt.Fprintf(&b, spec+"s", ToString(arg(a, n)))
				n++
			default:
				raise("invalid option '%%%c' to 'format'", f[j])
			}
			i = j
		}
		return []Value{b.String()}
	}))
}
