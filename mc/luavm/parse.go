package luavm

import "fmt"

type expr interface{}

type (
	eNil    struct{}
	eTrue   struct{}
	eFalse  struct{}
	eVararg struct{}
	eNum    struct{ v float64 }
	eStr    struct{ v string }
	eName   struct {
		name string
		line int
	}
	eIndex struct {
		obj, key expr
		line     int
	}
	eCall struct {
		fn   expr
		args []expr
		line int
	}
	eMethod struct {
		obj  expr
		name string
		args []expr
		line int
	}
	eFunc struct {
		params []string
		vararg bool
		body   []stmt
	}
	eBin struct {
		op   string
		a, b expr
		line int
	}
	eUn struct {
		op   string
		a    expr
		line int
	}
	eTable struct {
		arr  []expr
		keys []expr // nil entry: positional
	}
	eParen struct{ e expr }
)

type stmt interface{}

type (
	sLocal struct {
		names []string
		exprs []expr
	}
	sAssign struct {
		lhs   []expr
		exprs []expr
	}
	sCall struct{ e expr }
	sDo   struct{ body []stmt }
	sIf   struct {
		conds  []expr
		blocks [][]stmt
		els    []stmt
	}
	sWhile struct {
		cond expr
		body []stmt
	}
	sRepeat struct {
		body []stmt
		cond expr
	}
	sNumFor struct {
		name    string
		a, b, c expr
		body    []stmt
	}
	sGenFor struct {
		names []string
		exprs []expr
		body  []stmt
	}
	sLocalFunc struct {
		name string
		f    *eFunc
	}
	sReturn struct{ exprs []expr }
	sBreak  struct{}
)

type parser struct {
	t []token
	i int
}

type parseError struct{ msg string }

func (p *parser) fail(f string, a ...any) {
	panic(parseError{fmt.Sprintf("line %d: ", p.t[p.i].line) + fmt.Sprintf(f, a...)})
}
func (p *parser) cur() token { return p.t[p.i] }
func (p *parser) is(s string) bool {
	c := p.t[p.i]
	return (c.k == tOp || c.k == tKeyword) && c.s == s
}
func (p *parser) accept(s string) bool {
	if p.is(s) {
		p.i++
		return true
	}
	return false
}
func (p *parser) expect(s string) {
	if !p.accept(s) {
		p.fail("'%s' expected near '%s'", s, p.cur().s)
	}
}
func (p *parser) name() string {
	if p.cur().k != tName {
		p.fail("name expected near '%s'", p.cur().s)
	}
	s := p.cur().s
	p.i++
	return s
}

func parse(src string) (body []stmt, err error) {
	toks, err := lex(src)
	if err != nil {
		return nil, err
	}
	p := &parser{t: toks}
	defer func() {
		if r := recover(); r != nil {
			if pe, ok := r.(parseError); ok {
				err = fmt.Errorf("%s", pe.msg)
				return
			}
			panic(r)
		}
	}()
	body = p.block()
	if p.cur().k != tEOF {
		p.fail("'<eof>' expected near '%s'", p.cur().s)
	}
	return body, nil
}

func (p *parser) blockEnd() bool {
	return p.cur().k == tEOF || p.is("end") || p.is("else") || p.is("elseif") || p.is("until")
}

func (p *parser) block() []stmt {
	var out []stmt
	for !p.blockEnd() {
		if p.accept(";") {
			continue
		}
		if p.accept("return") {
			var es []expr
			if !p.blockEnd() && !p.is(";") {
				es = p.exprList()
			}
			p.accept(";")
			out = append(out, sReturn{es})
			if !p.blockEnd() {
				p.fail("'end' expected after return")
			}
			return out
		}
		out = append(out, p.statement())
	}
	return out
}

func (p *parser) statement() stmt {
	switch {
	case p.accept("break"):
		return sBreak{}
	case p.accept("do"):
		b := p.block()
		p.expect("end")
		return sDo{b}
	case p.accept("while"):
		c := p.expr(0)
		p.expect("do")
		b := p.block()
		p.expect("end")
		return sWhile{c, b}
	case p.accept("repeat"):
		b := p.block()
		p.expect("until")
		return sRepeat{b, p.expr(0)}
	case p.accept("if"):
		var s sIf
		s.conds = append(s.conds, p.expr(0))
		p.expect("then")
		s.blocks = append(s.blocks, p.block())
		for {
			if p.accept("elseif") {
				s.conds = append(s.conds, p.expr(0))
				p.expect("then")
				s.blocks = append(s.blocks, p.block())
				continue
			}
			if p.accept("else") {
				s.els = p.block()
			}
			p.expect("end")
			return s
		}
	case p.accept("for"):
		n := p.name()
		if p.accept("=") {
			a := p.expr(0)
			p.expect(",")
			b := p.expr(0)
			var c expr
			if p.accept(",") {
				c = p.expr(0)
			}
			p.expect("do")
			body := p.block()
			p.expect("end")
			return sNumFor{n, a, b, c, body}
		}
		names := []string{n}
		for p.accept(",") {
			names = append(names, p.name())
		}
		p.expect("in")
		es := p.exprList()
		p.expect("do")
		body := p.block()
		p.expect("end")
		return sGenFor{names, es, body}
	case p.accept("function"):
		line := p.cur().line
		var lhs expr = eName{p.name(), line}
		self := false
		for {
			if p.accept(".") {
				lhs = eIndex{lhs, eStr{p.name()}, line}
			} else if p.accept(":") {
				lhs = eIndex{lhs, eStr{p.name()}, line}
				self = true
				break
			} else {
				break
			}
		}
		f := p.funcBody()
		if self {
			f.params = append([]string{"self"}, f.params...)
		}
		return sAssign{[]expr{lhs}, []expr{f}}
	case p.accept("local"):
		if p.accept("function") {
			n := p.name()
			return sLocalFunc{n, p.funcBody()}
		}
		names := []string{p.name()}
		for p.accept(",") {
			names = append(names, p.name())
		}
		var es []expr
		if p.accept("=") {
			es = p.exprList()
		}
		return sLocal{names, es}
	}
	e := p.suffixed()
	if p.is("=") || p.is(",") {
		lhs := []expr{e}
		for p.accept(",") {
			lhs = append(lhs, p.suffixed())
		}
		p.expect("=")
		es := p.exprList()
		for _, l := range lhs {
			switch l.(type) {
			case eName, eIndex:
			default:
				p.fail("cannot assign")
			}
		}
		return sAssign{lhs, es}
	}
	switch e.(type) {
	case eCall, eMethod:
		return sCall{e}
	}
	p.fail("syntax error near '%s'", p.cur().s)
	return nil
}

func (p *parser) funcBody() *eFunc {
	f := &eFunc{}
	p.expect("(")
	for !p.is(")") {
		if p.accept("...") {
			f.vararg = true
			break
		}
		f.params = append(f.params, p.name())
		if !p.accept(",") {
			break
		}
	}
	p.expect(")")
	f.body = p.block()
	p.expect("end")
	return f
}

func (p *parser) exprList() []expr {
	es := []expr{p.expr(0)}
	for p.accept(",") {
		es = append(es, p.expr(0))
	}
	return es
}

func (p *parser) primary() expr {
	line := p.cur().line
	if p.accept("(") {
		e := p.expr(0)
		p.expect(")")
		return eParen{e}
	}
	return eName{p.name(), line}
}

func (p *parser) suffixed() expr {
	e := p.primary()
	for {
		line := p.cur().line
		switch {
		case p.accept("."):
			e = eIndex{e, eStr{p.name()}, line}
		case p.accept("["):
			k := p.expr(0)
			p.expect("]")
			e = eIndex{e, k, line}
		case p.accept(":"):
			n := p.name()
			e = eMethod{e, n, p.args(), line}
		case p.is("(") || p.is("{") || p.cur().k == tString:
			e = eCall{e, p.args(), line}
		default:
			return e
		}
	}
}

func (p *parser) args() []expr {
	if p.cur().k == tString {
		s := p.cur().s
		p.i++
		return []expr{eStr{s}}
	}
	if p.is("{") {
		return []expr{p.table()}
	}
	p.expect("(")
	if p.accept(")") {
		return nil
	}
	es := p.exprList()
	p.expect(")")
	return es
}

func (p *parser) table() expr {
	p.expect("{")
	var t eTable
	for !p.is("}") {
		if p.accept("[") {
			k := p.expr(0)
			p.expect("]")
			p.expect("=")
			t.keys = append(t.keys, k)
			t.arr = append(t.arr, p.expr(0))
		} else if p.cur().k == tName && p.t[p.i+1].k == tOp && p.t[p.i+1].s == "=" {
			k := p.name()
			p.expect("=")
			t.keys = append(t.keys, eStr{k})
			t.arr = append(t.arr, p.expr(0))
		} else {
			t.keys = append(t.keys, nil)
			t.arr = append(t.arr, p.expr(0))
		}
		if !p.accept(",") && !p.accept(";") {
			break
		}
	}
	p.expect("}")
	return t
}

var binPrec = map[string][2]int{
	"or": {1, 1}, "and": {2, 2},
	"<": {3, 3}, ">": {3, 3}, "<=": {3, 3}, ">=": {3, 3}, "~=": {3, 3}, "==": {3, 3},
	"..": {5, 4}, "+": {6, 6}, "-": {6, 6}, "*": {7, 7}, "/": {7, 7}, "%": {7, 7}, "^": {10, 9},
}

func (p *parser) expr(limit int) expr {
	var e expr
	line := p.cur().line
	switch {
	case p.accept("not"):
		e = eUn{"not", p.expr(8), line}
	case p.accept("-"):
		e = eUn{"-", p.expr(8), line}
	case p.accept("#"):
		e = eUn{"#", p.expr(8), line}
	default:
		e = p.simple()
	}
	for {
		c := p.cur()
		if c.k != tOp && c.k != tKeyword {
			return e
		}
		pr, ok := binPrec[c.s]
		if !ok || pr[0] <= limit {
			return e
		}
		p.i++
		e = eBin{c.s, e, p.expr(pr[1]), c.line}
	}
}

func (p *parser) simple() expr {
	c := p.cur()
	switch c.k {
	case tNumber:
		p.i++
		return eNum{c.n}
	case tString:
		p.i++
		return eStr{c.s}
	}
	switch {
	case p.accept("nil"):
		return eNil{}
	case p.accept("true"):
		return eTrue{}
	case p.accept("false"):
		return eFalse{}
	case p.accept("..."):
		return eVararg{}
	case p.accept("function"):
		return p.funcBody()
	case p.is("{"):
		return p.table()
	}
	return p.suffixed()
}
