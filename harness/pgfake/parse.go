package pgfake

import (
	"fmt"
	"strconv"
	"strings"
)

type parser struct {
	src string
	t   []token
	i   int
	pl  bool // inside PL/pgSQL: INTO allowed
}

type synErr struct{ e error }

func (p *parser) fail(msg string) {
	panic(synErr{pgErr("42601", msg)})
}
func (p *parser) cur() token { return p.t[p.i] }
func (p *parser) peek(n int) token {
	if p.i+n < len(p.t) {
		return p.t[p.i+n]
	}
	return p.t[len(p.t)-1]
}
func (p *parser) next() token {
	t := p.t[p.i]
	if t.k != tkEOF {
		p.i++
	}
	return t
}
func (p *parser) isKw(words ...string) bool {
	for j, w := range words {
		t := p.peek(j)
		if t.k != tkIdent || t.s != w {
			return false
		}
	}
	return true
}
func (p *parser) kw(words ...string) bool {
	if p.isKw(words...) {
		p.i += len(words)
		return true
	}
	return false
}
func (p *parser) need(words ...string) {
	if !p.kw(words...) {
		p.errNear()
	}
}
func (p *parser) errNear() {
	t := p.cur()
	if t.k == tkEOF {
		p.fail("syntax error at end of input")
	}
	p.fail(fmt.Sprintf("syntax error at or near %q", t.raw))
}
func (p *parser) isOp(o string) bool { t := p.cur(); return t.k == tkOp && t.s == o }
func (p *parser) op(o string) bool {
	if p.isOp(o) {
		p.i++
		return true
	}
	return false
}
func (p *parser) needOp(o string) {
	if !p.op(o) {
		p.errNear()
	}
}

var reserved = map[string]bool{}

func init() {
	for _, w := range strings.Fields("all analyse analyze and any array as asc both case cast check collate column constraint create cross current_date current_time current_timestamp default deferrable desc distinct do else end except false fetch for foreign from full grant group having in initially inner intersect into is isnull join lateral leading left like ilike limit natural not notnull null offset on only or order outer primary references returning right select session_user similar some table then to trailing true union unique user using verbose when where window with") {
		reserved[w] = true
	}
}

func (p *parser) ident() string {
	t := p.cur()
	if t.k == tkQIdent || (t.k == tkIdent && !reserved[t.s]) {
		p.i++
		return t.s
	}
	p.errNear()
	return ""
}
func (p *parser) anyIdent() string {
	t := p.cur()
	if t.k == tkQIdent || t.k == tkIdent {
		p.i++
		return t.s
	}
	p.errNear()
	return ""
}
func (p *parser) qname() (string, string) {
	a := p.anyIdent()
	if p.op(".") {
		return a, p.anyIdent()
	}
	return "", a
}
func (p *parser) identList() []string {
	var out []string
	for {
		out = append(out, p.anyIdent())
		if !p.op(",") {
			return out
		}
	}
}

// parseScript splits and parses a simple-query string.
func parseScript(src string) (out []Stmt, texts []string, err error) {
	toks, err := lexSQL(src)
	if err != nil {
		return nil, nil, err
	}
	p := &parser{src: src, t: toks}
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(synErr); ok {
				err = s.e
				return
			}
			panic(r)
		}
	}()
	for {
		for p.op(";") {
		}
		if p.cur().k == tkEOF {
			return out, texts, nil
		}
		st := p.cur().pos
		s := p.stmt()
		out = append(out, s)
		end := p.cur().pos
		texts = append(texts, src[st:end])
		if p.cur().k != tkEOF && !p.isOp(";") {
			p.errNear()
		}
	}
}

func (p *parser) stmt() Stmt {
	t := p.cur()
	if t.k == tkOp && t.s == "(" {
		return p.selectFull()
	}
	if t.k != tkIdent {
		p.errNear()
	}
	switch t.s {
	case "select", "values":
		return p.selectFull()
	case "with":
		w := p.withClause()
		switch {
		case p.isKw("insert"):
			s := p.insert()
			s.with = w
			return s
		case p.isKw("update"):
			s := p.update()
			s.with = w
			return s
		case p.isKw("delete"):
			s := p.delete()
			s.with = w
			return s
		default:
			s := p.selectFull()
			s.with = append(w, s.with...)
			return s
		}
	case "insert":
		return p.insert()
	case "update":
		return p.update()
	case "delete":
		return p.delete()
	case "begin", "start":
		p.next()
		p.kw("transaction")
		p.kw("work")
		iso := ""
		for p.cur().k == tkIdent {
			if p.kw("isolation", "level") {
				if p.kw("repeatable", "read") {
					iso = "rr"
				} else if p.kw("serializable") {
					iso = "rr"
				} else if p.kw("read", "committed") || p.kw("read", "uncommitted") {
					iso = "rc"
				} else {
					p.errNear()
				}
				continue
			}
			p.next()
			p.op(",")
		}
		return &txStmt{op: "begin", isolation: iso}
	case "commit", "end":
		p.next()
		p.kw("transaction")
		p.kw("work")
		return &txStmt{op: "commit"}
	case "rollback", "abort":
		p.next()
		p.kw("transaction")
		p.kw("work")
		if p.isKw("to") {
			p.fail("savepoints not supported")
		}
		return &txStmt{op: "rollback"}
	case "set":
		if p.isKw("set", "transaction") {
			p.i += 2
			iso := ""
			for p.cur().k == tkIdent {
				if p.kw("isolation", "level") {
					if p.kw("repeatable", "read") || p.kw("serializable") {
						iso = "rr"
					} else if p.kw("read", "committed") || p.kw("read", "uncommitted") {
						iso = "rc"
					}
					continue
				}
				p.next()
				p.op(",")
			}
			return &txStmt{op: "set", isolation: iso}
		}
		p.skipStmt()
		return &setStmt{}
	case "reset", "discard", "deallocate", "grant", "revoke", "analyze", "vacuum", "lock":
		p.skipStmt()
		return &setStmt{}
	case "show":
		p.next()
		n := p.anyIdent()
		for p.cur().k == tkIdent {
			n += " " + p.next().s
		}
		return &showStmt{n}
	case "comment":
		p.skipStmt()
		return &commentStmt{}
	case "copy":
		p.next()
		c := &copyStmt{}
		c.schema, c.table = p.qname()
		if p.op("(") {
			c.cols = p.identList()
			p.needOp(")")
		}
		p.need("from", "stdin")
		p.skipStmt()
		return c
	case "create":
		return p.create()
	case "drop":
		return p.drop()
	case "alter":
		return p.alter()
	}
	p.errNear()
	return nil
}

func (p *parser) skipStmt() {
	for p.cur().k != tkEOF && !p.isOp(";") {
		p.next()
	}
}

func (p *parser) withClause() []cte {
	p.need("with")
	if p.isKw("recursive") {
		p.fail("WITH RECURSIVE not supported")
	}
	var out []cte
	for {
		c := cte{name: p.anyIdent()}
		if p.op("(") {
			c.cols = p.identList()
			p.needOp(")")
		}
		p.need("as")
		if p.kw("not", "materialized") || p.kw("materialized") {
		}
		p.needOp("(")
		c.stmt = p.stmt()
		p.needOp(")")
		out = append(out, c)
		if !p.op(",") {
			return out
		}
	}
}

// selectFull parses [WITH] select with set operations, ORDER BY, LIMIT, locking.
func (p *parser) selectFull() *selectStmt {
	var w []cte
	if p.isKw("with") {
		w = p.withClause()
	}
	s := p.setExpr()
	s.with = append(w, s.with...)
	p.selectTail(s)
	return s
}

func (p *parser) selectTail(s *selectStmt) {
	for {
		switch {
		case p.kw("order", "by"):
			s.orderBy = p.orderList()
		case p.kw("limit"):
			if p.kw("all") {
			} else {
				s.limit = p.expr()
			}
		case p.kw("offset"):
			s.offset = p.expr()
			p.kw("rows")
			p.kw("row")
		case p.kw("fetch"):
			if !p.kw("first") {
				p.need("next")
			}
			s.limit = p.expr()
			if !p.kw("rows") {
				p.need("row")
			}
			p.need("only")
		case p.isKw("for", "update") || p.isKw("for", "share") || p.isKw("for", "no") || p.isKw("for", "key"):
			p.next()
			l := &lockClause{}
			if p.kw("no", "key", "update") || p.kw("update") {
			} else if p.kw("key", "share") || p.kw("share") {
				l.share = true
			} else {
				p.errNear()
			}
			if p.kw("of") {
				l.of = p.identList()
			}
			if p.kw("skip", "locked") {
				l.skip = true
			} else if p.kw("nowait") {
				l.nowait = true
			}
			s.lock = l
		default:
			return
		}
	}
}

func (p *parser) setExpr() *selectStmt {
	l := p.setTerm()
	for {
		var op string
		switch {
		case p.isKw("union"):
			op = "union"
		case p.isKw("except"):
			op = "except"
		default:
			return l
		}
		p.next()
		n := &selectStmt{setop: op, left: l}
		if p.kw("all") {
			n.all = true
		} else {
			p.kw("distinct")
		}
		n.right = p.setTerm()
		l = n
	}
}

func (p *parser) setTerm() *selectStmt {
	if p.isKw("intersect") {
		p.fail("INTERSECT not supported")
	}
	if p.op("(") {
		s := p.selectFull()
		p.needOp(")")
		return s
	}
	if p.kw("values") {
		s := &selectStmt{}
		for {
			p.needOp("(")
			s.values = append(s.values, p.exprListDefault())
			p.needOp(")")
			if !p.op(",") {
				return s
			}
		}
	}
	p.need("select")
	s := &selectStmt{}
	if p.kw("distinct") {
		s.distinct = true
		if p.kw("on") {
			p.needOp("(")
			s.distinctOn = p.exprList()
			p.needOp(")")
		}
	} else {
		p.kw("all")
	}
	if !(p.isKw("from") || p.isOp(")") || p.isOp(";") || p.cur().k == tkEOF) {
		s.items = p.selItems()
	}
	if p.pl && p.kw("into") {
		p.kw("strict")
		s.into = p.plTargets()
	}
	if p.kw("from") {
		s.from = p.fromList()
	}
	if p.kw("where") {
		s.where = p.expr()
	}
	if p.kw("group", "by") {
		s.groupBy = p.exprList()
	}
	if p.kw("having") {
		s.having = p.expr()
	}
	if p.isKw("window") {
		p.fail("WINDOW not supported")
	}
	return s
}

func (p *parser) plTargets() []string {
	var out []string
	for {
		n := p.anyIdent()
		for p.op(".") {
			n += "." + p.anyIdent()
		}
		out = append(out, n)
		if !p.op(",") {
			return out
		}
	}
}

func (p *parser) selItems() []selItem {
	var out []selItem
	for {
		out = append(out, p.selItem())
		if !p.op(",") {
			return out
		}
	}
}

func (p *parser) selItem() selItem {
	if p.op("*") {
		return selItem{x: &eStar{}}
	}
	if (p.cur().k == tkIdent || p.cur().k == tkQIdent) && p.peek(1).k == tkOp && p.peek(1).s == "." {
		if p.peek(2).k == tkOp && p.peek(2).s == "*" {
			t := p.next().s
			p.next()
			p.next()
			return selItem{x: &eStar{t}}
		}
	}
	it := selItem{x: p.expr()}
	if p.kw("as") {
		it.alias = p.anyIdent()
	} else if t := p.cur(); t.k == tkQIdent || t.k == tkIdent && !reserved[t.s] {
		it.alias = p.next().s
	}
	return it
}

func (p *parser) orderList() []orderItem {
	var out []orderItem
	for {
		o := orderItem{x: p.expr()}
		if p.kw("asc") {
		} else if p.kw("desc") {
			o.desc = true
		}
		if p.kw("nulls", "first") {
			b := true
			o.nullsFirst = &b
		} else if p.kw("nulls", "last") {
			b := false
			o.nullsFirst = &b
		}
		out = append(out, o)
		if !p.op(",") {
			return out
		}
	}
}

func (p *parser) fromList() []*fromItem {
	var out []*fromItem
	for {
		out = append(out, p.fromJoin())
		if !p.op(",") {
			return out
		}
	}
}

func (p *parser) fromJoin() *fromItem {
	l := p.fromPrimary()
	for {
		kind := ""
		switch {
		case p.kw("cross", "join"):
			kind = "cross"
		case p.kw("inner", "join"), p.kw("join"):
			kind = "inner"
		case p.kw("left", "outer", "join"), p.kw("left", "join"):
			kind = "left"
		case p.kw("right", "outer", "join"), p.kw("right", "join"):
			kind = "right"
		case p.isKw("full") || p.isKw("natural"):
			p.fail("join type not supported")
		default:
			return l
		}
		r := p.fromPrimary()
		j := &joinItem{kind: kind, l: l, r: r}
		if kind != "cross" {
			if p.kw("on") {
				j.on = p.expr()
			} else if p.kw("using") {
				p.needOp("(")
				j.using = p.identList()
				p.needOp(")")
			} else {
				p.errNear()
			}
		}
		l = &fromItem{join: j}
	}
}

func (p *parser) fromPrimary() *fromItem {
	f := &fromItem{}
	if p.kw("lateral") {
		f.lateral = true
	}
	p.kw("only")
	if p.op("(") {
		if p.isKw("select") || p.isKw("values") || p.isKw("with") || p.isOp("(") {
			f.sub = p.selectFull()
			p.needOp(")")
		} else {
			in := p.fromJoin()
			p.needOp(")")
			return in
		}
	} else {
		f.schema, f.table = p.qname()
		if p.op("(") {
			fn := &eFunc{name: f.table}
			if f.schema != "" {
				fn.name = f.schema + "." + f.table
			}
			if !p.isOp(")") {
				fn.args = p.exprList()
			}
			p.needOp(")")
			f.fn = fn
			f.schema = ""
		}
	}
	if p.kw("as") {
		f.alias = p.anyIdent()
	} else if t := p.cur(); t.k == tkQIdent || t.k == tkIdent && !reserved[t.s] && t.s != "set" {
		f.alias = p.next().s
	}
	if f.alias != "" && p.op("(") {
		f.colAliases = append(f.colAliases, p.anyIdent())
		for {
			// optional type (record functions)
			if p.cur().k == tkIdent {
				p.typeName()
			}
			if !p.op(",") {
				break
			}
			f.colAliases = append(f.colAliases, p.anyIdent())
		}
		p.needOp(")")
	}
	return f
}

func (p *parser) exprList() []Expr {
	var out []Expr
	for {
		out = append(out, p.expr())
		if !p.op(",") {
			return out
		}
	}
}

type eDefault struct{}

func (p *parser) exprListDefault() []Expr {
	var out []Expr
	for {
		if p.kw("default") {
			out = append(out, &eDefault{})
		} else {
			out = append(out, p.expr())
		}
		if !p.op(",") {
			return out
		}
	}
}

// ---- expressions, PostgreSQL precedence ----

func (p *parser) expr() Expr { return p.orExpr() }

func (p *parser) orExpr() Expr {
	l := p.andExpr()
	for p.kw("or") {
		l = &eBin{"or", l, p.andExpr()}
	}
	return l
}
func (p *parser) andExpr() Expr {
	l := p.notExpr()
	for p.kw("and") {
		l = &eBin{"and", l, p.notExpr()}
	}
	return l
}
func (p *parser) notExpr() Expr {
	if p.kw("not") {
		return &eUn{"not", p.notExpr()}
	}
	return p.isExpr()
}
func (p *parser) isExpr() Expr {
	l := p.cmpExpr()
	for {
		switch {
		case p.kw("isnull"):
			l = &eIsNull{l, false}
		case p.kw("notnull"):
			l = &eIsNull{l, true}
		case p.isKw("is"):
			p.next()
			not := p.kw("not")
			switch {
			case p.kw("null"):
				l = &eIsNull{l, not}
			case p.kw("true"):
				l = &eIsBool{l, true, not}
			case p.kw("false"):
				l = &eIsBool{l, false, not}
			case p.kw("distinct", "from"):
				l = &eIsDistinct{l, p.cmpExpr(), not}
			default:
				p.errNear()
			}
		default:
			return l
		}
	}
}
func (p *parser) cmpExpr() Expr {
	l := p.likeExpr()
	for {
		t := p.cur()
		if t.k != tkOp {
			return l
		}
		switch t.s {
		case "=", "<", ">", "<=", ">=", "<>":
			p.next()
			if p.isKw("any") || p.isKw("some") || p.isKw("all") {
				all := p.next().s == "all"
				p.needOp("(")
				a := &eAny{x: l, op: t.s, all: all}
				if p.isKw("select") || p.isKw("with") {
					a.sub = p.selectFull()
				} else {
					a.arr = p.expr()
				}
				p.needOp(")")
				l = a
				continue
			}
			l = &eBin{t.s, l, p.likeExpr()}
		default:
			return l
		}
	}
}
func (p *parser) likeExpr() Expr {
	l := p.otherOp()
	for {
		save := p.i
		not := p.kw("not")
		switch {
		case p.kw("between"):
			p.kw("symmetric")
			lo := p.otherOp()
			p.need("and")
			l = &eBetween{l, lo, p.otherOp(), not}
		case p.kw("in"):
			p.needOp("(")
			n := &eIn{x: l, not: not}
			if p.isKw("select") || p.isKw("with") || p.isKw("values") {
				n.sub = p.selectFull()
			} else {
				n.list = p.exprList()
			}
			p.needOp(")")
			l = n
		case p.kw("like"):
			l = p.likeTail(&eLike{l, nil, not, false})
		case p.kw("ilike"):
			l = p.likeTail(&eLike{l, nil, not, true})
		default:
			p.i = save
			return l
		}
	}
}
func (p *parser) likeTail(e *eLike) Expr {
	if p.isKw("any") || p.isKw("all") {
		p.fail("LIKE ANY not supported")
	}
	e.pat = p.otherOp()
	if p.kw("escape") {
		p.fail("ESCAPE not supported")
	}
	return e
}
func (p *parser) otherOp() Expr {
	l := p.addExpr()
	for {
		t := p.cur()
		if t.k != tkOp {
			return l
		}
		switch t.s {
		case "||", "->", "->>", "#>", "#>>", "@>", "<@", "?", "?|", "?&", "~", "~*", "!~", "!~*", "&", "|", "#":
			p.next()
			l = &eBin{t.s, l, p.addExpr()}
		default:
			return l
		}
	}
}
func (p *parser) addExpr() Expr {
	l := p.mulExpr()
	for {
		t := p.cur()
		if t.k == tkOp && (t.s == "+" || t.s == "-") {
			p.next()
			l = &eBin{t.s, l, p.mulExpr()}
			continue
		}
		return l
	}
}
func (p *parser) mulExpr() Expr {
	l := p.powExpr()
	for {
		t := p.cur()
		if t.k == tkOp && (t.s == "*" || t.s == "/" || t.s == "%") {
			p.next()
			l = &eBin{t.s, l, p.powExpr()}
			continue
		}
		return l
	}
}
func (p *parser) powExpr() Expr {
	l := p.unary()
	for p.op("^") {
		l = &eBin{"^", l, p.unary()}
	}
	return l
}
func (p *parser) unary() Expr {
	if p.op("-") {
		return &eUn{"-", p.unary()}
	}
	if p.op("+") {
		return p.unary()
	}
	x := p.postfix()
	for p.isKw("at", "time", "zone") {
		p.i += 3
		z := p.postfix()
		x = &eFunc{name: "timezone", args: []Expr{z, x}}
	}
	if p.kw("collate") {
		p.qname()
	}
	return x
}
func (p *parser) postfix() Expr {
	x := p.primary()
	for {
		switch {
		case p.op("::"):
			x = &eCast{x, p.typeName()}
		case p.op("["):
			i := p.expr()
			p.needOp("]")
			x = &eIndex{x, i}
		default:
			return x
		}
	}
}

func (p *parser) primary() Expr {
	t := p.cur()
	switch t.k {
	case tkNum:
		p.next()
		return &eLit{kind: "num", s: t.s}
	case tkStr:
		p.next()
		return &eLit{kind: "str", s: t.s}
	case tkParam:
		p.next()
		n, _ := strconv.Atoi(t.s)
		return &eParam{n}
	case tkOp:
		if t.s == "(" {
			p.next()
			if p.isKw("select") || p.isKw("with") || p.isKw("values") {
				s := p.selectFull()
				p.needOp(")")
				return &eSub{s}
			}
			x := p.expr()
			if p.op(",") {
				l := append([]Expr{x}, p.exprList()...)
				p.needOp(")")
				return &eRow{l}
			}
			p.needOp(")")
			if p.op(".") {
				return &eField{x, p.anyIdent()}
			}
			return x
		}
		p.errNear()
	case tkQIdent:
		return p.colOrFunc()
	case tkIdent:
		switch t.s {
		case "null":
			p.next()
			return &eLit{kind: "null"}
		case "true", "false":
			p.next()
			return &eLit{kind: "bool", b: t.s == "true"}
		case "case":
			return p.caseExpr()
		case "cast":
			p.next()
			p.needOp("(")
			x := p.expr()
			p.need("as")
			ty := p.typeName()
			p.needOp(")")
			return &eCast{x, ty}
		case "exists":
			if p.peek(1).s == "(" {
				p.next()
				p.needOp("(")
				s := p.selectFull()
				p.needOp(")")
				return &eExists{s}
			}
		case "array":
			p.next()
			if p.op("[") {
				a := &eArray{}
				if !p.isOp("]") {
					a.elems = p.exprList()
				}
				p.needOp("]")
				return a
			}
			p.fail("ARRAY(subquery) not supported")
		case "row":
			if p.peek(1).s == "(" {
				p.i += 2
				r := &eRow{}
				if !p.isOp(")") {
					r.elems = p.exprList()
				}
				p.needOp(")")
				return r
			}
		case "interval", "timestamp", "timestamptz", "date", "jsonb", "json":
			if p.peek(1).k == tkStr {
				p.next()
				s := p.next()
				return &eCast{&eLit{kind: "str", s: s.s}, typeByName(t.s)}
			}
		case "current_timestamp":
			p.next()
			return &eFunc{name: "now"}
		case "current_date":
			p.next()
			return &eCast{&eFunc{name: "now"}, Type{b: tDate}}
		case "extract":
			if p.peek(1).s == "(" {
				p.i += 2
				f := p.next().s
				p.need("from")
				x := p.expr()
				p.needOp(")")
				return &eFunc{name: "date_part", args: []Expr{&eLit{kind: "str", s: f}, x}}
			}
		}
		if reserved[t.s] && !(t.s == "left" || t.s == "right") {
			p.errNear()
		}
		return p.colOrFunc()
	}
	p.errNear()
	return nil
}

func (p *parser) caseExpr() Expr {
	p.need("case")
	c := &eCase{}
	if !p.isKw("when") {
		c.operand = p.expr()
	}
	for p.kw("when") {
		a := p.expr()
		p.need("then")
		c.whens = append(c.whens, [2]Expr{a, p.expr()})
	}
	if p.kw("else") {
		c.els = p.expr()
	}
	p.need("end")
	return c
}

func (p *parser) colOrFunc() Expr {
	parts := []string{p.anyIdent()}
	for p.isOp(".") {
		if p.peek(1).k == tkOp && p.peek(1).s == "*" {
			break
		}
		p.next()
		parts = append(parts, p.anyIdent())
	}
	if p.isOp("(") {
		p.next()
		f := &eFunc{name: strings.Join(parts, ".")}
		if p.op("*") {
			f.star = true
		} else if !p.isOp(")") {
			if p.kw("distinct") {
				f.distinct = true
			}
			f.args = p.exprList()
			if p.kw("order", "by") {
				f.orderBy = p.orderList()
			}
		}
		p.needOp(")")
		if p.kw("filter") {
			p.needOp("(")
			p.need("where")
			f.filter = p.expr()
			p.needOp(")")
		}
		if p.kw("over") {
			f.over = true
			p.needOp("(")
			if p.kw("partition", "by") {
				f.partBy = p.exprList()
			}
			if p.kw("order", "by") {
				f.overOrd = p.orderList()
			}
			p.needOp(")")
		}
		return f
	}
	return &eCol{parts}
}

func (p *parser) typeName() Type {
	n := p.anyIdent()
	if n == "pg_catalog" && p.op(".") {
		n = p.anyIdent()
	}
	switch n {
	case "double":
		p.need("precision")
		n = "float8"
	case "character":
		if p.kw("varying") {
			n = "varchar"
		} else {
			n = "char"
		}
	}
	ty := typeByName(n)
	if ty.b == tInvalid {
		p.fail(fmt.Sprintf("type %q does not exist", n))
	}
	if p.op("(") {
		a := p.next().s
		ty.mod, _ = strconv.Atoi(a)
		ty.scale = 0
		ty.hasMod = true
		if p.op(",") {
			ty.scale, _ = strconv.Atoi(p.next().s)
		}
		p.needOp(")")
	}
	if n == "timestamp" || n == "time" {
		if p.kw("with", "time", "zone") {
			ty.b = tTimestamptz
		} else if p.kw("without", "time", "zone") {
		}
	}
	for p.isOp("[") {
		p.next()
		if p.cur().k == tkNum {
			p.next()
		}
		p.needOp("]")
		ty.arr = true
	}
	return ty
}

// ---- DML ----

func (p *parser) insert() *insertStmt {
	p.need("insert", "into")
	s := &insertStmt{}
	s.schema, s.table = p.qname()
	if p.kw("as") {
		s.alias = p.anyIdent()
	}
	if p.isOp("(") && !(p.peek(1).k == tkIdent && p.peek(1).s == "select") {
		p.next()
		s.cols = p.identList()
		p.needOp(")")
	}
	if p.kw("default", "values") {
	} else {
		s.sel = p.selectFull()
	}
	if p.kw("on", "conflict") {
		c := &conflictClause{}
		if p.kw("on", "constraint") {
			c.constraint = p.anyIdent()
		} else if p.op("(") {
			for {
				x := p.expr()
				if col, ok := x.(*eCol); ok {
					c.cols = append(c.cols, col.parts[len(col.parts)-1])
				}
				c.exprs = append(c.exprs, x)
				if !p.op(",") {
					break
				}
			}
			p.needOp(")")
			if p.kw("where") {
				c.where = p.expr()
			}
		}
		p.need("do")
		if p.kw("nothing") {
		} else {
			p.need("update", "set")
			c.doUpdate = true
			c.sets, _ = p.setList()
			if p.kw("where") {
				c.updWhere = p.expr()
			}
		}
		s.conflict = c
	}
	s.returning, s.intoVars = p.returning()
	return s
}

func (p *parser) returning() ([]selItem, []string) {
	if p.kw("returning") {
		it := p.selItems()
		if p.pl && p.kw("into") {
			return it, p.plTargets()
		}
		return it, nil
	}
	return nil, nil
}

func (p *parser) setList() ([]setItem, []multiSet) {
	var out []setItem
	var multi []multiSet
	for {
		if p.op("(") {
			cols := p.identList()
			p.needOp(")")
			p.needOp("=")
			p.kw("row")
			x := p.expr()
			if r, ok := x.(*eRow); ok {
				for i, c := range cols {
					out = append(out, setItem{c, r.elems[i]})
				}
			} else {
				multi = append(multi, multiSet{cols, x})
			}
		} else {
			c := p.anyIdent()
			if p.op(".") {
				c = p.anyIdent()
			}
			p.needOp("=")
			if p.kw("default") {
				out = append(out, setItem{c, nil})
			} else {
				out = append(out, setItem{c, p.expr()})
			}
		}
		if !p.op(",") {
			return out, multi
		}
	}
}

func (p *parser) update() *updateStmt {
	p.need("update")
	p.kw("only")
	s := &updateStmt{}
	s.schema, s.table = p.qname()
	if p.kw("as") {
		s.alias = p.anyIdent()
	} else if t := p.cur(); t.k == tkIdent && t.s != "set" && !reserved[t.s] {
		s.alias = p.next().s
	}
	p.need("set")
	s.sets, s.multi = p.setList()
	if p.kw("from") {
		s.from = p.fromList()
	}
	if p.kw("where") {
		s.where = p.expr()
	}
	s.returning, s.intoVars = p.returning()
	return s
}

func (p *parser) delete() *deleteStmt {
	p.need("delete", "from")
	p.kw("only")
	s := &deleteStmt{}
	s.schema, s.table = p.qname()
	if p.kw("as") {
		s.alias = p.anyIdent()
	} else if t := p.cur(); t.k == tkIdent && !reserved[t.s] {
		s.alias = p.next().s
	}
	if p.kw("using") {
		s.using = p.fromList()
	}
	if p.kw("where") {
		s.where = p.expr()
	}
	s.returning, s.intoVars = p.returning()
	return s
}

// ---- DDL ----

func (p *parser) ine() bool { return p.kw("if", "not", "exists") }
func (p *parser) ife() bool { return p.kw("if", "exists") }

func (p *parser) create() Stmt {
	p.need("create")
	replace := p.kw("or", "replace")
	unique := p.kw("unique")
	switch {
	case p.kw("schema"):
		s := &createSchema{ine: p.ine()}
		s.name = p.anyIdent()
		return s
	case p.kw("extension"):
		p.skipStmt()
		return &setStmt{}
	case p.kw("table"):
		return p.createTable()
	case p.kw("index"):
		p.kw("concurrently")
		s := &createIndex{unique: unique, ine: p.ine()}
		if !p.isKw("on") {
			_, s.name = p.qname()
		}
		p.need("on")
		s.schema, s.table = p.qname()
		if p.kw("using") {
			s.method = p.anyIdent()
		}
		p.needOp("(")
		for {
			x := p.otherOp()
			s.exprs = append(s.exprs, x)
			if t := p.cur(); t.k == tkIdent && strings.HasSuffix(t.s, "_ops") {
				p.next()
			}
			p.kw("asc")
			p.kw("desc")
			if p.kw("nulls") {
				p.next()
			}
			if !p.op(",") {
				break
			}
		}
		p.needOp(")")
		if p.kw("include") {
			p.needOp("(")
			p.identList()
			p.needOp(")")
		}
		if p.kw("with") {
			p.needOp("(")
			for !p.op(")") {
				p.next()
			}
		}
		if p.kw("where") {
			s.where = p.expr()
		}
		return s
	case p.kw("function"):
		return p.createFunction(replace)
	case p.kw("trigger"):
		s := &createTrigger{}
		s.name = p.anyIdent()
		if p.kw("before") {
			s.before = true
		} else {
			p.need("after")
		}
		for {
			ev := p.next().s
			s.events = append(s.events, ev)
			if ev == "update" && p.kw("of") {
				s.updateOf = p.identList()
			}
			if !p.kw("or") {
				break
			}
		}
		p.need("on")
		s.schema, s.table = p.qname()
		for !p.isKw("execute") && !p.isKw("when") {
			if p.kw("for") {
				p.kw("each")
				if p.kw("row") {
					s.forEachRow = true
				} else {
					p.need("statement")
				}
				continue
			}
			p.errNear()
		}
		if p.kw("when") {
			p.needOp("(")
			s.when = p.expr()
			p.needOp(")")
		}
		p.need("execute")
		if !p.kw("function") {
			p.need("procedure")
		}
		sc, n := p.qname()
		s.fn = n
		if sc != "" {
			s.fn = sc + "." + n
		}
		p.needOp("(")
		p.needOp(")")
		return s
	}
	p.errNear()
	return nil
}

func (p *parser) createFunction(replace bool) Stmt {
	s := &createFunction{replace: replace}
	s.schema, s.name = p.qname()
	p.needOp("(")
	for !p.op(")") {
		v := plVar{}
		p.kw("in")
		v.name = p.anyIdent()
		v.typ = p.typeName()
		if p.kw("default") || p.op("=") {
			v.def = p.expr()
		}
		s.args = append(s.args, v)
		p.op(",")
	}
	for p.cur().k != tkEOF && !p.isOp(";") {
		switch {
		case p.kw("returns"):
			if p.kw("table") {
				p.needOp("(")
				for !p.op(")") {
					v := plVar{name: p.anyIdent()}
					v.typ = p.typeName()
					s.retTable = append(s.retTable, v)
					p.op(",")
				}
				s.setof = true
			} else {
				if p.kw("setof") {
					s.setof = true
				}
				s.ret = p.cur().s
				s.retType = p.typeName()
			}
		case p.kw("language"):
			t := p.next()
			s.lang = strings.ToLower(t.s)
		case p.kw("as"):
			t := p.next()
			if t.k != tkStr {
				p.errNear()
			}
			s.body = t.s
		default:
			p.next() // immutable, stable, security definer, ...
		}
	}
	return s
}

func (p *parser) createTable() Stmt {
	s := &createTable{ine: p.ine()}
	s.schema, s.name = p.qname()
	p.needOp("(")
	for {
		if c, ok := p.tableConstraint(); ok {
			s.cons = append(s.cons, c)
		} else {
			s.cols = append(s.cols, p.colSpec())
		}
		if !p.op(",") {
			break
		}
	}
	p.needOp(")")
	return s
}

func (p *parser) tableConstraint() (tblConstraint, bool) {
	c := tblConstraint{}
	save := p.i
	if p.kw("constraint") {
		c.name = p.anyIdent()
	}
	switch {
	case p.kw("primary", "key"):
		c.kind = "pk"
		p.needOp("(")
		c.cols = p.identList()
		p.needOp(")")
	case p.kw("unique"):
		c.kind = "unique"
		p.needOp("(")
		c.cols = p.identList()
		p.needOp(")")
	case p.kw("check"):
		c.kind = "check"
		p.needOp("(")
		c.check = p.expr()
		p.needOp(")")
	case p.kw("foreign", "key"):
		c.kind = "fk"
		p.needOp("(")
		c.cols = p.identList()
		p.needOp(")")
		c.fk = p.references()
		c.fk.cols = c.cols
	default:
		p.i = save
		return c, false
	}
	return c, true
}

func (p *parser) references() *fkSpec {
	p.need("references")
	f := &fkSpec{}
	f.schema, f.table = p.qname()
	if p.op("(") {
		f.refCols = p.identList()
		p.needOp(")")
	}
	for {
		if p.kw("on", "delete") {
			switch {
			case p.kw("cascade"):
				f.onDelete = "cascade"
			case p.kw("set", "null"):
				f.onDelete = "setnull"
			case p.kw("restrict"):
			case p.kw("no", "action"):
			default:
				p.errNear()
			}
		} else if p.kw("on", "update") {
			p.next()
			p.kw("action")
			p.kw("null")
		} else {
			return f
		}
	}
}

func (p *parser) colSpec() colSpec {
	c := colSpec{name: p.anyIdent()}
	switch {
	case p.kw("serial"), p.kw("serial4"):
		c.serial, c.notNull = true, true
		c.typ = Type{b: tInt4}
	case p.kw("bigserial"), p.kw("serial8"):
		c.serial, c.notNull = true, true
		c.typ = Type{b: tInt8}
	default:
		c.typ = p.typeName()
	}
	for {
		if p.kw("constraint") {
			c.checkName = p.anyIdent()
		}
		switch {
		case p.kw("not", "null"):
			c.notNull = true
		case p.kw("null"):
		case p.kw("default"):
			c.def = p.otherOp()
		case p.kw("primary", "key"):
			c.pk = true
			c.notNull = true
		case p.kw("unique"):
			c.unique = true
		case p.kw("check"):
			p.needOp("(")
			c.check = p.expr()
			p.needOp(")")
		case p.isKw("references"):
			c.ref = p.references()
			c.ref.cols = []string{c.name}
		default:
			return c
		}
	}
}

func (p *parser) drop() Stmt {
	p.need("drop")
	d := &dropStmt{}
	switch {
	case p.kw("schema"):
		s := &dropSchema{ie: p.ife()}
		s.name = p.anyIdent()
		s.cascade = p.kw("cascade")
		return s
	case p.kw("table"):
		d.kind = "table"
	case p.kw("index"):
		d.kind = "index"
		p.kw("concurrently")
	case p.kw("function"):
		d.kind = "function"
	case p.kw("trigger"):
		d.kind = "trigger"
	case p.kw("view"), p.kw("extension"), p.kw("type"):
		p.skipStmt()
		return &setStmt{}
	default:
		p.errNear()
	}
	d.ie = p.ife()
	for {
		a, b := p.qname()
		d.names = append(d.names, [2]string{a, b})
		if d.kind == "function" && p.op("(") {
			for !p.op(")") {
				p.next()
			}
		}
		if !p.op(",") {
			break
		}
	}
	if d.kind == "trigger" {
		p.need("on")
		a, b := p.qname()
		d.onTable = a + "." + b
		if a == "" {
			d.onTable = b
		}
	}
	if p.kw("cascade") {
		d.cascade = true
	}
	p.kw("restrict")
	return d
}

func (p *parser) alter() Stmt {
	p.need("alter")
	if !p.kw("table") {
		p.skipStmt()
		return &setStmt{}
	}
	s := &alterTable{ie: p.ife()}
	p.kw("only")
	s.schema, s.name = p.qname()
	for {
		a := alterAction{}
		switch {
		case p.kw("add"):
			if c, ok := p.tableConstraint(); ok {
				a.op, a.con = "addcon", c
				if p.kw("not", "valid") {
				}
			} else {
				p.kw("column")
				a.op = "addcol"
				a.ine = p.ine()
				a.col = p.colSpec()
			}
		case p.kw("drop", "constraint"):
			a.op = "dropcon"
			a.ine = p.ife()
			a.name = p.anyIdent()
			a.cascade = p.kw("cascade")
		case p.kw("drop"):
			p.kw("column")
			a.op = "dropcol"
			a.ine = p.ife()
			a.name = p.anyIdent()
			a.cascade = p.kw("cascade")
		case p.kw("rename", "to"):
			a.op = "renametable"
			a.name = p.anyIdent()
		case p.kw("rename"):
			p.kw("column")
			a.op = "renamecol"
			a.name = p.anyIdent()
			p.need("to")
			a.name2 = p.anyIdent()
		case p.kw("validate", "constraint"):
			a.op = "noop"
			p.anyIdent()
		case p.kw("alter"):
			p.kw("column")
			a.name = p.anyIdent()
			switch {
			case p.kw("type"), p.kw("set", "data", "type"):
				a.op = "altertype"
				a.typ = p.typeName()
				if p.kw("using") {
					a.using = p.expr()
				}
			case p.kw("set", "default"):
				a.op = "setdef"
				a.def = p.expr()
			case p.kw("drop", "default"):
				a.op = "dropdef"
			case p.kw("set", "not", "null"):
				a.op = "setnn"
			case p.kw("drop", "not", "null"):
				a.op = "dropnn"
			default:
				p.errNear()
			}
		default:
			p.errNear()
		}
		s.actions = append(s.actions, a)
		if !p.op(",") {
			break
		}
	}
	return s
}
