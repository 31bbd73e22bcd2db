package pgfake

import (
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"regexp"
	"strconv"
	"strings"
	"time"

	"github.com/shopspring/decimal"
)

type env struct {
	tup  []Val
	up   *env
	aggs []Val
	wins []Val
}

type xctx struct {
	e      *Engine
	s      *session
	tx     *Tx
	params []Val // nil or string
	cteRes map[*cteDef]*rowset
	now    time.Time
	depth  int
	after  []func() error // AFTER triggers
	q      int64
	noTrig bool // backdoor: triggers and foreign keys do not run
}

type cexpr struct {
	t Type
	f func(x *xctx, e *env) (Val, error)
}

type colInfo struct {
	name string
	t    Type
}

type srel struct {
	alias  string
	schema string
	cols   []colInfo
	off    int
	tbl    *table
}

type scope struct {
	up      *scope
	rels    []*srel
	width   int
	touched uint64
	ctes    map[string]*cteDef
	isVars  bool // PL/pgSQL variables
}

type cteDef struct {
	name string
	cols []colInfo
	plan plan
}

type aggSpec struct {
	name     string
	star     bool
	distinct bool
	arg      *cexpr
	arg2     *cexpr
	filter   *cexpr
	typ      Type
	order    []cOrder
}

type cOrder struct {
	c          *cexpr
	desc       bool
	nullsFirst bool
}

type compiler struct {
	e       *Engine
	nparams int
	sc      *scope
	aggs    *[]*aggSpec
	wins    *[]*winSpec
	inAgg   bool
}

type winSpec struct {
	name string
	args []*cexpr
	part []*cexpr
	ord  []cOrder
	star bool
}

func (s *scope) addRel(r *srel) {
	r.off = s.width
	s.width += len(r.cols)
	s.rels = append(s.rels, r)
}

type colRefErr struct{ name string }

func (c *compiler) resolve(parts []string) (*cexpr, error) {
	depth := 0
	for s := c.sc; s != nil; s = s.up {
		var hit *srel
		var hi int
		rel := -1
		for ri, r := range s.rels {
			switch len(parts) {
			case 1:
			case 2:
				if r.alias != parts[0] {
					continue
				}
			case 3:
				if r.schema != parts[0] || r.alias != parts[1] {
					continue
				}
			default:
				continue
			}
			n := parts[len(parts)-1]
			for i, ci := range r.cols {
				if ci.name == n {
					if hit != nil {
						return nil, pgErr("42702", fmt.Sprintf("column reference %q is ambiguous", n))
					}
					hit, hi, rel = r, i, ri
				}
			}
		}
		if hit != nil {
			s.touched |= 1 << uint(rel)
			return mkCol(depth, hit.off+hi, hit.cols[hi].t), nil
		}
		if len(parts) == 1 {
			for ri, r := range s.rels {
				if r.alias == parts[0] {
					s.touched |= 1 << uint(ri)
					r := r
					names := make([]string, len(r.cols))
					types := make([]Type, len(r.cols))
					for i, ci := range r.cols {
						names[i], types[i] = ci.name, ci.t
					}
					d := depth
					return &cexpr{Type{b: tRecord}, func(x *xctx, e *env) (Val, error) {
						for i := 0; i < d; i++ {
							e = e.up
						}
						vals := append([]Val{}, e.tup[r.off:r.off+len(r.cols)]...)
						return rowVal{names, vals, types}, nil
					}}, nil
				}
			}
		}
		depth++
	}
	if len(parts) > 1 {
		return nil, pgErr("42P01", fmt.Sprintf("missing FROM-clause entry for table %q", parts[len(parts)-2]))
	}
	return nil, pgErr("42703", fmt.Sprintf("column %q does not exist", parts[0]))
}

func mkCol(depth, idx int, t Type) *cexpr {
	switch depth {
	case 0:
		return &cexpr{t, func(x *xctx, e *env) (Val, error) { return e.tup[idx], nil }}
	case 1:
		return &cexpr{t, func(x *xctx, e *env) (Val, error) { return e.up.tup[idx], nil }}
	}
	return &cexpr{t, func(x *xctx, e *env) (Val, error) {
		for i := 0; i < depth; i++ {
			e = e.up
		}
		return e.tup[idx], nil
	}}
}

func constExpr(v Val, t Type) *cexpr {
	return &cexpr{t, func(x *xctx, e *env) (Val, error) { return v, nil }}
}

// coerce implicit-casts c to t (unknown literals and parameters are parsed).
func coerce(c *cexpr, t Type) *cexpr {
	if c.t.b == t.b && c.t.arr == t.arr {
		return c
	}
	from := c.t
	f := c.f
	if t.b == tUnknown {
		return c
	}
	return &cexpr{t, func(x *xctx, e *env) (Val, error) {
		v, err := f(x, e)
		if err != nil || v == nil {
			return nil, err
		}
		return castVal(v, from, t)
	}}
}

func isNum(t Type) bool {
	return !t.arr && (t.b == tInt4 || t.b == tInt8 || t.b == tNumeric || t.b == tFloat8)
}
func isTime(t Type) bool {
	return !t.arr && (t.b == tTimestamp || t.b == tTimestamptz || t.b == tDate)
}

// commonType unifies two types for comparison, CASE, COALESCE, UNION.
func commonType(a, b Type) (Type, bool) {
	if a.b == tUnknown && b.b == tUnknown && !a.arr && !b.arr {
		return Type{b: tText}, true
	}
	if a.b == tUnknown && !a.arr {
		b.hasMod = false
		return b, true
	}
	if b.b == tUnknown && !b.arr {
		a.hasMod = false
		return a, true
	}
	if a.b == b.b && a.arr == b.arr {
		a.hasMod = false
		return a, true
	}
	if a.arr && b.arr && a.b == tUnknown {
		return b, true
	}
	if a.arr && b.arr && b.b == tUnknown {
		return a, true
	}
	if isNum(a) && isNum(b) {
		r := func(t Type) int {
			switch t.b {
			case tInt4:
				return 0
			case tInt8:
				return 1
			case tNumeric:
				return 2
			}
			return 3
		}
		if r(a) > r(b) {
			a.hasMod = false
			return a, true
		}
		b.hasMod = false
		return b, true
	}
	if isTime(a) && isTime(b) {
		r := func(t Type) int {
			switch t.b {
			case tDate:
				return 0
			case tTimestamp:
				return 1
			}
			return 2
		}
		if r(a) > r(b) {
			return a, true
		}
		return b, true
	}
	if (a.b == tJSON && b.b == tJSONB) || (a.b == tJSONB && b.b == tJSON) {
		return Type{b: tJSONB}, true
	}
	return Type{}, false
}

func (c *compiler) exprs(l []Expr) ([]*cexpr, error) {
	out := make([]*cexpr, len(l))
	for i, x := range l {
		r, err := c.expr(x)
		if err != nil {
			return nil, err
		}
		out[i] = r
	}
	return out, nil
}

func (c *compiler) boolean(x Expr) (*cexpr, error) {
	r, err := c.expr(x)
	if err != nil {
		return nil, err
	}
	if r.t.b == tUnknown {
		return coerce(r, Type{b: tBool}), nil
	}
	if r.t.b != tBool {
		return nil, pgErr("42804", "argument must be type boolean, not type "+r.t.name())
	}
	return r, nil
}

func (c *compiler) expr(x Expr) (*cexpr, error) {
	switch n := x.(type) {
	case *eLit:
		switch n.kind {
		case "null":
			return constExpr(nil, Type{b: tUnknown}), nil
		case "bool":
			return constExpr(n.b, Type{b: tBool}), nil
		case "str":
			return constExpr(n.s, Type{b: tUnknown}), nil
		}
		if !strings.ContainsAny(n.s, ".eE") {
			if i, err := strconv.ParseInt(n.s, 10, 64); err == nil {
				if i <= math.MaxInt32 {
					return constExpr(i, Type{b: tInt4}), nil
				}
				return constExpr(i, Type{b: tInt8}), nil
			}
		}
		d, err := decimal.NewFromString(n.s)
		if err != nil {
			return nil, pgErr("42601", "bad number "+n.s)
		}
		return constExpr(d, Type{b: tNumeric}), nil
	case *eParam:
		if n.n > c.nparams {
			c.nparams = n.n
		}
		i := n.n - 1
		return &cexpr{Type{b: tUnknown}, func(x *xctx, e *env) (Val, error) {
			if i >= len(x.params) {
				return nil, pgErr("42P02", fmt.Sprintf("there is no parameter $%d", i+1))
			}
			return x.params[i], nil
		}}, nil
	case *eCol:
		return c.resolve(n.parts)
	case *eCast:
		a, err := c.expr(n.x)
		if err != nil {
			return nil, err
		}
		from, to, f := a.t, n.typ, a.f
		return &cexpr{to, func(x *xctx, e *env) (Val, error) {
			v, err := f(x, e)
			if err != nil || v == nil {
				return nil, err
			}
			return castVal(v, from, to)
		}}, nil
	case *eUn:
		switch n.op {
		case "not":
			a, err := c.boolean(n.x)
			if err != nil {
				return nil, err
			}
			return &cexpr{Type{b: tBool}, func(x *xctx, e *env) (Val, error) {
				v, err := a.f(x, e)
				if err != nil || v == nil {
					return nil, err
				}
				return !v.(bool), nil
			}}, nil
		case "-":
			a, err := c.expr(n.x)
			if err != nil {
				return nil, err
			}
			t := a.t
			if t.b == tUnknown {
				t = Type{b: tFloat8}
				a = coerce(a, t)
			}
			return &cexpr{t, func(x *xctx, e *env) (Val, error) {
				v, err := a.f(x, e)
				if err != nil || v == nil {
					return nil, err
				}
				switch y := v.(type) {
				case int64:
					return -y, nil
				case decimal.Decimal:
					return y.Neg(), nil
				case float64:
					return -y, nil
				case interval:
					return interval{-y.months, -y.days, -y.us}, nil
				}
				return nil, pgErr("42883", "operator does not exist: - "+t.name())
			}}, nil
		}
	case *eBin:
		return c.binary(n)
	case *eIsNull:
		a, err := c.expr(n.x)
		if err != nil {
			return nil, err
		}
		not := n.not
		return &cexpr{Type{b: tBool}, func(x *xctx, e *env) (Val, error) {
			v, err := a.f(x, e)
			if err != nil {
				return nil, err
			}
			return (v == nil) != not, nil
		}}, nil
	case *eIsBool:
		a, err := c.boolean(n.x)
		if err != nil {
			return nil, err
		}
		val, not := n.val, n.not
		return &cexpr{Type{b: tBool}, func(x *xctx, e *env) (Val, error) {
			v, err := a.f(x, e)
			if err != nil {
				return nil, err
			}
			return (v != nil && v.(bool) == val) != not, nil
		}}, nil
	case *eIsDistinct:
		l, r, _, err := c.unify(n.l, n.r, "IS DISTINCT FROM")
		if err != nil {
			return nil, err
		}
		not := n.not
		return &cexpr{Type{b: tBool}, func(x *xctx, e *env) (Val, error) {
			a, err := l.f(x, e)
			if err != nil {
				return nil, err
			}
			b, err := r.f(x, e)
			if err != nil {
				return nil, err
			}
			var d bool
			if a == nil || b == nil {
				d = (a == nil) != (b == nil)
			} else {
				d = cmpVals(a, b) != 0
			}
			return d != not, nil
		}}, nil
	case *eBetween:
		ge := &eBin{">=", n.x, n.lo}
		le := &eBin{"<=", n.x, n.hi}
		var y Expr = &eBin{"and", ge, le}
		if n.not {
			y = &eUn{"not", y}
		}
		return c.expr(y)
	case *eIn:
		return c.in(n)
	case *eAny:
		return c.any(n)
	case *eLike:
		a, err := c.expr(n.x)
		if err != nil {
			return nil, err
		}
		p, err := c.expr(n.pat)
		if err != nil {
			return nil, err
		}
		if a.t.b != tText && a.t.b != tUnknown || a.t.arr {
			return nil, pgErr("42883", "operator does not exist: "+a.t.name()+" ~~ unknown")
		}
		if p.t.b != tText && p.t.b != tUnknown {
			return nil, pgErr("42883", "operator does not exist: text ~~ "+p.t.name())
		}
		not, ci := n.not, n.ci
		return &cexpr{Type{b: tBool}, func(x *xctx, e *env) (Val, error) {
			v, err := a.f(x, e)
			if err != nil || v == nil {
				return nil, err
			}
			q, err := p.f(x, e)
			if err != nil || q == nil {
				return nil, err
			}
			m, err := likeMatch(v.(string), q.(string), ci)
			if err != nil {
				return nil, err
			}
			return m != not, nil
		}}, nil
	case *eCase:
		return c.caseExpr(n)
	case *eExists:
		sp, err := c.subselect(n.sel)
		if err != nil {
			return nil, err
		}
		return &cexpr{Type{b: tBool}, func(x *xctx, e *env) (Val, error) {
			rs, err := sp.run(x, e)
			if err != nil {
				return nil, err
			}
			return len(rs.rows) > 0, nil
		}}, nil
	case *eSub:
		sp, err := c.subselect(n.sel)
		if err != nil {
			return nil, err
		}
		if len(sp.columns()) != 1 {
			return nil, pgErr("42601", "subquery must return only one column")
		}
		return &cexpr{sp.columns()[0].t, func(x *xctx, e *env) (Val, error) {
			rs, err := sp.run(x, e)
			if err != nil {
				return nil, err
			}
			if len(rs.rows) > 1 {
				return nil, pgErr("21000", "more than one row returned by a subquery used as an expression")
			}
			if len(rs.rows) == 0 {
				return nil, nil
			}
			return rs.rows[0][0], nil
		}}, nil
	case *eArray:
		el, err := c.exprs(n.elems)
		if err != nil {
			return nil, err
		}
		t := Type{b: tUnknown}
		for _, a := range el {
			ct, ok := commonType(t, a.t)
			if !ok {
				return nil, pgErr("42804", "ARRAY types cannot be matched")
			}
			t = ct
		}
		if t.b == tUnknown {
			t.b = tText
		}
		for i := range el {
			el[i] = coerce(el[i], t)
		}
		return &cexpr{Type{b: t.b, arr: true}, func(x *xctx, e *env) (Val, error) {
			out := make([]Val, len(el))
			for i, a := range el {
				v, err := a.f(x, e)
				if err != nil {
					return nil, err
				}
				out[i] = v
			}
			return out, nil
		}}, nil
	case *eRow:
		el, err := c.exprs(n.elems)
		if err != nil {
			return nil, err
		}
		return &cexpr{Type{b: tRecord}, func(x *xctx, e *env) (Val, error) {
			r := rowVal{}
			for i, a := range el {
				v, err := a.f(x, e)
				if err != nil {
					return nil, err
				}
				r.vals = append(r.vals, v)
				r.names = append(r.names, fmt.Sprintf("f%d", i+1))
				r.types = append(r.types, a.t)
			}
			return r, nil
		}}, nil
	case *eIndex:
		a, err := c.expr(n.x)
		if err != nil {
			return nil, err
		}
		i, err := c.expr(n.i)
		if err != nil {
			return nil, err
		}
		return &cexpr{Type{b: a.t.b}, func(x *xctx, e *env) (Val, error) {
			v, err := a.f(x, e)
			if err != nil || v == nil {
				return nil, err
			}
			k, err := i.f(x, e)
			if err != nil || k == nil {
				return nil, err
			}
			l := v.([]Val)
			j := k.(int64)
			if j < 1 || int(j) > len(l) {
				return nil, nil
			}
			return l[j-1], nil
		}}, nil
	case *eFunc:
		return c.fn(n)
	case *eDefault:
		return nil, pgErr("42601", "DEFAULT is not allowed in this context")
	}
	return nil, pgErr("0A000", fmt.Sprintf("pgfake: expression %T not supported", x))
}

func (c *compiler) unify(le, re Expr, op string) (l, r *cexpr, t Type, err error) {
	l, err = c.expr(le)
	if err != nil {
		return
	}
	r, err = c.expr(re)
	if err != nil {
		return
	}
	return c.unifyC(l, r, op)
}

func (c *compiler) unifyC(l, r *cexpr, op string) (*cexpr, *cexpr, Type, error) {
	t, ok := commonType(l.t, r.t)
	if !ok {
		return nil, nil, t, pgErr("42883", fmt.Sprintf("operator does not exist: %s %s %s", l.t.name(), op, r.t.name()))
	}
	if isNum(l.t) && isNum(r.t) && !(l.t.b == tFloat8 || r.t.b == tFloat8) {
		return l, r, t, nil
	}
	if isTime(l.t) && isTime(r.t) {
		return l, r, t, nil
	}
	return coerce(l, t), coerce(r, t), t, nil
}

func (c *compiler) binary(n *eBin) (*cexpr, error) {
	switch n.op {
	case "and", "or":
		l, err := c.boolean(n.l)
		if err != nil {
			return nil, err
		}
		r, err := c.boolean(n.r)
		if err != nil {
			return nil, err
		}
		stop := n.op == "or"
		return &cexpr{Type{b: tBool}, func(x *xctx, e *env) (Val, error) {
			a, err := l.f(x, e)
			if err != nil {
				return nil, err
			}
			if a == stop {
				return stop, nil
			}
			b, err := r.f(x, e)
			if err != nil {
				return nil, err
			}
			if b == stop {
				return stop, nil
			}
			if a == nil || b == nil {
				return nil, nil
			}
			return !stop, nil
		}}, nil
	case "=", "<>", "<", ">", "<=", ">=":
		l, r, t, err := c.unify(n.l, n.r, n.op)
		if err != nil {
			return nil, err
		}
		if t.b == tJSON {
			return nil, pgErr("42883", "operator does not exist: json "+n.op+" json")
		}
		op := n.op
		return &cexpr{Type{b: tBool}, func(x *xctx, e *env) (Val, error) {
			a, err := l.f(x, e)
			if err != nil || a == nil {
				return nil, err
			}
			b, err := r.f(x, e)
			if err != nil || b == nil {
				return nil, err
			}
			return cmpOp(op, cmpVals(a, b)), nil
		}}, nil
	case "+", "-", "*", "/", "%":
		return c.arith(n)
	}
	l, err := c.expr(n.l)
	if err != nil {
		return nil, err
	}
	r, err := c.expr(n.r)
	if err != nil {
		return nil, err
	}
	nn := func(t Type, f func(a, b Val) (Val, error)) *cexpr {
		return &cexpr{t, func(x *xctx, e *env) (Val, error) {
			a, err := l.f(x, e)
			if err != nil || a == nil {
				return nil, err
			}
			b, err := r.f(x, e)
			if err != nil || b == nil {
				return nil, err
			}
			return f(a, b)
		}}
	}
	jb := Type{b: tJSONB}
	switch n.op {
	case "||":
		if l.t.b == tJSONB || r.t.b == tJSONB {
			l, r = coerce(l, jb), coerce(r, jb)
			return nn(jb, func(a, b Val) (Val, error) { return jsonConcat(a.(jsonVal), b.(jsonVal)), nil }), nil
		}
		if l.t.arr || r.t.arr {
			t := l.t
			if !t.arr {
				t = r.t
			}
			return nn(t, func(a, b Val) (Val, error) {
				var out []Val
				if x, ok := a.([]Val); ok {
					out = append(out, x...)
				} else {
					out = append(out, a)
				}
				if x, ok := b.([]Val); ok {
					out = append(out, x...)
				} else {
					out = append(out, b)
				}
				return out, nil
			}), nil
		}
		lt, rt := l.t, r.t
		return nn(Type{b: tText}, func(a, b Val) (Val, error) {
			p, err := castVal(a, lt, Type{b: tText})
			if err != nil {
				return nil, err
			}
			q, err := castVal(b, rt, Type{b: tText})
			if err != nil {
				return nil, err
			}
			return p.(string) + q.(string), nil
		}), nil
	case "->", "->>":
		if l.t.b != tJSON && l.t.b != tJSONB {
			return nil, pgErr("42883", "operator does not exist: "+l.t.name()+" "+n.op+" "+r.t.name())
		}
		text := n.op == "->>"
		t := l.t
		if text {
			t = Type{b: tText}
		}
		return nn(t, func(a, b Val) (Val, error) {
			var v any
			ok := false
			switch k := b.(type) {
			case string:
				if m, is := a.(jsonVal).v.(map[string]any); is {
					v, ok = m[k]
				}
			case int64:
				if l, is := a.(jsonVal).v.([]any); is {
					if k < 0 {
						k += int64(len(l))
					}
					if k >= 0 && int(k) < len(l) {
						v, ok = l[k], true
					}
				}
			}
			if !ok {
				return nil, nil
			}
			if text {
				return jsonToText(v), nil
			}
			return jsonVal{v}, nil
		}), nil
	case "#>", "#>>":
		text := n.op == "#>>"
		t := l.t
		if text {
			t = Type{b: tText}
		}
		r = coerce(r, Type{b: tText, arr: true})
		return nn(t, func(a, b Val) (Val, error) {
			v := a.(jsonVal).v
			for _, k := range b.([]Val) {
				s, _ := k.(string)
				switch y := v.(type) {
				case map[string]any:
					z, ok := y[s]
					if !ok {
						return nil, nil
					}
					v = z
				case []any:
					i, err := strconv.Atoi(s)
					if err != nil {
						return nil, nil
					}
					if i < 0 {
						i += len(y)
					}
					if i < 0 || i >= len(y) {
						return nil, nil
					}
					v = y[i]
				default:
					return nil, nil
				}
			}
			if text {
				return jsonToText(v), nil
			}
			return jsonVal{v}, nil
		}), nil
	case "?":
		return nn(Type{b: tBool}, func(a, b Val) (Val, error) {
			switch y := a.(jsonVal).v.(type) {
			case map[string]any:
				_, ok := y[b.(string)]
				return ok, nil
			case []any:
				for _, e := range y {
					if e == b.(string) {
						return true, nil
					}
				}
				return false, nil
			case string:
				return y == b.(string), nil
			}
			return false, nil
		}), nil
	case "@>", "<@":
		if l.t.arr || r.t.arr {
			t := l.t
			if !t.arr {
				t = r.t
			}
			l, r = coerce(l, t), coerce(r, t)
			sw := n.op == "<@"
			return nn(Type{b: tBool}, func(a, b Val) (Val, error) {
				if sw {
					a, b = b, a
				}
				for _, q := range b.([]Val) {
					ok := false
					for _, p := range a.([]Val) {
						if p != nil && q != nil && cmpVals(p, q) == 0 {
							ok = true
						}
					}
					if !ok {
						return false, nil
					}
				}
				return true, nil
			}), nil
		}
		l, r = coerce(l, jb), coerce(r, jb)
		sw := n.op == "<@"
		return nn(Type{b: tBool}, func(a, b Val) (Val, error) {
			if sw {
				a, b = b, a
			}
			return jsonContains(a.(jsonVal).v, b.(jsonVal).v, true), nil
		}), nil
	case "~", "~*", "!~", "!~*":
		ci := strings.HasSuffix(n.op, "*")
		not := n.op[0] == '!'
		return nn(Type{b: tBool}, func(a, b Val) (Val, error) {
			p := b.(string)
			if ci {
				p = "(?i)" + p
			}
			re, err := regexp.Compile(p)
			if err != nil {
				return nil, pgErr("2201B", "invalid regular expression")
			}
			return re.MatchString(a.(string)) != not, nil
		}), nil
	}
	return nil, pgErr("0A000", "pgfake: operator "+n.op+" not supported")
}

func cmpOp(op string, c int) bool {
	switch op {
	case "=":
		return c == 0
	case "<>":
		return c != 0
	case "<":
		return c < 0
	case ">":
		return c > 0
	case "<=":
		return c <= 0
	}
	return c >= 0
}

func jsonToText(v any) Val {
	switch y := v.(type) {
	case nil:
		return nil
	case string:
		return y
	}
	return jsonText(v)
}

func jsonConcat(a, b jsonVal) Val {
	ma, ok1 := a.v.(map[string]any)
	mb, ok2 := b.v.(map[string]any)
	if ok1 && ok2 {
		m := make(map[string]any, len(ma)+len(mb))
		for k, v := range ma {
			m[k] = v
		}
		for k, v := range mb {
			m[k] = v
		}
		return jsonVal{m}
	}
	arr := func(v any) []any {
		if l, ok := v.([]any); ok {
			return l
		}
		return []any{v}
	}
	return jsonVal{append(append([]any{}, arr(a.v)...), arr(b.v)...)}
}

func jsonEq(a, b any) bool { return jsonCanon(a) == jsonCanon(b) }

func jsonCanon(v any) string {
	if n, ok := v.(json.Number); ok {
		if d, err := decimal.NewFromString(string(n)); err == nil {
			return d.String()
		}
	}
	return jsonText(v)
}

func jsonContains(a, b any, top bool) bool {
	switch y := b.(type) {
	case map[string]any:
		x, ok := a.(map[string]any)
		if !ok {
			return false
		}
		for k, v := range y {
			w, ok := x[k]
			if !ok || !jsonContains(w, v, false) {
				return false
			}
		}
		return true
	case []any:
		x, ok := a.([]any)
		if !ok {
			return false
		}
		for _, v := range y {
			f := false
			for _, w := range x {
				if jsonContains(w, v, false) {
					f = true
				}
			}
			if !f {
				return false
			}
		}
		return true
	}
	if x, ok := a.([]any); ok && top {
		for _, w := range x {
			if jsonEq(w, b) {
				return true
			}
		}
		return false
	}
	switch a.(type) {
	case map[string]any, []any:
		return false
	}
	return jsonEq(a, b)
}

func (c *compiler) arith(n *eBin) (*cexpr, error) {
	l, err := c.expr(n.l)
	if err != nil {
		return nil, err
	}
	r, err := c.expr(n.r)
	if err != nil {
		return nil, err
	}
	op := n.op
	noop := func() error {
		return pgErr("42883", fmt.Sprintf("operator does not exist: %s %s %s", l.t.name(), op, r.t.name()))
	}
	mk := func(t Type, f func(a, b Val) (Val, error)) *cexpr {
		return &cexpr{t, func(x *xctx, e *env) (Val, error) {
			a, err := l.f(x, e)
			if err != nil || a == nil {
				return nil, err
			}
			b, err := r.f(x, e)
			if err != nil || b == nil {
				return nil, err
			}
			return f(a, b)
		}}
	}
	sg := int64(1)
	if op == "-" {
		sg = -1
	}
	// jsonb - text
	if l.t.b == tJSONB && op == "-" {
		if r.t.b == tInt4 {
			return nil, noop()
		}
		return mk(Type{b: tJSONB}, func(a, b Val) (Val, error) {
			keys := []Val{b}
			if l, ok := b.([]Val); ok {
				keys = l
			}
			switch y := a.(jsonVal).v.(type) {
			case map[string]any:
				m := map[string]any{}
				for k, v := range y {
					m[k] = v
				}
				for _, k := range keys {
					delete(m, k.(string))
				}
				return jsonVal{m}, nil
			case []any:
				var o []any
				for _, e := range y {
					keep := true
					for _, k := range keys {
						if e == k {
							keep = false
						}
					}
					if keep {
						o = append(o, e)
					}
				}
				return jsonVal{o}, nil
			}
			return nil, pgErr("22023", "cannot delete from scalar")
		}), nil
	}
	// time arithmetic
	if isTime(l.t) || isTime(r.t) || l.t.b == tInterval || r.t.b == tInterval {
		iv := Type{b: tInterval}
		switch {
		case isTime(l.t) && r.t.b == tUnknown && op == "-":
			r = coerce(r, l.t)
		case isTime(l.t) && r.t.b == tUnknown:
			r = coerce(r, iv)
		case l.t.b == tUnknown && isTime(r.t) && op == "-":
			l = coerce(l, r.t)
		case l.t.b == tInterval && r.t.b == tUnknown && (op == "+" || op == "-"):
			r = coerce(r, iv)
		case l.t.b == tUnknown && r.t.b == tInterval && (op == "+" || op == "-"):
			l = coerce(l, iv)
		case l.t.b == tUnknown && r.t.b == tInterval && op == "*":
			l = coerce(l, Type{b: tFloat8})
		case r.t.b == tUnknown && l.t.b == tInterval:
			r = coerce(r, Type{b: tFloat8})
		}
		switch {
		case isTime(l.t) && r.t.b == tInterval && (op == "+" || op == "-"):
			t := l.t
			if t.b == tDate {
				t = Type{b: tTimestamp}
			}
			return mk(t, func(a, b Val) (Val, error) { return addInterval(a.(time.Time), b.(interval), sg), nil }), nil
		case l.t.b == tInterval && isTime(r.t) && op == "+":
			t := r.t
			if t.b == tDate {
				t = Type{b: tTimestamp}
			}
			return mk(t, func(a, b Val) (Val, error) { return addInterval(b.(time.Time), a.(interval), 1), nil }), nil
		case isTime(l.t) && isTime(r.t) && op == "-":
			if l.t.b == tDate && r.t.b == tDate {
				return mk(Type{b: tInt4}, func(a, b Val) (Val, error) {
					return int64(a.(time.Time).Sub(b.(time.Time)) / (24 * time.Hour)), nil
				}), nil
			}
			return mk(Type{b: tInterval}, func(a, b Val) (Val, error) {
				us := a.(time.Time).Sub(b.(time.Time)).Microseconds()
				return interval{0, us / 86400e6, us % 86400e6}, nil
			}), nil
		case l.t.b == tDate && isNum(r.t):
			return mk(Type{b: tDate}, func(a, b Val) (Val, error) {
				return a.(time.Time).AddDate(0, 0, int(sg*b.(int64))), nil
			}), nil
		case l.t.b == tInterval && r.t.b == tInterval && (op == "+" || op == "-"):
			return mk(iv, func(a, b Val) (Val, error) {
				p, q := a.(interval), b.(interval)
				return interval{p.months + sg*q.months, p.days + sg*q.days, p.us + sg*q.us}, nil
			}), nil
		case l.t.b == tInterval && isNum(r.t) && (op == "*" || op == "/"), r.t.b == tInterval && isNum(l.t) && op == "*":
			return mk(iv, func(a, b Val) (Val, error) {
				i, ok := a.(interval)
				m := b
				if !ok {
					i, m = b.(interval), a
				}
				d, _ := toDec(m)
				f, _ := d.Float64()
				if op == "/" {
					if f == 0 {
						return nil, pgErr("22012", "division by zero")
					}
					f = 1 / f
				}
				dd := float64(i.days) * f
				return interval{int64(float64(i.months) * f), int64(dd), int64(math.Round(float64(i.us)*f + (dd-math.Trunc(dd))*86400e6))}, nil
			}), nil
		}
		return nil, noop()
	}
	t, ok := commonType(l.t, r.t)
	if !ok {
		return nil, noop()
	}
	if t.b == tText && l.t.b == tUnknown && r.t.b == tUnknown {
		return nil, pgErr("42725", "operator is not unique: unknown "+op+" unknown")
	}
	if !isNum(t) {
		return nil, noop()
	}
	l, r = coerce(l, t), coerce(r, t)
	return mk(t, func(a, b Val) (Val, error) {
		switch t.b {
		case tInt4, tInt8:
			p, q := a.(int64), b.(int64)
			var res *big.Int
			P, Q := big.NewInt(p), big.NewInt(q)
			switch op {
			case "+":
				res = P.Add(P, Q)
			case "-":
				res = P.Sub(P, Q)
			case "*":
				res = P.Mul(P, Q)
			case "/":
				if q == 0 {
					return nil, pgErr("22012", "division by zero")
				}
				res = P.Quo(P, Q)
			case "%":
				if q == 0 {
					return nil, pgErr("22012", "division by zero")
				}
				res = P.Rem(P, Q)
			}
			if !res.IsInt64() || t.b == tInt4 && (res.Int64() > math.MaxInt32 || res.Int64() < math.MinInt32) {
				return nil, pgErr("22003", t.name()+" out of range")
			}
			return res.Int64(), nil
		case tNumeric:
			p, q := a.(decimal.Decimal), b.(decimal.Decimal)
			switch op {
			case "+":
				return p.Add(q), nil
			case "-":
				return p.Sub(q), nil
			case "*":
				return p.Mul(q), nil
			case "/":
				if q.IsZero() {
					return nil, pgErr("22012", "division by zero")
				}
				return p.DivRound(q, 20), nil
			}
			if q.IsZero() {
				return nil, pgErr("22012", "division by zero")
			}
			return p.Mod(q), nil
		}
		p, q := a.(float64), b.(float64)
		switch op {
		case "+":
			return p + q, nil
		case "-":
			return p - q, nil
		case "*":
			return p * q, nil
		case "/":
			if q == 0 {
				return nil, pgErr("22012", "division by zero")
			}
			return p / q, nil
		}
		return math.Mod(p, q), nil
	}), nil
}

func (c *compiler) in(n *eIn) (*cexpr, error) {
	l, err := c.expr(n.x)
	if err != nil {
		return nil, err
	}
	not := n.not
	if n.sub != nil {
		sp, err := c.subselect(n.sub)
		if err != nil {
			return nil, err
		}
		cols := sp.columns()
		if l.t.b == tRecord {
			return &cexpr{Type{b: tBool}, func(x *xctx, e *env) (Val, error) {
				a, err := l.f(x, e)
				if err != nil {
					return nil, err
				}
				rs, err := sp.run(x, e)
				if err != nil {
					return nil, err
				}
				for _, r := range rs.rows {
					if cmpVals(a.(rowVal).vals, []Val(r)) == 0 {
						return !not, nil
					}
				}
				return not, nil
			}}, nil
		}
		if len(cols) != 1 {
			return nil, pgErr("42601", "subquery has too many columns")
		}
		t, ok := commonType(l.t, cols[0].t)
		if !ok {
			return nil, pgErr("42883", fmt.Sprintf("operator does not exist: %s = %s", l.t.name(), cols[0].t.name()))
		}
		from := cols[0].t
		lc := coerce(l, t)
		return &cexpr{Type{b: tBool}, func(x *xctx, e *env) (Val, error) {
			a, err := lc.f(x, e)
			if err != nil {
				return nil, err
			}
			rs, err := sp.run(x, e)
			if err != nil {
				return nil, err
			}
			if len(rs.rows) == 0 {
				return not, nil
			}
			if a == nil {
				return nil, nil
			}
			null := false
			for _, r := range rs.rows {
				v, err := castVal(r[0], from, t)
				if err != nil {
					return nil, err
				}
				if v == nil {
					null = true
				} else if cmpVals(a, v) == 0 {
					return !not, nil
				}
			}
			if null {
				return nil, nil
			}
			return not, nil
		}}, nil
	}
	el, err := c.exprs(n.list)
	if err != nil {
		return nil, err
	}
	t := l.t
	for _, a := range el {
		ct, ok := commonType(t, a.t)
		if !ok {
			return nil, pgErr("42883", fmt.Sprintf("operator does not exist: %s = %s", l.t.name(), a.t.name()))
		}
		t = ct
	}
	lc := coerce(l, t)
	for i := range el {
		el[i] = coerce(el[i], t)
	}
	return &cexpr{Type{b: tBool}, func(x *xctx, e *env) (Val, error) {
		a, err := lc.f(x, e)
		if err != nil || a == nil {
			return nil, err
		}
		null := false
		for _, ex := range el {
			v, err := ex.f(x, e)
			if err != nil {
				return nil, err
			}
			if v == nil {
				null = true
			} else if cmpVals(a, v) == 0 {
				return !not, nil
			}
		}
		if null {
			return nil, nil
		}
		return not, nil
	}}, nil
}

func (c *compiler) any(n *eAny) (*cexpr, error) {
	if n.sub != nil {
		if n.op == "=" && !n.all {
			return c.in(&eIn{x: n.x, sub: n.sub})
		}
		return nil, pgErr("0A000", "pgfake: op ANY(subquery) not supported")
	}
	l, err := c.expr(n.x)
	if err != nil {
		return nil, err
	}
	a, err := c.expr(n.arr)
	if err != nil {
		return nil, err
	}
	at := a.t
	if at.b == tUnknown && !at.arr {
		bt := l.t.b
		if bt == tUnknown {
			bt = tText
		}
		at = Type{b: bt, arr: true}
		a = coerce(a, at)
	}
	if !at.arr {
		return nil, pgErr("42809", "op ANY/ALL (array) requires array on right side")
	}
	t, ok := commonType(l.t, Type{b: at.b})
	if !ok {
		return nil, pgErr("42883", fmt.Sprintf("operator does not exist: %s %s %s", l.t.name(), n.op, Type{b: at.b}.name()))
	}
	lc := coerce(l, t)
	ac := coerce(a, Type{b: t.b, arr: true})
	op, all := n.op, n.all
	return &cexpr{Type{b: tBool}, func(x *xctx, e *env) (Val, error) {
		v, err := lc.f(x, e)
		if err != nil {
			return nil, err
		}
		y, err := ac.f(x, e)
		if err != nil || y == nil {
			return nil, err
		}
		null := v == nil
		for _, q := range y.([]Val) {
			if v == nil || q == nil {
				null = true
				continue
			}
			if cmpOp(op, cmpVals(v, q)) != all {
				return !all, nil
			}
		}
		if null && len(y.([]Val)) > 0 {
			return nil, nil
		}
		return all, nil
	}}, nil
}

func (c *compiler) caseExpr(n *eCase) (*cexpr, error) {
	type arm struct{ w, t *cexpr }
	var arms []arm
	t := Type{b: tUnknown}
	for _, w := range n.whens {
		var wc *cexpr
		var err error
		if n.operand != nil {
			wc, err = c.expr(&eBin{"=", n.operand, w[0]})
		} else {
			wc, err = c.boolean(w[0])
		}
		if err != nil {
			return nil, err
		}
		tc, err := c.expr(w[1])
		if err != nil {
			return nil, err
		}
		ct, ok := t, true
		if !(t.b == tUnknown && tc.t.b == tUnknown) {
			ct, ok = commonType(t, tc.t)
		}
		if !ok {
			return nil, pgErr("42804", "CASE types cannot be matched")
		}
		t = ct
		arms = append(arms, arm{wc, tc})
	}
	var els *cexpr
	if n.els != nil {
		var err error
		els, err = c.expr(n.els)
		if err != nil {
			return nil, err
		}
		ct, ok := t, true
		if !(t.b == tUnknown && els.t.b == tUnknown) {
			ct, ok = commonType(t, els.t)
		}
		if !ok {
			return nil, pgErr("42804", "CASE types cannot be matched")
		}
		t = ct
		els = coerce(els, t)
	}
	for i := range arms {
		arms[i].t = coerce(arms[i].t, t)
	}
	return &cexpr{t, func(x *xctx, e *env) (Val, error) {
		for _, a := range arms {
			v, err := a.w.f(x, e)
			if err != nil {
				return nil, err
			}
			if v == true {
				return a.t.f(x, e)
			}
		}
		if els != nil {
			return els.f(x, e)
		}
		return nil, nil
	}}, nil
}

func likeMatch(s, p string, ci bool) (bool, error) {
	if ci {
		s, p = strings.ToLower(s), strings.ToLower(p)
	}
	S, P := []rune(s), []rune(p)
	// trailing escape
	esc := 0
	for i := len(P) - 1; i >= 0 && P[i] == '\\'; i-- {
		esc++
	}
	bad := esc%2 == 1
	type pt struct {
		any, one bool
		r        rune
	}
	var pat []pt
	for i := 0; i < len(P); i++ {
		switch P[i] {
		case '%':
			pat = append(pat, pt{any: true})
		case '_':
			pat = append(pat, pt{one: true})
		case '\\':
			if i+1 < len(P) {
				i++
				pat = append(pat, pt{r: P[i]})
			}
		default:
			pat = append(pat, pt{r: P[i]})
		}
	}
	if bad {
		return false, pgErr("22025", "LIKE pattern must not end with escape character")
	}
	// greedy with backtracking
	si, pi, star, mark := 0, 0, -1, 0
	for si < len(S) {
		if pi < len(pat) && (pat[pi].one || (!pat[pi].any && pat[pi].r == S[si])) {
			si++
			pi++
		} else if pi < len(pat) && pat[pi].any {
			star, mark = pi, si
			pi++
		} else if star >= 0 {
			pi = star + 1
			mark++
			si = mark
		} else {
			return false, nil
		}
	}
	for pi < len(pat) && pat[pi].any {
		pi++
	}
	return pi == len(pat), nil
}
