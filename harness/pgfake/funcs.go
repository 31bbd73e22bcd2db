package pgfake

import (
	"crypto/md5"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"
	"time"

	"github.com/shopspring/decimal"
)

var aggNames = map[string]bool{"count": true, "sum": true, "min": true, "max": true, "avg": true, "bool_or": true, "bool_and": true, "array_agg": true, "string_agg": true, "json_agg": true, "jsonb_agg": true}

func (c *compiler) order(items []orderItem) ([]cOrder, error) {
	var out []cOrder
	for _, o := range items {
		x, err := c.expr(o.x)
		if err != nil {
			return nil, err
		}
		nf := o.desc
		if o.nullsFirst != nil {
			nf = *o.nullsFirst
		}
		out = append(out, cOrder{x, o.desc, nf})
	}
	return out, nil
}

func (c *compiler) fn(n *eFunc) (*cexpr, error) {
	name := strings.TrimPrefix(n.name, "pg_catalog.")
	if n.over {
		if c.wins == nil {
			return nil, pgErr("42P20", "window functions are not allowed here")
		}
		w := &winSpec{name: name, star: n.star}
		var err error
		if w.args, err = c.exprs(n.args); err != nil {
			return nil, err
		}
		if w.part, err = c.exprs(n.partBy); err != nil {
			return nil, err
		}
		if w.ord, err = c.order(n.overOrd); err != nil {
			return nil, err
		}
		i := len(*c.wins)
		*c.wins = append(*c.wins, w)
		t := Type{b: tInt8}
		if name == "sum" || name == "min" || name == "max" {
			t = w.args[0].t
		}
		return &cexpr{t, func(x *xctx, e *env) (Val, error) { return e.wins[i], nil }}, nil
	}
	if aggNames[name] {
		return c.aggregate(n, name)
	}
	args, err := c.exprs(n.args)
	if err != nil {
		return nil, err
	}
	tx := Type{b: tText}
	strict := func(t Type, f func(x *xctx, a []Val) (Val, error)) *cexpr {
		return &cexpr{t, func(x *xctx, e *env) (Val, error) {
			vs := make([]Val, len(args))
			for i, a := range args {
				v, err := a.f(x, e)
				if err != nil {
					return nil, err
				}
				if v == nil {
					return nil, nil
				}
				vs[i] = v
			}
			return f(x, vs)
		}}
	}
	need := func(lo, hi int) error {
		if len(args) < lo || len(args) > hi {
			return pgErr("42883", fmt.Sprintf("function %s with %d arguments does not exist", name, len(args)))
		}
		return nil
	}
	textArg := func(i int) error {
		if args[i].t.b == tUnknown {
			args[i] = coerce(args[i], tx)
		}
		if args[i].t.b != tText || args[i].t.arr {
			return pgErr("42883", fmt.Sprintf("function %s(%s) does not exist", name, args[i].t.name()))
		}
		return nil
	}
	switch name {
	case "now", "current_timestamp", "transaction_timestamp":
		return &cexpr{Type{b: tTimestamptz}, func(x *xctx, e *env) (Val, error) { return x.now, nil }}, nil
	case "clock_timestamp", "statement_timestamp":
		return &cexpr{Type{b: tTimestamptz}, func(x *xctx, e *env) (Val, error) {
			return time.Now().UTC().Round(time.Microsecond), nil
		}}, nil
	case "timezone":
		if err := need(2, 2); err != nil {
			return nil, err
		}
		args[0] = coerce(args[0], tx)
		if args[1].t.b == tUnknown {
			args[1] = coerce(args[1], Type{b: tTimestamptz})
		}
		rt := Type{b: tTimestamp}
		sign := 1
		if args[1].t.b == tTimestamp {
			rt = Type{b: tTimestamptz}
			sign = -1
		}
		return strict(rt, func(x *xctx, a []Val) (Val, error) {
			loc, err := time.LoadLocation(a[0].(string))
			if err != nil {
				return nil, pgErr("22023", "time zone not recognized")
			}
			t := a[1].(time.Time)
			_, off := t.In(loc).Zone()
			return t.Add(time.Duration(sign*off) * time.Second), nil
		}), nil
	case "date_trunc":
		if err := need(2, 2); err != nil {
			return nil, err
		}
		args[0] = coerce(args[0], tx)
		if args[1].t.b == tUnknown {
			args[1] = coerce(args[1], Type{b: tTimestamptz})
		}
		t := args[1].t
		if t.b == tDate {
			t = Type{b: tTimestamptz}
		}
		return strict(t, func(x *xctx, a []Val) (Val, error) {
			t := a[1].(time.Time)
			switch a[0].(string) {
			case "microseconds":
				return t, nil
			case "milliseconds":
				return t.Truncate(time.Millisecond), nil
			case "second":
				return t.Truncate(time.Second), nil
			case "minute":
				return t.Truncate(time.Minute), nil
			case "hour":
				return t.Truncate(time.Hour), nil
			case "day":
				return time.Date(t.Year(), t.Month(), t.Day(), 0, 0, 0, 0, time.UTC), nil
			case "week":
				d := time.Date(t.Year(), t.Month(), t.Day(), 0, 0, 0, 0, time.UTC)
				return d.AddDate(0, 0, -(int(d.Weekday())+6)%7), nil
			case "month":
				return time.Date(t.Year(), t.Month(), 1, 0, 0, 0, 0, time.UTC), nil
			case "year":
				return time.Date(t.Year(), 1, 1, 0, 0, 0, 0, time.UTC), nil
			}
			return nil, pgErr("22023", "unit not recognized")
		}), nil
	case "date_part":
		return strict(Type{b: tFloat8}, func(x *xctx, a []Val) (Val, error) {
			switch t := a[1].(type) {
			case time.Time:
				switch a[0].(string) {
				case "epoch":
					return float64(t.UnixMicro()) / 1e6, nil
				case "year":
					return float64(t.Year()), nil
				case "month":
					return float64(t.Month()), nil
				case "day":
					return float64(t.Day()), nil
				case "hour":
					return float64(t.Hour()), nil
				}
			case interval:
				if a[0] == "epoch" {
					return float64((t.months*30+t.days)*86400) + float64(t.us)/1e6, nil
				}
			}
			return nil, pgErr("22023", "date_part unit not supported")
		}), nil
	case "date":
		return c.expr(&eCast{n.args[0], Type{b: tDate}})
	case "text":
		return c.expr(&eCast{n.args[0], tx})
	case "inet":
		return c.expr(&eCast{n.args[0], Type{b: tInet}})
	case "to_timestamp":
		args[0] = coerce(args[0], Type{b: tFloat8})
		return strict(Type{b: tTimestamptz}, func(x *xctx, a []Val) (Val, error) {
			return time.UnixMicro(int64(a[0].(float64) * 1e6)).UTC(), nil
		}), nil
	case "make_interval":
		return nil, pgErr("0A000", "pgfake: make_interval")
	case "coalesce", "greatest", "least":
		t := Type{b: tUnknown}
		for _, a := range args {
			if t.b == tUnknown && a.t.b == tUnknown {
				continue
			}
			ct, ok := commonType(t, a.t)
			if !ok {
				return nil, pgErr("42804", strings.ToUpper(name)+" types "+t.name()+" and "+a.t.name()+" cannot be matched")
			}
			t = ct
		}
		if t.b == tUnknown {
			t = tx
		}
		for i := range args {
			args[i] = coerce(args[i], t)
		}
		return &cexpr{t, func(x *xctx, e *env) (Val, error) {
			var best Val
			for _, a := range args {
				v, err := a.f(x, e)
				if err != nil {
					return nil, err
				}
				if v == nil {
					continue
				}
				if name == "coalesce" {
					return v, nil
				}
				if best == nil || (name == "greatest") == (cmpVals(v, best) > 0) {
					best = v
				}
			}
			return best, nil
		}}, nil
	case "nullif":
		if err := need(2, 2); err != nil {
			return nil, err
		}
		l, r, _, err := c.unifyC(args[0], args[1], "=")
		if err != nil {
			return nil, err
		}
		t := args[0].t
		if t.b == tUnknown {
			t = l.t
		}
		return &cexpr{t, func(x *xctx, e *env) (Val, error) {
			a, err := l.f(x, e)
			if err != nil || a == nil {
				return nil, err
			}
			b, err := r.f(x, e)
			if err != nil {
				return nil, err
			}
			if b != nil && cmpVals(a, b) == 0 {
				return nil, nil
			}
			return a, nil
		}}, nil
	case "lower", "upper", "trim", "btrim", "ltrim", "rtrim", "md5", "length", "char_length", "octet_length", "reverse", "initcap":
		if err := need(1, 2); err != nil {
			return nil, err
		}
		for i := range args {
			if err := textArg(i); err != nil {
				return nil, err
			}
		}
		rt := tx
		if strings.Contains(name, "length") {
			rt = Type{b: tInt4}
		}
		return strict(rt, func(x *xctx, a []Val) (Val, error) {
			s := a[0].(string)
			cut := " "
			if len(a) > 1 {
				cut = a[1].(string)
			}
			switch name {
			case "lower":
				return strings.ToLower(s), nil
			case "upper":
				return strings.ToUpper(s), nil
			case "trim", "btrim":
				return strings.Trim(s, cut), nil
			case "ltrim":
				return strings.TrimLeft(s, cut), nil
			case "rtrim":
				return strings.TrimRight(s, cut), nil
			case "md5":
				h := md5.Sum([]byte(s))
				return hex.EncodeToString(h[:]), nil
			case "length", "char_length":
				return int64(len([]rune(s))), nil
			case "octet_length":
				return int64(len(s)), nil
			}
			return nil, pgErr("0A000", "pgfake: "+name)
		}), nil
	case "left", "right", "repeat":
		if err := textArg(0); err != nil {
			return nil, err
		}
		args[1] = coerce(args[1], Type{b: tInt4})
		return strict(tx, func(x *xctx, a []Val) (Val, error) {
			r := []rune(a[0].(string))
			k := int(a[1].(int64))
			if name == "repeat" {
				if k < 0 {
					k = 0
				}
				return strings.Repeat(a[0].(string), k), nil
			}
			if k < 0 {
				k += len(r)
				if k < 0 {
					k = 0
				}
			}
			if k > len(r) {
				k = len(r)
			}
			if name == "left" {
				return string(r[:k]), nil
			}
			return string(r[len(r)-k:]), nil
		}), nil
	case "substr", "substring":
		if err := textArg(0); err != nil {
			return nil, err
		}
		return strict(tx, func(x *xctx, a []Val) (Val, error) {
			r := []rune(a[0].(string))
			st := int(a[1].(int64)) - 1
			end := len(r)
			if len(a) > 2 {
				end = st + int(a[2].(int64))
			}
			if st < 0 {
				st = 0
			}
			if end > len(r) {
				end = len(r)
			}
			if st >= end {
				return "", nil
			}
			return string(r[st:end]), nil
		}), nil
	case "replace":
		for i := range args {
			if err := textArg(i); err != nil {
				return nil, err
			}
		}
		return strict(tx, func(x *xctx, a []Val) (Val, error) {
			return strings.ReplaceAll(a[0].(string), a[1].(string), a[2].(string)), nil
		}), nil
	case "split_part":
		return strict(tx, func(x *xctx, a []Val) (Val, error) {
			p := strings.Split(a[0].(string), a[1].(string))
			i := int(a[2].(int64))
			if i < 1 || i > len(p) {
				return "", nil
			}
			return p[i-1], nil
		}), nil
	case "concat":
		ts := make([]Type, len(args))
		for i := range args {
			ts[i] = args[i].t
		}
		return &cexpr{tx, func(x *xctx, e *env) (Val, error) {
			s := ""
			for i, a := range args {
				v, err := a.f(x, e)
				if err != nil {
					return nil, err
				}
				s += textOf(v, ts[i])
			}
			return s, nil
		}}, nil
	case "abs", "round", "floor", "ceil", "ceiling", "trunc", "sign":
		if args[0].t.b == tUnknown {
			args[0] = coerce(args[0], Type{b: tFloat8})
		}
		t := args[0].t
		if !isNum(t) {
			return nil, pgErr("42883", "function "+name+"("+t.name()+") does not exist")
		}
		if name != "abs" && (t.b == tInt4 || t.b == tInt8) {
			args[0] = coerce(args[0], Type{b: tNumeric})
			t = Type{b: tNumeric}
		}
		return strict(t, func(x *xctx, a []Val) (Val, error) {
			switch v := a[0].(type) {
			case int64:
				if v < 0 {
					return -v, nil
				}
				return v, nil
			case decimal.Decimal:
				sc := int32(0)
				if len(a) > 1 {
					sc = int32(a[1].(int64))
				}
				switch name {
				case "abs":
					return v.Abs(), nil
				case "round":
					return v.Round(sc), nil
				case "floor":
					return v.Floor(), nil
				case "ceil", "ceiling":
					return v.Ceil(), nil
				case "trunc":
					return v.Truncate(sc), nil
				case "sign":
					return decimal.NewFromInt(int64(v.Sign())), nil
				}
			case float64:
				d := decimal.NewFromFloat(v)
				switch name {
				case "abs":
					d = d.Abs()
				case "round":
					d = d.RoundBank(0)
				case "floor":
					d = d.Floor()
				case "ceil", "ceiling":
					d = d.Ceil()
				case "trunc":
					d = d.Truncate(0)
				}
				f, _ := d.Float64()
				return f, nil
			}
			return nil, pgErr("0A000", name)
		}), nil
	case "jsonb_typeof", "json_typeof":
		args[0] = coerce(args[0], Type{b: tJSONB})
		return strict(tx, func(x *xctx, a []Val) (Val, error) {
			switch a[0].(jsonVal).v.(type) {
			case nil:
				return "null", nil
			case bool:
				return "boolean", nil
			case json.Number:
				return "number", nil
			case string:
				return "string", nil
			case []any:
				return "array", nil
			}
			return "object", nil
		}), nil
	case "jsonb_array_length":
		return strict(Type{b: tInt4}, func(x *xctx, a []Val) (Val, error) {
			l, ok := a[0].(jsonVal).v.([]any)
			if !ok {
				return nil, pgErr("22023", "cannot get array length of a non-array")
			}
			return int64(len(l)), nil
		}), nil
	case "jsonb_set":
		if err := need(3, 4); err != nil {
			return nil, err
		}
		args[0] = coerce(args[0], Type{b: tJSONB})
		args[1] = coerce(args[1], Type{b: tText, arr: true})
		args[2] = coerce(args[2], Type{b: tJSONB})
		if len(args) > 3 {
			args[3] = coerce(args[3], Type{b: tBool})
		}
		return strict(Type{b: tJSONB}, func(x *xctx, a []Val) (Val, error) {
			create := true
			if len(a) > 3 {
				create = a[3].(bool)
			}
			var path []string
			for _, p := range a[1].([]Val) {
				path = append(path, p.(string))
			}
			return jsonVal{jsonSet(a[0].(jsonVal).v, path, a[2].(jsonVal).v, create)}, nil
		}), nil
	case "jsonb_build_object", "json_build_object":
		if len(args)%2 != 0 {
			return nil, pgErr("22023", "argument list must have even number of elements")
		}
		ts := make([]Type, len(args))
		for i := range args {
			ts[i] = args[i].t
		}
		rt := Type{b: tJSONB}
		if name[0:5] == "json_" {
			rt = Type{b: tJSON}
		}
		return &cexpr{rt, func(x *xctx, e *env) (Val, error) {
			m := map[string]any{}
			for i := 0; i < len(args); i += 2 {
				k, err := args[i].f(x, e)
				if err != nil {
					return nil, err
				}
				v, err := args[i+1].f(x, e)
				if err != nil {
					return nil, err
				}
				if k == nil {
					return nil, pgErr("22023", "argument 1: key must not be null")
				}
				m[textOf(k, ts[i])] = toJSON(v, ts[i+1])
			}
			return jsonVal{m}, nil
		}}, nil
	case "row_to_json", "to_json", "to_jsonb":
		rt := Type{b: tJSON}
		if name == "to_jsonb" {
			rt = Type{b: tJSONB}
		}
		t0 := args[0].t
		return strict(rt, func(x *xctx, a []Val) (Val, error) { return jsonVal{toJSON(a[0], t0)}, nil }), nil
	case "array_length", "cardinality":
		return strict(Type{b: tInt4}, func(x *xctx, a []Val) (Val, error) {
			n := len(a[0].([]Val))
			if n == 0 && name == "array_length" {
				return nil, nil
			}
			return int64(n), nil
		}), nil
	case "array_append":
		return strict(args[0].t, func(x *xctx, a []Val) (Val, error) { return append(append([]Val{}, a[0].([]Val)...), a[1]), nil }), nil
	case "pg_notify":
		return &cexpr{Type{b: tVoid}, func(x *xctx, e *env) (Val, error) {
			for _, a := range args {
				if _, err := a.f(x, e); err != nil {
					return nil, err
				}
			}
			return "", nil
		}}, nil
	case "pg_sleep":
		return constExpr("", Type{b: tVoid}), nil
	case "pg_backend_pid":
		return &cexpr{Type{b: tInt4}, func(x *xctx, e *env) (Val, error) { return x.s.id, nil }}, nil
	case "inet_client_addr":
		return constExpr("127.0.0.1", Type{b: tInet}), nil
	case "version":
		return constExpr("PostgreSQL 16.0 (pgfake)", tx), nil
	case "current_database", "current_schema":
		return constExpr("blnk", tx), nil
	case "current_user":
		return constExpr("blnk", tx), nil
	case "txid_current":
		return &cexpr{Type{b: tInt8}, func(x *xctx, e *env) (Val, error) { return x.tx.id, nil }}, nil
	case "random":
		return &cexpr{Type{b: tFloat8}, func(x *xctx, e *env) (Val, error) { return rand.Float64(), nil }}, nil
	case "gen_random_uuid":
		return &cexpr{tx, func(x *xctx, e *env) (Val, error) {
			var b [16]byte
			rand.Read(b[:])
			return fmt.Sprintf("%x-%x-%x-%x-%x", b[:4], b[4:6], b[6:8], b[8:10], b[10:]), nil
		}}, nil
	}
	// user-defined
	if f := c.e.findFunc(n.name); f != nil {
		for i := range args {
			if i < len(f.args) {
				args[i] = coerce(args[i], f.args[i].typ)
			}
		}
		if len(args) > len(f.args) {
			return nil, pgErr("42883", "function "+n.name+" does not exist")
		}
		return &cexpr{f.retType, func(x *xctx, e *env) (Val, error) {
			vs := make([]Val, len(args))
			for i, a := range args {
				v, err := a.f(x, e)
				if err != nil {
					return nil, err
				}
				vs[i] = v
			}
			return x.callFunc(f, vs)
		}}, nil
	}
	return nil, pgErr("42883", "function "+n.name+" does not exist")
}

func jsonSet(v any, path []string, nv any, create bool) any {
	if len(path) == 0 {
		return v
	}
	switch y := v.(type) {
	case map[string]any:
		m := make(map[string]any, len(y)+1)
		for k, e := range y {
			m[k] = e
		}
		old, ok := y[path[0]]
		if len(path) == 1 {
			if ok || create {
				m[path[0]] = nv
			}
			return m
		}
		if ok {
			m[path[0]] = jsonSet(old, path[1:], nv, create)
		}
		return m
	}
	return v
}

func (c *compiler) aggregate(n *eFunc, name string) (*cexpr, error) {
	if c.aggs == nil || c.inAgg {
		return nil, pgErr("42803", "aggregate functions are not allowed here")
	}
	c.inAgg = true
	defer func() { c.inAgg = false }()
	a := &aggSpec{name: name, star: n.star, distinct: n.distinct}
	if !n.star {
		if len(n.args) == 0 {
			return nil, pgErr("42883", name+"() does not exist")
		}
		x, err := c.expr(n.args[0])
		if err != nil {
			return nil, err
		}
		a.arg = x
		if len(n.args) > 1 {
			y, err := c.expr(n.args[1])
			if err != nil {
				return nil, err
			}
			a.arg2 = y
		}
	}
	if n.filter != nil {
		f, err := c.boolean(n.filter)
		if err != nil {
			return nil, err
		}
		a.filter = f
	}
	var err error
	if a.order, err = c.order(n.orderBy); err != nil {
		return nil, err
	}
	switch name {
	case "count":
		a.typ = Type{b: tInt8}
	case "sum", "avg":
		if a.arg.t.b == tUnknown {
			a.arg = coerce(a.arg, Type{b: tFloat8})
		}
		if !isNum(a.arg.t) {
			return nil, pgErr("42883", "function "+name+"("+a.arg.t.name()+") does not exist")
		}
		switch a.arg.t.b {
		case tInt4:
			a.typ = Type{b: tInt8}
		case tFloat8:
			a.typ = Type{b: tFloat8}
		default:
			a.typ = Type{b: tNumeric}
		}
		if name == "avg" && a.typ.b == tInt8 {
			a.typ = Type{b: tNumeric}
		}
	case "min", "max":
		a.typ = a.arg.t
		a.typ.hasMod = false
		if a.typ.b == tUnknown {
			a.typ = Type{b: tText}
		}
	case "bool_or", "bool_and":
		a.typ = Type{b: tBool}
	case "array_agg":
		a.typ = Type{b: a.arg.t.b, arr: true}
	case "string_agg":
		a.typ = Type{b: tText}
	case "json_agg":
		a.typ = Type{b: tJSON}
	case "jsonb_agg":
		a.typ = Type{b: tJSONB}
	}
	i := len(*c.aggs)
	*c.aggs = append(*c.aggs, a)
	return &cexpr{a.typ, func(x *xctx, e *env) (Val, error) { return e.aggs[i], nil }}, nil
}

func (a *aggSpec) eval(x *xctx, up *env, tups [][]Val) (Val, error) {
	var vals []Val
	var n int64
	seen := map[string]bool{}
	var sep Val
	if len(a.order) > 0 {
		var err error
		tups, err = sortTups(x, up, tups, a.order)
		if err != nil {
			return nil, err
		}
	}
	for _, t := range tups {
		e := &env{tup: t, up: up}
		if a.filter != nil {
			v, err := a.filter.f(x, e)
			if err != nil {
				return nil, err
			}
			if v != true {
				continue
			}
		}
		if a.star {
			n++
			continue
		}
		v, err := a.arg.f(x, e)
		if err != nil {
			return nil, err
		}
		if a.arg2 != nil {
			if sep, err = a.arg2.f(x, e); err != nil {
				return nil, err
			}
		}
		if v == nil && a.name != "array_agg" && a.name != "json_agg" && a.name != "jsonb_agg" {
			continue
		}
		if a.distinct {
			k := keyOf(v)
			if seen[k] {
				continue
			}
			seen[k] = true
		}
		n++
		vals = append(vals, v)
	}
	switch a.name {
	case "count":
		return n, nil
	}
	if len(vals) == 0 {
		return nil, nil
	}
	switch a.name {
	case "sum", "avg":
		if a.typ.b == tFloat8 {
			s := 0.0
			for _, v := range vals {
				s += v.(float64)
			}
			if a.name == "avg" {
				s /= float64(len(vals))
			}
			return s, nil
		}
		s := decimal.Zero
		for _, v := range vals {
			d, _ := toDec(v)
			s = s.Add(d)
		}
		if a.name == "avg" {
			return s.DivRound(decimal.NewFromInt(int64(len(vals))), 20), nil
		}
		if a.typ.b == tInt8 {
			b := s.BigInt()
			if !b.IsInt64() {
				return nil, pgErr("22003", "bigint out of range")
			}
			return b.Int64(), nil
		}
		return s, nil
	case "min", "max":
		best := vals[0]
		for _, v := range vals[1:] {
			if (cmpVals(v, best) < 0) == (a.name == "min") && cmpVals(v, best) != 0 {
				best = v
			}
		}
		return best, nil
	case "bool_or":
		for _, v := range vals {
			if v == true {
				return true, nil
			}
		}
		return false, nil
	case "bool_and":
		for _, v := range vals {
			if v == false {
				return false, nil
			}
		}
		return true, nil
	case "array_agg":
		return vals, nil
	case "string_agg":
		var p []string
		for _, v := range vals {
			p = append(p, textOf(v, a.arg.t))
		}
		s, _ := sep.(string)
		return strings.Join(p, s), nil
	case "json_agg", "jsonb_agg":
		var l []any
		for _, v := range vals {
			l = append(l, toJSON(v, a.arg.t))
		}
		return jsonVal{l}, nil
	}
	return nil, pgErr("0A000", a.name)
}

func export(v Val, t Type) any {
	switch x := v.(type) {
	case jsonVal:
		return x.v
	case []Val:
		out := make([]any, len(x))
		for i := range x {
			out[i] = export(x[i], Type{b: t.b})
		}
		return out
	}
	return v
}
