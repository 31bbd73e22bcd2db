package pgfake

import (
	"fmt"
	"strings"
)

type function struct {
	schema, name string
	args         []plVar
	retType      Type
	retTable     []plVar
	setof        bool
	lang         string
	src          string
	trig         bool

	block *plBlock // plpgsql
	sql   []Stmt   // sql

	cacheVer int64
	cache    map[string]*plCode
}

// ---- parsed PL/pgSQL ----

type plBlock struct {
	vars []plVar
	body []plStmt
}
type plStmt interface{}
type plAssign struct {
	target string
	x      Expr
}
type plSQL struct{ s Stmt }
type plPerform struct{ s *selectStmt }
type plIf struct {
	conds  []Expr
	bodies [][]plStmt
	els    []plStmt
}
type plLoop struct {
	label string
	while Expr
	forV  string
	lo    Expr
	hi    Expr
	query *selectStmt
	body  []plStmt
}
type plExit struct {
	when Expr
	cont bool
}
type plDiag struct{ target string }
type plReturn struct {
	x     Expr
	next  bool
	query *selectStmt
}
type plRaise struct {
	level  string
	format string
	args   []Expr
}
type plNull struct{}

func (e *Engine) funcKey(n string) string {
	if strings.IndexByte(n, '.') < 0 {
		return "public." + n
	}
	return n
}

func (e *Engine) findFunc(n string) *function { return e.funcs[e.funcKey(n)] }

func (e *Engine) createFunction(n *createFunction) error {
	sc := n.schema
	if sc == "" {
		sc = "public"
	}
	if !e.schemas[sc] {
		return pgErr("3F000", fmt.Sprintf("schema %q does not exist", sc))
	}
	key := sc + "." + n.name
	if old := e.funcs[key]; old != nil && !n.replace {
		return pgErr("42723", fmt.Sprintf("function %q already exists with same argument types", n.name))
	}
	f := &function{schema: sc, name: n.name, args: n.args, retType: n.retType, retTable: n.retTable, setof: n.setof, lang: n.lang, src: n.body, trig: n.retType.b == tTrigger}
	switch n.lang {
	case "sql":
		st, _, err := parseScript(n.body)
		if err != nil {
			return err
		}
		f.sql = st
	case "plpgsql":
		b, err := parsePL(n.body)
		if err != nil {
			return err
		}
		f.block = b
	default:
		return pgErr("42704", fmt.Sprintf("language %q does not exist", n.lang))
	}
	e.funcs[key] = f
	return nil
}

func parsePL(src string) (b *plBlock, err error) {
	toks, err := lexSQL(src)
	if err != nil {
		return nil, err
	}
	p := &parser{src: src, t: toks, pl: true}
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(synErr); ok {
				err = s.e
				return
			}
			panic(r)
		}
	}()
	b = &plBlock{}
	if p.kw("declare") {
		for !p.isKw("begin") {
			v := plVar{name: p.anyIdent()}
			p.kw("constant")
			if t := p.cur(); t.k == tkIdent && t.s == "record" {
				p.next()
				v.typ = Type{b: tRecord}
			} else {
				v.typ = p.typeName()
			}
			p.kw("not", "null")
			if p.op(":=") || p.op("=") || p.kw("default") {
				v.def = p.expr()
			}
			p.needOp(";")
			b.vars = append(b.vars, v)
		}
	}
	p.need("begin")
	b.body = p.plBody("end")
	p.need("end")
	p.op(";")
	if p.cur().k != tkEOF {
		p.errNear()
	}
	return b, nil
}

func (p *parser) plBody(stops ...string) []plStmt {
	var out []plStmt
	for {
		for _, s := range stops {
			if p.isKw(s) {
				return out
			}
		}
		if p.cur().k == tkEOF {
			p.errNear()
		}
		out = append(out, p.plStmt())
	}
}

func (p *parser) plStmt() plStmt {
	switch {
	case p.kw("if"):
		s := &plIf{}
		s.conds = append(s.conds, p.expr())
		p.need("then")
		s.bodies = append(s.bodies, p.plBody("elsif", "elseif", "else", "end"))
		for p.kw("elsif") || p.kw("elseif") {
			s.conds = append(s.conds, p.expr())
			p.need("then")
			s.bodies = append(s.bodies, p.plBody("elsif", "elseif", "else", "end"))
		}
		if p.kw("else") {
			s.els = p.plBody("end")
		}
		p.need("end", "if")
		p.needOp(";")
		return s
	case p.kw("loop"):
		return p.loopBody(&plLoop{})
	case p.kw("while"):
		l := &plLoop{while: p.expr()}
		p.need("loop")
		return p.loopBody(l)
	case p.kw("for"):
		l := &plLoop{forV: p.anyIdent()}
		p.need("in")
		if p.isKw("select") || p.isKw("with") {
			l.query = p.stmt().(*selectStmt)
		} else {
			p.fail("pgfake: FOR over a range")
		}
		p.need("loop")
		return p.loopBody(l)
	case p.kw("exit"), p.isKw("continue"):
		s := &plExit{}
		if p.kw("continue") {
			s.cont = true
		}
		if p.kw("when") {
			s.when = p.expr()
		}
		p.needOp(";")
		return s
	case p.kw("get", "diagnostics"):
		s := &plDiag{target: p.plTargets()[0]}
		if !p.op(":=") {
			p.needOp("=")
		}
		p.need("row_count")
		p.needOp(";")
		return s
	case p.kw("return"):
		s := &plReturn{}
		switch {
		case p.kw("next"):
			s.next = true
			if !p.isOp(";") {
				s.x = p.expr()
			}
		case p.kw("query"):
			s.query = p.selectFull()
		case !p.isOp(";"):
			s.x = p.expr()
		}
		p.needOp(";")
		return s
	case p.kw("raise"):
		s := &plRaise{level: "exception"}
		switch t := p.cur(); {
		case t.k == tkIdent && (t.s == "exception" || t.s == "notice" || t.s == "warning" || t.s == "info" || t.s == "log" || t.s == "debug"):
			s.level = p.next().s
		}
		if p.cur().k != tkStr {
			p.errNear()
		}
		s.format = p.next().s
		for p.op(",") {
			s.args = append(s.args, p.expr())
		}
		if p.isKw("using") {
			for !p.isOp(";") {
				p.next()
			}
		}
		p.needOp(";")
		return s
	case p.kw("null"):
		p.needOp(";")
		return &plNull{}
	case p.isKw("perform"):
		p.next()
		s := &selectStmt{items: p.selItems()}
		if p.kw("from") {
			s.from = p.fromList()
		}
		if p.kw("where") {
			s.where = p.expr()
		}
		p.needOp(";")
		return &plPerform{s}
	case p.isKw("select"), p.isKw("with"), p.isKw("insert"), p.isKw("update"), p.isKw("delete"):
		s := p.stmt()
		p.needOp(";")
		return &plSQL{s}
	}
	// assignment
	t := p.plTargets()
	if len(t) != 1 || !(p.op(":=") || p.op("=")) {
		p.errNear()
	}
	s := &plAssign{target: t[0], x: p.expr()}
	p.needOp(";")
	return s
}

func (p *parser) loopBody(l *plLoop) plStmt {
	l.body = p.plBody("end")
	p.need("end", "loop")
	p.needOp(";")
	return l
}

// ---- compiled ----

type plFrame struct {
	env   *env
	rows  int64
	found bool
	ret   Val
	retT  Type
	done  bool
	out   [][]Val
}

type plCtl int

const (
	ctlNext plCtl = iota
	ctlExit
	ctlCont
	ctlReturn
)

type plOp func(x *xctx, f *plFrame) (plCtl, error)

type plCode struct {
	sc    *scope
	vars  []*column // type of every slot
	init  []plOp
	ops   []plOp
	newAt int
	oldAt int
	width int
}

func (e *Engine) plCompile(fn *function, t *table) (*plCode, error) {
	key := ""
	if t != nil {
		key = t.full()
	}
	if fn.cache == nil || fn.cacheVer != e.version {
		fn.cache, fn.cacheVer = map[string]*plCode{}, e.version
	}
	if c := fn.cache[key]; c != nil {
		return c, nil
	}
	c := &plCode{newAt: -1, oldAt: -1}
	sc := &scope{isVars: true}
	if t != nil {
		c.newAt = sc.width
		r := tblRel(t, "new")
		r.tbl = nil
		sc.addRel(r)
		c.oldAt = sc.width
		r = tblRel(t, "old")
		r.tbl = nil
		sc.addRel(r)
		c.vars = append(append([]*column{}, t.cols...), t.cols...)
	}
	vr := &srel{alias: fn.name}
	add := func(n string, ty Type) {
		vr.cols = append(vr.cols, colInfo{n, ty})
		c.vars = append(c.vars, &column{name: n, typ: ty})
	}
	for _, a := range fn.args {
		add(a.name, a.typ)
	}
	add("found", Type{b: tBool})
	if fn.trig {
		add("tg_op", Type{b: tText})
		add("tg_table_name", Type{b: tText})
		add("tg_table_schema", Type{b: tText})
		add("tg_name", Type{b: tText})
	}
	var vars []plVar
	if fn.block != nil {
		vars = fn.block.vars
	}
	for _, v := range vars {
		add(v.name, v.typ)
	}
	sc.addRel(vr)
	c.sc, c.width = sc, sc.width
	for _, v := range vars {
		if v.def != nil {
			op, err := e.plStmt(c, &plAssign{v.name, v.def})
			if err != nil {
				return nil, err
			}
			c.init = append(c.init, op)
		}
	}
	if fn.block != nil {
		ops, err := e.plSeq(c, fn.block.body)
		if err != nil {
			return nil, err
		}
		c.ops = ops
	} else {
		for _, s := range fn.sql {
			p, err := (&compiler{e: e, sc: sc}).stmtPlan(s)
			if err != nil {
				return nil, err
			}
			c.ops = append(c.ops, func(x *xctx, f *plFrame) (plCtl, error) {
				rs, err := x.runPlan(p, f.env)
				if err != nil {
					return 0, err
				}
				f.out = rs.rows
				if len(rs.rows) > 0 && len(rs.rows[0]) > 0 {
					f.ret, f.retT = rs.rows[0][0], p.columns()[0].t
				}
				return ctlNext, nil
			})
		}
	}
	fn.cache[key] = c
	return c, nil
}

func (e *Engine) plSeq(c *plCode, l []plStmt) ([]plOp, error) {
	var out []plOp
	for _, s := range l {
		op, err := e.plStmt(c, s)
		if err != nil {
			return nil, err
		}
		out = append(out, op)
	}
	return out, nil
}

func runOps(x *xctx, f *plFrame, ops []plOp) (plCtl, error) {
	for _, o := range ops {
		ctl, err := o(x, f)
		if err != nil || ctl != ctlNext {
			return ctl, err
		}
	}
	return ctlNext, nil
}

func (c *plCode) slot(name string) (int, error) {
	parts := strings.Split(name, ".")
	for _, r := range c.sc.rels {
		if len(parts) == 2 && r.alias != parts[0] {
			continue
		}
		if len(parts) == 1 && (r.alias == "new" || r.alias == "old") {
			continue
		}
		for i, ci := range r.cols {
			if ci.name == parts[len(parts)-1] {
				return r.off + i, nil
			}
		}
	}
	return 0, pgErr("42601", fmt.Sprintf("%q is not a known variable", name))
}

// plAssignVal converts with I/O conversion where no assignment cast exists, as PL/pgSQL does.
func plAssignVal(v Val, from Type, col *column) (Val, error) {
	r, err := assignVal(v, from, col)
	if pe, ok := err.(*PgError); ok && pe.Code == "42804" {
		return assignVal(textOf(v, from), Type{b: tUnknown}, col)
	}
	return r, err
}

func (e *Engine) plStmt(c *plCode, s plStmt) (plOp, error) {
	k := &compiler{e: e, sc: c.sc}
	switch n := s.(type) {
	case *plNull:
		return func(x *xctx, f *plFrame) (plCtl, error) { return ctlNext, nil }, nil
	case *plAssign:
		i, err := c.slot(n.target)
		if err != nil {
			return nil, err
		}
		ex, err := k.expr(n.x)
		if err != nil {
			return nil, err
		}
		return func(x *xctx, f *plFrame) (plCtl, error) {
			v, err := ex.f(x, f.env)
			if err != nil {
				return 0, err
			}
			if v, err = plAssignVal(v, ex.t, c.vars[i]); err != nil {
				return 0, err
			}
			f.env.tup[i] = v
			return ctlNext, nil
		}, nil
	case *plPerform:
		p, err := k.stmtPlan(n.s)
		if err != nil {
			return nil, err
		}
		return func(x *xctx, f *plFrame) (plCtl, error) {
			rs, err := x.runPlan(p, f.env)
			if err != nil {
				return 0, err
			}
			f.rows = int64(len(rs.rows))
			return ctlNext, nil
		}, nil
	case *plSQL:
		var into []string
		switch q := n.s.(type) {
		case *selectStmt:
			into = q.into
			if into == nil {
				return nil, pgErr("42601", "query has no destination for result data")
			}
		case *insertStmt:
			into = q.intoVars
		case *updateStmt:
			into = q.intoVars
		case *deleteStmt:
			into = q.intoVars
		}
		p, err := k.stmtPlan(n.s)
		if err != nil {
			return nil, err
		}
		var slots []int
		for _, t := range into {
			i, err := c.slot(t)
			if err != nil {
				return nil, err
			}
			slots = append(slots, i)
		}
		return func(x *xctx, f *plFrame) (plCtl, error) {
			rs, err := x.runPlan(p, f.env)
			if err != nil {
				return 0, err
			}
			f.rows = int64(len(rs.rows))
			if rs.dml {
				f.rows = rs.n
			}
			for j, i := range slots {
				var v Val
				if len(rs.rows) > 0 {
					v = rs.rows[0][j]
				}
				if v, err = plAssignVal(v, p.columns()[j].t, c.vars[i]); err != nil {
					return 0, err
				}
				f.env.tup[i] = v
			}
			if len(slots) > 0 && f.rows > 1 {
				f.rows = 1
			}
			return ctlNext, nil
		}, nil
	case *plDiag:
		i, err := c.slot(n.target)
		if err != nil {
			return nil, err
		}
		return func(x *xctx, f *plFrame) (plCtl, error) {
			v, err := plAssignVal(f.rows, Type{b: tInt8}, c.vars[i])
			f.env.tup[i] = v
			return ctlNext, err
		}, nil
	case *plIf:
		var conds []*cexpr
		var bodies [][]plOp
		for i := range n.conds {
			ce, err := k.boolean(n.conds[i])
			if err != nil {
				return nil, err
			}
			ops, err := e.plSeq(c, n.bodies[i])
			if err != nil {
				return nil, err
			}
			conds = append(conds, ce)
			bodies = append(bodies, ops)
		}
		els, err := e.plSeq(c, n.els)
		if err != nil {
			return nil, err
		}
		return func(x *xctx, f *plFrame) (plCtl, error) {
			for i, ce := range conds {
				v, err := ce.f(x, f.env)
				if err != nil {
					return 0, err
				}
				if v == true {
					return runOps(x, f, bodies[i])
				}
			}
			return runOps(x, f, els)
		}, nil
	case *plLoop:
		var wc *cexpr
		var err error
		if n.while != nil {
			if wc, err = k.boolean(n.while); err != nil {
				return nil, err
			}
		}
		if n.query != nil {
			return nil, pgErr("0A000", "pgfake: FOR over a query")
		}
		ops, err := e.plSeq(c, n.body)
		if err != nil {
			return nil, err
		}
		return func(x *xctx, f *plFrame) (plCtl, error) {
			for i := 0; ; i++ {
				if i > 1000000 {
					return 0, pgErr("54000", "pgfake: runaway loop")
				}
				if wc != nil {
					v, err := wc.f(x, f.env)
					if err != nil {
						return 0, err
					}
					if v != true {
						return ctlNext, nil
					}
				}
				ctl, err := runOps(x, f, ops)
				if err != nil {
					return 0, err
				}
				switch ctl {
				case ctlExit:
					return ctlNext, nil
				case ctlReturn:
					return ctlReturn, nil
				}
			}
		}, nil
	case *plExit:
		var w *cexpr
		var err error
		if n.when != nil {
			if w, err = k.boolean(n.when); err != nil {
				return nil, err
			}
		}
		ctl := ctlExit
		if n.cont {
			ctl = ctlCont
		}
		return func(x *xctx, f *plFrame) (plCtl, error) {
			if w != nil {
				v, err := w.f(x, f.env)
				if err != nil || v != true {
					return ctlNext, err
				}
			}
			return ctl, nil
		}, nil
	case *plRaise:
		args, err := k.exprs(n.args)
		if err != nil {
			return nil, err
		}
		return func(x *xctx, f *plFrame) (plCtl, error) {
			msg := n.format
			for _, a := range args {
				v, err := a.f(x, f.env)
				if err != nil {
					return 0, err
				}
				s := "<NULL>"
				if v != nil {
					s = textOf(v, a.t)
				}
				msg = strings.Replace(msg, "%", s, 1)
			}
			if n.level == "exception" {
				return 0, pgErr("P0001", msg)
			}
			return ctlNext, nil
		}, nil
	case *plReturn:
		if n.query != nil {
			p, err := k.stmtPlan(n.query)
			if err != nil {
				return nil, err
			}
			return func(x *xctx, f *plFrame) (plCtl, error) {
				rs, err := x.runPlan(p, f.env)
				if err != nil {
					return 0, err
				}
				f.out = append(f.out, rs.rows...)
				return ctlNext, nil
			}, nil
		}
		if n.next {
			return nil, pgErr("0A000", "pgfake: RETURN NEXT")
		}
		if n.x == nil {
			return func(x *xctx, f *plFrame) (plCtl, error) { return ctlReturn, nil }, nil
		}
		ex, err := k.expr(n.x)
		if err != nil {
			return nil, err
		}
		return func(x *xctx, f *plFrame) (plCtl, error) {
			v, err := ex.f(x, f.env)
			f.ret, f.retT, f.done = v, ex.t, true
			return ctlReturn, err
		}, nil
	}
	return nil, pgErr("0A000", fmt.Sprintf("pgfake: PL/pgSQL %T", s))
}

func (x *xctx) enter() error {
	x.depth++
	if x.depth > 50 {
		return pgErr("54001", "stack depth limit exceeded")
	}
	return nil
}

func (x *xctx) call(fn *function, vals []Val) (*plFrame, error) {
	if err := x.enter(); err != nil {
		return nil, err
	}
	defer func() { x.depth-- }()
	code, err := x.e.plCompile(fn, nil)
	if err != nil {
		return nil, err
	}
	f := &plFrame{env: &env{tup: make([]Val, code.width)}}
	for i, a := range fn.args {
		if i < len(vals) {
			f.env.tup[i] = vals[i]
			continue
		}
		if a.def == nil {
			return nil, pgErr("42883", fmt.Sprintf("function %s does not exist", fn.name))
		}
		d, err := (&compiler{e: x.e}).expr(a.def)
		if err != nil {
			return nil, err
		}
		v, err := d.f(x, &env{})
		if err != nil {
			return nil, err
		}
		if f.env.tup[i], err = plAssignVal(v, d.t, &column{typ: a.typ}); err != nil {
			return nil, err
		}
	}
	if _, err := runOps(x, f, code.init); err != nil {
		return nil, err
	}
	_, err = runOps(x, f, code.ops)
	return f, err
}

func (x *xctx) callFunc(fn *function, vals []Val) (Val, error) {
	f, err := x.call(fn, vals)
	if err != nil {
		return nil, err
	}
	return plAssignVal(f.ret, f.retT, &column{typ: fn.retType})
}

func (x *xctx) tableFunc(fn *function, args []*cexpr, e *env) (*rowset, error) {
	var vals []Val
	for _, a := range args {
		v, err := a.f(x, e)
		if err != nil {
			return nil, err
		}
		vals = append(vals, v)
	}
	f, err := x.call(fn, vals)
	if err != nil {
		return nil, err
	}
	if fn.retTable == nil {
		v, err := plAssignVal(f.ret, f.retT, &column{typ: fn.retType})
		return &rowset{rows: [][]Val{{v}}}, err
	}
	return &rowset{rows: f.out}, nil
}

// callTrigger runs a row trigger; the result is the row it returned (nil: NULL).
func (x *xctx) callTrigger(t *table, tr *trigger, ev string, old, n []Val) ([]Val, error) {
	if err := x.enter(); err != nil {
		return nil, err
	}
	defer func() { x.depth-- }()
	fn := x.e.findFunc(tr.fn)
	if fn == nil {
		return nil, pgErr("42883", fmt.Sprintf("function %s() does not exist", tr.fn))
	}
	code, err := x.e.plCompile(fn, t)
	if err != nil {
		return nil, err
	}
	f := &plFrame{env: &env{tup: make([]Val, code.width)}}
	if n != nil {
		copy(f.env.tup[code.newAt:], n)
	}
	if old != nil {
		copy(f.env.tup[code.oldAt:], old)
	}
	for name, v := range map[string]string{"tg_op": strings.ToUpper(ev), "tg_table_name": t.name, "tg_table_schema": t.schema, "tg_name": tr.name} {
		i, err := code.slot(name)
		if err != nil {
			return nil, err
		}
		f.env.tup[i] = v
	}
	if _, err := runOps(x, f, code.init); err != nil {
		return nil, err
	}
	if _, err := runOps(x, f, code.ops); err != nil {
		return nil, err
	}
	if !f.done {
		return nil, pgErr("2F005", "control reached end of trigger procedure without RETURN")
	}
	if f.ret == nil {
		return nil, nil
	}
	rv, ok := f.ret.(rowVal)
	if !ok || len(rv.vals) != len(t.cols) {
		return nil, pgErr("42804", "returned row structure does not match the structure of the triggering table")
	}
	return rv.vals, nil
}
