package pgfake

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync/atomic"
)

type rowset struct {
	cols []colInfo
	rows [][]Val
	n    int64 // rows affected by a data-modifying statement
	dml  bool
}

type plan interface {
	columns() []colInfo
	run(x *xctx, up *env) (*rowset, error)
}

type stmtPlan struct {
	p       plan
	tag     string
	nparams int
	stmt    Stmt
}

type cond struct {
	c     *cexpr
	mask  uint64
	eqCol int // column index within the relation for index lookup, -1 none
	eqVal *cexpr
	arr   bool // eqVal yields an array
}

type step struct {
	rel    *srel
	kind   string
	tbl    *table
	sub    plan
	cte    *cteDef
	fn     *function
	fnArgs []*cexpr
	lat    bool
	on     []cond // join conditions (for left join) or all filters (inner)
	filter []cond // filters after left join
}

type selPlan struct {
	e        *Engine
	ctes     []*cteDef
	steps    []*step
	pre      []cond // conditions not touching any relation
	width    int
	cols     []colInfo
	items    []*cexpr
	grouped  bool
	group    []*cexpr
	having   *cexpr
	aggs     []*aggSpec
	wins     []*winSpec
	order    []cOrder
	orderOut []int // >=0: output column, else index in order exprs
	distinct bool
	distOn   []*cexpr
	limit    *cexpr
	offset   *cexpr
	lock     *lockClause
	values   [][]*cexpr
	setop    string
	all      bool
	left     plan
	right    plan
	casts    [2][]Type
	into     []string
}

func (p *selPlan) columns() []colInfo { return p.cols }

func conjuncts(x Expr, out *[]Expr) {
	if x == nil {
		return
	}
	if b, ok := x.(*eBin); ok && b.op == "and" {
		conjuncts(b.l, out)
		conjuncts(b.r, out)
		return
	}
	if b, ok := x.(*eBetween); ok && !b.not {
		*out = append(*out, &eBin{">=", b.x, b.lo}, &eBin{"<=", b.x, b.hi})
		return
	}
	*out = append(*out, x)
}

func (c *compiler) sub(sc *scope) *compiler {
	return &compiler{e: c.e, sc: sc}
}

// subselect compiles a (possibly correlated) subquery in the current scope.
func (c *compiler) subselect(s *selectStmt) (plan, error) {
	k := &compiler{e: c.e, sc: c.sc}
	p, err := k.selectPlan(s)
	if k.nparams > c.nparams {
		c.nparams = k.nparams
	}
	return p, err
}

func (c *compiler) findCTE(name string) *cteDef {
	for s := c.sc; s != nil; s = s.up {
		if d, ok := s.ctes[name]; ok {
			return d
		}
	}
	return nil
}

// withScope registers CTEs in a fresh scope and returns it.
func (c *compiler) withScope(with []cte) ([]*cteDef, error) {
	if len(with) == 0 {
		return nil, nil
	}
	sc := &scope{up: c.sc, ctes: map[string]*cteDef{}}
	c.sc = sc
	var out []*cteDef
	for _, w := range with {
		p, err := c.stmtPlan(w.stmt)
		if err != nil {
			return nil, err
		}
		d := &cteDef{name: w.name, plan: p}
		d.cols = append(d.cols, p.columns()...)
		for i, n := range w.cols {
			if i < len(d.cols) {
				d.cols[i].name = n
			}
		}
		sc.ctes[w.name] = d
		out = append(out, d)
	}
	return out, nil
}

func (c *compiler) stmtPlan(s Stmt) (plan, error) {
	switch n := s.(type) {
	case *selectStmt:
		return c.selectPlan(n)
	case *insertStmt:
		return c.insertPlan(n)
	case *updateStmt:
		return c.updatePlan(n)
	case *deleteStmt:
		return c.deletePlan(n)
	}
	return nil, pgErr("0A000", fmt.Sprintf("pgfake: %T not supported here", s))
}

func (c *compiler) selectPlan(s *selectStmt) (plan, error) {
	p := &selPlan{e: c.e}
	outer := c.sc
	var err error
	if p.ctes, err = c.withScope(s.with); err != nil {
		return nil, err
	}
	defer func() { c.sc = outer }()
	if s.setop != "" {
		if p.left, err = c.subselect(s.left); err != nil {
			return nil, err
		}
		if p.right, err = c.subselect(s.right); err != nil {
			return nil, err
		}
		lc, rc := p.left.columns(), p.right.columns()
		if len(lc) != len(rc) {
			return nil, pgErr("42601", "each UNION query must have the same number of columns")
		}
		p.setop, p.all = s.setop, s.all
		for i := range lc {
			t, ok := commonType(lc[i].t, rc[i].t)
			if !ok {
				return nil, pgErr("42804", fmt.Sprintf("UNION types %s and %s cannot be matched", lc[i].t.name(), rc[i].t.name()))
			}
			p.cols = append(p.cols, colInfo{lc[i].name, t})
			p.casts[0] = append(p.casts[0], lc[i].t)
			p.casts[1] = append(p.casts[1], rc[i].t)
		}
		return p, c.tail(p, s, &scope{up: c.sc})
	}
	if s.values != nil {
		sc := &scope{up: c.sc}
		k := c.sub(sc)
		for _, row := range s.values {
			var r []*cexpr
			for _, x := range row {
				if _, ok := x.(*eDefault); ok {
					r = append(r, nil)
					continue
				}
				e, err := k.expr(x)
				if err != nil {
					return nil, err
				}
				r = append(r, e)
			}
			if len(p.values) > 0 && len(r) != len(p.values[0]) {
				return nil, pgErr("42601", "VALUES lists must all be the same length")
			}
			p.values = append(p.values, r)
		}
		if k.nparams > c.nparams {
			c.nparams = k.nparams
		}
		for i := range p.values[0] {
			t := Type{b: tUnknown}
			for _, r := range p.values {
				if r[i] == nil {
					continue
				}
				if t.b == tUnknown && r[i].t.b == tUnknown {
					continue
				}
				ct, ok := commonType(t, r[i].t)
				if !ok {
					return nil, pgErr("42804", "VALUES types cannot be matched")
				}
				t = ct
			}
			for _, r := range p.values {
				if r[i] != nil {
					r[i] = coerce(r[i], t)
				}
			}
			p.cols = append(p.cols, colInfo{fmt.Sprintf("column%d", i+1), t})
		}
		return p, c.tail(p, s, sc)
	}
	sc := &scope{up: c.sc}
	k := c.sub(sc)
	defer func() {
		if k.nparams > c.nparams {
			c.nparams = k.nparams
		}
	}()
	if err := k.from(p, s.from); err != nil {
		return nil, err
	}
	if err := k.where(p, s.where); err != nil {
		return nil, err
	}
	p.width = sc.width
	k.aggs, k.wins = &p.aggs, &p.wins
	for _, it := range s.items {
		if st, ok := it.x.(*eStar); ok {
			n := 0
			for _, r := range sc.rels {
				if st.table != "" && r.alias != st.table {
					continue
				}
				n++
				for i, ci := range r.cols {
					p.cols = append(p.cols, ci)
					p.items = append(p.items, mkCol(0, r.off+i, ci.t))
				}
			}
			if n == 0 {
				return nil, pgErr("42P01", "missing FROM-clause entry for table \""+st.table+"\"")
			}
			continue
		}
		e, err := k.expr(it.x)
		if err != nil {
			return nil, err
		}
		name := it.alias
		if name == "" {
			name = exprName(it.x)
		}
		p.items = append(p.items, e)
		p.cols = append(p.cols, colInfo{name, e.t})
	}
	for _, g := range s.groupBy {
		if l, ok := g.(*eLit); ok && l.kind == "num" {
			i := 0
			fmt.Sscan(l.s, &i)
			if i < 1 || i > len(p.items) {
				return nil, pgErr("42P10", "GROUP BY position out of range")
			}
			p.group = append(p.group, p.items[i-1])
			continue
		}
		e, err := k.expr(g)
		if err != nil {
			if col, ok := g.(*eCol); ok && len(col.parts) == 1 {
				f := false
				for i, ci := range p.cols {
					if ci.name == col.parts[0] {
						e, f = p.items[i], true
					}
				}
				if !f {
					return nil, err
				}
			} else {
				return nil, err
			}
		}
		p.group = append(p.group, e)
	}
	if s.having != nil {
		if p.having, err = k.boolean(s.having); err != nil {
			return nil, err
		}
	}
	p.distinct = s.distinct
	for _, d := range s.distinctOn {
		e, err := k.expr(d)
		if err != nil {
			return nil, err
		}
		p.distOn = append(p.distOn, e)
	}
	if err := k.tail(p, s, sc); err != nil {
		return nil, err
	}
	p.grouped = len(p.aggs) > 0 || len(p.group) > 0 || p.having != nil
	p.lock = s.lock
	p.into = s.into
	return p, nil
}

func exprName(x Expr) string {
	switch n := x.(type) {
	case *eCol:
		return n.parts[len(n.parts)-1]
	case *eFunc:
		i := strings.LastIndexByte(n.name, '.')
		return n.name[i+1:]
	case *eCast:
		if s := exprName(n.x); s != "?column?" {
			return s
		}
		return n.typ.name()
	case *eCase:
		return "case"
	case *eExists:
		return "exists"
	case *eSub:
		if len(n.sel.items) == 1 {
			if n.sel.items[0].alias != "" {
				return n.sel.items[0].alias
			}
			return exprName(n.sel.items[0].x)
		}
	}
	return "?column?"
}

func (c *compiler) tail(p *selPlan, s *selectStmt, sc *scope) error {
	k := c
	if k.sc != sc {
		k = c.sub(sc)
	}
	for _, o := range s.orderBy {
		nf := o.desc
		if o.nullsFirst != nil {
			nf = *o.nullsFirst
		}
		if l, ok := o.x.(*eLit); ok && l.kind == "num" {
			i := 0
			fmt.Sscan(l.s, &i)
			if i < 1 || i > len(p.cols) {
				return pgErr("42P10", "ORDER BY position is not in select list")
			}
			p.order = append(p.order, cOrder{nil, o.desc, nf})
			p.orderOut = append(p.orderOut, i-1)
			continue
		}
		if col, ok := o.x.(*eCol); ok && len(col.parts) == 1 {
			hit := -1
			for i, ci := range p.cols {
				if ci.name == col.parts[0] {
					hit = i
					break
				}
			}
			if hit >= 0 {
				p.order = append(p.order, cOrder{nil, o.desc, nf})
				p.orderOut = append(p.orderOut, hit)
				continue
			}
		}
		if p.setop != "" || p.values != nil {
			return pgErr("0A000", "ORDER BY on a UNION result must name an output column")
		}
		e, err := k.expr(o.x)
		if err != nil {
			return err
		}
		p.order = append(p.order, cOrder{e, o.desc, nf})
		p.orderOut = append(p.orderOut, -1)
	}
	lk := c.sub(&scope{up: sc.up})
	for i, x := range []Expr{s.limit, s.offset} {
		if x == nil {
			continue
		}
		e, err := lk.expr(x)
		if err != nil {
			return err
		}
		e = coerce(e, Type{b: tInt8})
		if i == 0 {
			p.limit = e
		} else {
			p.offset = e
		}
	}
	for _, n := range []int{k.nparams, lk.nparams} {
		if n > c.nparams {
			c.nparams = n
		}
	}
	return nil
}

func tblRel(t *table, alias string) *srel {
	r := &srel{alias: alias, schema: t.schema, tbl: t}
	if alias == "" {
		r.alias = t.name
	}
	for _, c := range t.cols {
		r.cols = append(r.cols, colInfo{c.name, c.typ})
	}
	return r
}

func (c *compiler) from(p *selPlan, items []*fromItem) error {
	for _, f := range items {
		if err := c.fromItem(p, f, "inner", nil); err != nil {
			return err
		}
	}
	return nil
}

func (c *compiler) fromItem(p *selPlan, f *fromItem, kind string, on Expr) error {
	if f.join != nil {
		j := f.join
		if kind != "inner" || on != nil {
			return pgErr("0A000", "pgfake: nested join on the right side")
		}
		if len(j.using) > 0 || j.kind == "right" {
			return pgErr("0A000", "pgfake: join form not supported")
		}
		if err := c.fromItem(p, j.l, "inner", nil); err != nil {
			return err
		}
		return c.fromItem(p, j.r, j.kind, j.on)
	}
	st := &step{kind: kind}
	if kind == "cross" {
		st.kind = "inner"
	}
	switch {
	case f.fn != nil:
		k := &compiler{e: c.e, sc: c.sc}
		args, err := k.exprs(f.fn.args)
		if err != nil {
			return err
		}
		if k.nparams > c.nparams {
			c.nparams = k.nparams
		}
		st.fnArgs = args
		alias := f.alias
		if alias == "" {
			alias = f.fn.name[strings.LastIndexByte(f.fn.name, '.')+1:]
		}
		rel := &srel{alias: alias}
		uf := c.e.findFunc(f.fn.name)
		if uf != nil {
			st.fn = uf
			for i := range args {
				if i < len(uf.args) {
					st.fnArgs[i] = coerce(args[i], uf.args[i].typ)
				}
			}
			if uf.retTable != nil {
				for _, v := range uf.retTable {
					rel.cols = append(rel.cols, colInfo{v.name, v.typ})
				}
			} else {
				rel.cols = []colInfo{{alias, uf.retType}}
			}
		} else {
			e, err := c.fnFrom(f.fn, args)
			if err != nil {
				return err
			}
			st.sub = e
			rel.cols = append([]colInfo{}, e.columns()...)
			if len(rel.cols) == 1 && f.alias != "" {
				rel.cols[0].name = f.alias
			}
			st.lat = true
		}
		for i, n := range f.colAliases {
			if i < len(rel.cols) {
				rel.cols[i].name = n
			}
		}
		st.rel = rel
	case f.sub != nil:
		parent := c.sc
		if !f.lateral {
			parent = c.sc.up
		}
		k := &compiler{e: c.e, sc: parent}
		sp, err := k.selectPlan(f.sub)
		if err != nil {
			return err
		}
		if k.nparams > c.nparams {
			c.nparams = k.nparams
		}
		st.sub, st.lat = sp, f.lateral
		rel := &srel{alias: f.alias}
		rel.cols = append(rel.cols, sp.columns()...)
		for i, n := range f.colAliases {
			if i < len(rel.cols) {
				rel.cols[i].name = n
			}
		}
		for i := range rel.cols {
			if rel.cols[i].t.b == tUnknown {
				rel.cols[i].t = Type{b: tText}
			}
		}
		st.rel = rel
	default:
		if f.schema == "" {
			if d := c.findCTE(f.table); d != nil {
				st.cte = d
				al := f.alias
				if al == "" {
					al = f.table
				}
				st.rel = &srel{alias: al, cols: append([]colInfo{}, d.cols...)}
				break
			}
		}
		t := c.e.lookup(f.schema, f.table)
		if t == nil {
			n := f.table
			if f.schema != "" {
				n = f.schema + "." + n
			}
			return pgErr("42P01", fmt.Sprintf("relation %q does not exist", n))
		}
		st.tbl = t
		st.rel = tblRel(t, f.alias)
	}
	for _, r := range c.sc.rels {
		if r.alias == st.rel.alias && r.alias != "" {
			return pgErr("42712", fmt.Sprintf("table name %q specified more than once", r.alias))
		}
	}
	c.sc.addRel(st.rel)
	p.steps = append(p.steps, st)
	if on != nil {
		var cj []Expr
		conjuncts(on, &cj)
		for _, x := range cj {
			cd, err := c.cond(x, len(p.steps)-1)
			if err != nil {
				return err
			}
			if st.kind == "left" {
				st.on = append(st.on, cd)
			} else {
				c.place(p, cd)
			}
		}
	}
	return nil
}

func topRel(mask uint64) int {
	for i := 63; i >= 0; i-- {
		if mask&(1<<uint(i)) != 0 {
			return i
		}
	}
	return -1
}

func (c *compiler) place(p *selPlan, cd cond) {
	i := topRel(cd.mask)
	if i < 0 {
		p.pre = append(p.pre, cd)
		return
	}
	st := p.steps[i]
	if st.kind == "left" {
		cd.eqCol = -1
		st.filter = append(st.filter, cd)
	} else {
		st.on = append(st.on, cd)
	}
}

// cond compiles a conjunct and finds an index lookup for relation index rel (or the top relation if rel<0).
func (c *compiler) cond(x Expr, rel int) (cond, error) {
	old := c.sc.touched
	c.sc.touched = 0
	e, err := c.boolean(x)
	mask := c.sc.touched
	c.sc.touched = old
	if err != nil {
		return cond{}, err
	}
	cd := cond{c: e, mask: mask, eqCol: -1}
	if rel < 0 {
		rel = topRel(mask)
	}
	if rel < 0 || rel >= len(c.sc.rels) || c.sc.rels[rel].tbl == nil {
		return cd, nil
	}
	r := c.sc.rels[rel]
	try := func(a, b Expr, arr bool) bool {
		col, ok := a.(*eCol)
		if !ok {
			return false
		}
		c.sc.touched = 0
		ce, err := c.resolve(col.parts)
		cm := c.sc.touched
		if err != nil || cm != 1<<uint(rel) {
			c.sc.touched = old
			return false
		}
		idx := -1
		n := col.parts[len(col.parts)-1]
		for i, ci := range r.cols {
			if ci.name == n {
				idx = i
			}
		}
		c.sc.touched = 0
		be, err := c.expr(b)
		bm := c.sc.touched
		c.sc.touched = old
		if err != nil || bm&^((1<<uint(rel))-1) != 0 || idx < 0 {
			return false
		}
		if _, ok := r.tbl.hidx[idx]; !ok {
			return false
		}
		want := Type{b: ce.t.b, arr: arr}
		if be.t.b == tUnknown && !be.t.arr {
			be = coerce(be, want)
		} else if be.t.b != want.b || be.t.arr != want.arr {
			return false
		}
		cd.eqCol, cd.eqVal, cd.arr = idx, be, arr
		return true
	}
	switch n := x.(type) {
	case *eBin:
		if n.op == "=" {
			if !try(n.l, n.r, false) {
				try(n.r, n.l, false)
			}
		}
	case *eAny:
		if n.op == "=" && !n.all && n.arr != nil {
			try(n.x, n.arr, true)
		}
	}
	return cd, nil
}

func (c *compiler) where(p *selPlan, w Expr) error {
	var cj []Expr
	conjuncts(w, &cj)
	for _, x := range cj {
		cd, err := c.cond(x, -1)
		if err != nil {
			return err
		}
		c.place(p, cd)
	}
	return nil
}

type refRow struct {
	tup  []Val
	refs []*row
}

// scan enumerates joined tuples; refs[i] is the base row of step i (nil for derived relations).
func (p *selPlan) scan(x *xctx, up *env, emit func(tup []Val, refs []*row) (bool, error)) error {
	tup := make([]Val, p.width)
	refs := make([]*row, len(p.steps))
	e := &env{tup: tup, up: up}
	for _, c := range p.pre {
		v, err := c.c.f(x, e)
		if err != nil {
			return err
		}
		if v != true {
			return nil
		}
	}
	subCache := make([]*rowset, len(p.steps))
	var rec func(i int) (bool, error)
	rec = func(i int) (bool, error) {
		if i == len(p.steps) {
			return emit(tup, refs)
		}
		st := p.steps[i]
		off := st.rel.off
		n := len(st.rel.cols)
		matched := false
		check := func(cs []cond) (bool, error) {
			for k := range cs {
				v, err := cs[k].c.f(x, e)
				if err != nil {
					return false, err
				}
				if v != true {
					return false, nil
				}
			}
			return true, nil
		}
		one := func(vals []Val, r *row) (bool, error) {
			copy(tup[off:off+n], vals)
			refs[i] = r
			ok, err := check(st.on)
			if err != nil || !ok {
				return true, err
			}
			matched = true
			ok, err = check(st.filter)
			if err != nil || !ok {
				return true, err
			}
			return rec(i + 1)
		}
		switch {
		case st.tbl != nil:
			rows := st.tbl.rows
			if !x.tx.rr {
				for _, c := range st.on {
					if c.eqCol < 0 {
						continue
					}
					v, err := c.eqVal.f(x, e)
					if err != nil {
						return false, err
					}
					if v == nil {
						rows = nil
						break
					}
					if c.arr {
						seen := map[*row]bool{}
						rows = nil
						for _, y := range v.([]Val) {
							if y == nil {
								continue
							}
							for _, r := range st.tbl.candidates(c.eqCol, y) {
								if !seen[r] {
									seen[r] = true
									rows = append(rows, r)
								}
							}
						}
						sort.Slice(rows, func(a, b int) bool { return rows[a].id < rows[b].id })
					} else {
						rows = st.tbl.candidates(c.eqCol, v)
					}
					break
				}
			}
			// rows may be modified during emit (DML runs after the scan), iterate over a stable prefix
			for k := 0; k < len(rows); k++ {
				r := rows[k]
				v := x.e.visible(x.tx, r)
				if v == nil {
					continue
				}
				more, err := one(v, r)
				if err != nil || !more {
					return false, err
				}
			}
		default:
			var rs *rowset
			var err error
			switch {
			case st.cte != nil:
				rs, err = x.cte(st.cte, up)
			case st.fn != nil:
				rs, err = x.tableFunc(st.fn, st.fnArgs, e)
			case st.lat:
				rs, err = st.sub.run(x, e)
			default:
				if subCache[i] == nil {
					subCache[i], err = st.sub.run(x, up)
				}
				rs = subCache[i]
			}
			if err != nil {
				return false, err
			}
			for _, v := range rs.rows {
				more, err := one(v, nil)
				if err != nil || !more {
					return false, err
				}
			}
		}
		if st.kind == "left" && !matched {
			for k := 0; k < n; k++ {
				tup[off+k] = nil
			}
			refs[i] = nil
			ok, err := check(st.filter)
			if err != nil {
				return false, err
			}
			if ok {
				return rec(i + 1)
			}
		}
		return true, nil
	}
	_, err := rec(0)
	return err
}

func (x *xctx) cte(d *cteDef, up *env) (*rowset, error) {
	if rs, ok := x.cteRes[d]; ok {
		return rs, nil
	}
	rs, err := d.plan.run(x, up)
	if err != nil {
		return nil, err
	}
	x.cteRes[d] = rs
	return rs, nil
}

func (x *xctx) beginCTEs(ds []*cteDef, up *env) error {
	for _, d := range ds {
		delete(x.cteRes, d)
	}
	for _, d := range ds {
		switch d.plan.(type) {
		case *selPlan:
		default:
			if _, err := x.cte(d, up); err != nil {
				return err
			}
		}
	}
	return nil
}

func cmpOrder(a, b Val, o cOrder) int {
	switch {
	case a == nil && b == nil:
		return 0
	case a == nil:
		if o.nullsFirst {
			return -1
		}
		return 1
	case b == nil:
		if o.nullsFirst {
			return 1
		}
		return -1
	}
	c := cmpVals(a, b)
	if o.desc {
		return -c
	}
	return c
}

// tieSeed, when not zero, makes rows equal in every key of an ORDER BY come in a random order, as a database may return them.
var tieSeed atomic.Int64

// ShuffleTies makes the order among rows that ORDER BY leaves open random from now on (0: as they were inserted).
func ShuffleTies(seed int64) { tieSeed.Store(seed) }

func sortTups(x *xctx, up *env, tups [][]Val, ord []cOrder) ([][]Val, error) {
	keys := make([][]Val, len(tups))
	idx := make([]int, len(tups))
	for i, t := range tups {
		idx[i] = i
		e := &env{tup: t, up: up}
		for _, o := range ord {
			v, err := o.c.f(x, e)
			if err != nil {
				return nil, err
			}
			keys[i] = append(keys[i], v)
		}
	}
	sort.SliceStable(idx, func(a, b int) bool {
		for k, o := range ord {
			if c := cmpOrder(keys[idx[a]][k], keys[idx[b]][k], o); c != 0 {
				return c < 0
			}
		}
		return false
	})
	out := make([][]Val, len(tups))
	for i, j := range idx {
		out[i] = tups[j]
	}
	return out, nil
}

type outRow struct {
	vals []Val
	keys []Val
	refs []*row
	dist []Val
}

func (p *selPlan) run(x *xctx, up *env) (*rowset, error) {
	if err := x.beginCTEs(p.ctes, up); err != nil {
		return nil, err
	}
	if len(p.ctes) > 0 {
		up = &env{up: up} // the CTE scope level
	}
	var rows []outRow
	lim, off := int64(-1), int64(0)
	for i, l := range []*cexpr{p.limit, p.offset} {
		if l == nil {
			continue
		}
		v, err := l.f(x, &env{up: up})
		if err != nil {
			return nil, err
		}
		if v == nil {
			continue
		}
		n := v.(int64)
		if n < 0 {
			if i == 0 {
				return nil, pgErr("2201W", "LIMIT must not be negative")
			}
			return nil, pgErr("2201X", "OFFSET must not be negative")
		}
		if i == 0 {
			lim = n
		} else {
			off = n
		}
	}
	switch {
	case p.setop != "":
		l, err := p.left.run(x, up)
		if err != nil {
			return nil, err
		}
		r, err := p.right.run(x, up)
		if err != nil {
			return nil, err
		}
		conv := func(rs *rowset, ts []Type) ([]outRow, error) {
			var out []outRow
			for _, v := range rs.rows {
				n := make([]Val, len(v))
				for i := range v {
					y, err := castVal(v[i], ts[i], p.cols[i].t)
					if err != nil {
						return nil, err
					}
					n[i] = y
				}
				out = append(out, outRow{vals: n})
			}
			return out, nil
		}
		a, err := conv(l, p.casts[0])
		if err != nil {
			return nil, err
		}
		b, err := conv(r, p.casts[1])
		if err != nil {
			return nil, err
		}
		if p.setop == "union" {
			rows = append(a, b...)
			if !p.all {
				rows = dedup(rows)
			}
		} else {
			ex := map[string]int{}
			for _, r := range b {
				ex[keyOf(r.vals)]++
			}
			for _, r := range a {
				k := keyOf(r.vals)
				if ex[k] > 0 {
					if p.all {
						ex[k]--
					}
					continue
				}
				rows = append(rows, r)
			}
			if !p.all {
				rows = dedup(rows)
			}
		}
	case p.values != nil:
		e := &env{up: up}
		for _, r := range p.values {
			vals := make([]Val, len(r))
			for i, c := range r {
				if c == nil {
					continue
				}
				v, err := c.f(x, e)
				if err != nil {
					return nil, err
				}
				vals[i] = v
			}
			rows = append(rows, outRow{vals: vals})
		}
	case p.grouped:
		groups := map[string]int{}
		var gt [][][]Val
		err := p.scan(x, up, func(tup []Val, refs []*row) (bool, error) {
			e := &env{tup: tup, up: up}
			k := ""
			for _, g := range p.group {
				v, err := g.f(x, e)
				if err != nil {
					return false, err
				}
				s := keyOf(v)
				k += fmt.Sprintf("%d:%s", len(s), s)
			}
			i, ok := groups[k]
			if !ok {
				i = len(gt)
				groups[k] = i
				gt = append(gt, nil)
			}
			gt[i] = append(gt[i], append([]Val{}, tup...))
			return true, nil
		})
		if err != nil {
			return nil, err
		}
		if len(p.group) == 0 && len(gt) == 0 {
			gt = append(gt, nil)
		}
		for _, tups := range gt {
			e := &env{up: up}
			if len(tups) > 0 {
				e.tup = tups[0]
			} else {
				e.tup = make([]Val, p.width)
			}
			for _, a := range p.aggs {
				v, err := a.eval(x, up, tups)
				if err != nil {
					return nil, err
				}
				e.aggs = append(e.aggs, v)
			}
			if p.having != nil {
				v, err := p.having.f(x, e)
				if err != nil {
					return nil, err
				}
				if v != true {
					continue
				}
			}
			r, err := p.project(x, e, nil)
			if err != nil {
				return nil, err
			}
			rows = append(rows, r)
		}
		if len(p.wins) > 0 {
			return nil, pgErr("0A000", "pgfake: window over aggregate")
		}
	case len(p.wins) > 0:
		var tups []refRow
		err := p.scan(x, up, func(tup []Val, refs []*row) (bool, error) {
			tups = append(tups, refRow{append([]Val{}, tup...), append([]*row{}, refs...)})
			return true, nil
		})
		if err != nil {
			return nil, err
		}
		wv := make([][]Val, len(tups))
		for _, w := range p.wins {
			vs, err := w.eval(x, up, tups)
			if err != nil {
				return nil, err
			}
			for i := range tups {
				wv[i] = append(wv[i], vs[i])
			}
		}
		for i, t := range tups {
			r, err := p.project(x, &env{tup: t.tup, up: up, wins: wv[i]}, t.refs)
			if err != nil {
				return nil, err
			}
			rows = append(rows, r)
		}
	default:
		fast := len(p.order) == 0 && !p.distinct && len(p.distOn) == 0 && p.lock == nil && lim >= 0
		err := p.scan(x, up, func(tup []Val, refs []*row) (bool, error) {
			if fast && int64(len(rows)) >= lim+off {
				return false, nil
			}
			r, err := p.project(x, &env{tup: tup, up: up}, refs)
			if err != nil {
				return false, err
			}
			rows = append(rows, r)
			return true, nil
		})
		if err != nil {
			return nil, err
		}
	}
	if p.distinct {
		rows = dedup(rows)
	}
	if len(p.order) > 0 {
		if p.setop != "" || p.values != nil {
			for i := range rows {
				for j := range p.order {
					rows[i].keys = append(rows[i].keys, rows[i].vals[p.orderOut[j]])
				}
			}
		}
		if n := tieSeed.Load(); n != 0 {
			tieSeed.Add(1)
			rand.New(rand.NewSource(n)).Shuffle(len(rows), func(i, j int) { rows[i], rows[j] = rows[j], rows[i] })
		}
		sort.SliceStable(rows, func(a, b int) bool {
			for k, o := range p.order {
				if c := cmpOrder(rows[a].keys[k], rows[b].keys[k], o); c != 0 {
					return c < 0
				}
			}
			return false
		})
	}
	if len(p.distOn) > 0 {
		seen := map[string]bool{}
		var out []outRow
		for _, r := range rows {
			k := keyOf(r.dist)
			if !seen[k] {
				seen[k] = true
				out = append(out, r)
			}
		}
		rows = out
	}
	rs := &rowset{cols: p.cols}
	if p.lock != nil {
		var skipped int64
		for _, r := range rows {
			if lim >= 0 && int64(len(rs.rows)) >= lim {
				break
			}
			blocked := false
			for si, ref := range r.refs {
				if ref == nil {
					continue
				}
				if len(p.lock.of) > 0 {
					in := false
					for _, o := range p.lock.of {
						if p.steps[si].rel.alias == o {
							in = true
						}
					}
					if !in {
						continue
					}
				}
				if ref.owner != nil && ref.owner != x.tx {
					blocked = true
				}
			}
			if blocked && p.lock.skip {
				continue
			}
			for si, ref := range r.refs {
				if ref == nil {
					continue
				}
				if len(p.lock.of) > 0 {
					in := false
					for _, o := range p.lock.of {
						if p.steps[si].rel.alias == o {
							in = true
						}
					}
					if !in {
						continue
					}
				}
				if blocked && p.lock.nowait {
					return nil, pgErr("55P03", "could not obtain lock on row")
				}
				if err := x.e.lockRow(x.tx, ref); err != nil {
					return nil, err
				}
			}
			if skipped < off {
				skipped++
				continue
			}
			rs.rows = append(rs.rows, r.vals)
		}
		return rs, nil
	}
	for i, r := range rows {
		if int64(i) < off {
			continue
		}
		if lim >= 0 && int64(len(rs.rows)) >= lim {
			break
		}
		rs.rows = append(rs.rows, r.vals)
	}
	return rs, nil
}

func dedup(rows []outRow) []outRow {
	seen := map[string]bool{}
	var out []outRow
	for _, r := range rows {
		k := keyOf(r.vals)
		if !seen[k] {
			seen[k] = true
			out = append(out, r)
		}
	}
	return out
}

func (p *selPlan) project(x *xctx, e *env, refs []*row) (outRow, error) {
	r := outRow{vals: make([]Val, len(p.items))}
	for i, c := range p.items {
		v, err := c.f(x, e)
		if err != nil {
			return r, err
		}
		r.vals[i] = v
	}
	for i, o := range p.order {
		if p.orderOut[i] >= 0 {
			r.keys = append(r.keys, r.vals[p.orderOut[i]])
			continue
		}
		v, err := o.c.f(x, e)
		if err != nil {
			return r, err
		}
		r.keys = append(r.keys, v)
	}
	for _, d := range p.distOn {
		v, err := d.f(x, e)
		if err != nil {
			return r, err
		}
		r.dist = append(r.dist, v)
	}
	if p.lock != nil {
		r.refs = append([]*row{}, refs...)
	}
	return r, nil
}

func (w *winSpec) eval(x *xctx, up *env, tups []refRow) ([]Val, error) {
	parts := map[string][]int{}
	var order []string
	for i, t := range tups {
		k := ""
		for _, c := range w.part {
			v, err := c.f(x, &env{tup: t.tup, up: up})
			if err != nil {
				return nil, err
			}
			k += keyOf(v) + "|"
		}
		if _, ok := parts[k]; !ok {
			order = append(order, k)
		}
		parts[k] = append(parts[k], i)
	}
	out := make([]Val, len(tups))
	for _, k := range order {
		idx := parts[k]
		switch w.name {
		case "count":
			if len(w.ord) > 0 {
				return nil, pgErr("0A000", "pgfake: ordered window count")
			}
			for _, i := range idx {
				out[i] = int64(len(idx))
			}
		case "row_number":
			keys := map[int][]Val{}
			for _, i := range idx {
				for _, o := range w.ord {
					v, err := o.c.f(x, &env{tup: tups[i].tup, up: up})
					if err != nil {
						return nil, err
					}
					keys[i] = append(keys[i], v)
				}
			}
			sort.SliceStable(idx, func(a, b int) bool {
				for j, o := range w.ord {
					if c := cmpOrder(keys[idx[a]][j], keys[idx[b]][j], o); c != 0 {
						return c < 0
					}
				}
				return false
			})
			for n, i := range idx {
				out[i] = int64(n + 1)
			}
		default:
			return nil, pgErr("0A000", "pgfake: window "+w.name)
		}
	}
	return out, nil
}

// fnFrom: built-in set-returning functions in FROM.
type srfPlan struct {
	cols []colInfo
	f    func(x *xctx, e *env) ([][]Val, error)
}

func (p *srfPlan) columns() []colInfo { return p.cols }
func (p *srfPlan) run(x *xctx, e *env) (*rowset, error) {
	rows, err := p.f(x, e)
	return &rowset{cols: p.cols, rows: rows}, err
}

func (c *compiler) fnFrom(n *eFunc, args []*cexpr) (plan, error) {
	switch n.name {
	case "unnest":
		if !args[0].t.arr {
			args[0] = coerce(args[0], Type{b: tText, arr: true})
		}
		return &srfPlan{[]colInfo{{"unnest", Type{b: args[0].t.b}}}, func(x *xctx, e *env) ([][]Val, error) {
			v, err := args[0].f(x, e)
			if err != nil || v == nil {
				return nil, err
			}
			var out [][]Val
			for _, y := range v.([]Val) {
				out = append(out, []Val{y})
			}
			return out, nil
		}}, nil
	case "generate_series":
		return &srfPlan{[]colInfo{{"generate_series", Type{b: tInt8}}}, func(x *xctx, e *env) ([][]Val, error) {
			a, err := args[0].f(x, e)
			if err != nil {
				return nil, err
			}
			b, err := args[1].f(x, e)
			if err != nil {
				return nil, err
			}
			var out [][]Val
			for i := a.(int64); i <= b.(int64); i++ {
				out = append(out, []Val{i})
			}
			return out, nil
		}}, nil
	case "jsonb_array_elements", "jsonb_array_elements_text":
		text := n.name == "jsonb_array_elements_text"
		t := Type{b: tJSONB}
		if text {
			t = Type{b: tText}
		}
		return &srfPlan{[]colInfo{{"value", t}}, func(x *xctx, e *env) ([][]Val, error) {
			v, err := args[0].f(x, e)
			if err != nil || v == nil {
				return nil, err
			}
			l, ok := v.(jsonVal).v.([]any)
			if !ok {
				return nil, pgErr("22023", "cannot extract elements from a non-array")
			}
			var out [][]Val
			for _, y := range l {
				if text {
					out = append(out, []Val{jsonToText(y)})
				} else {
					out = append(out, []Val{jsonVal{y}})
				}
			}
			return out, nil
		}}, nil
	case "jsonb_each_text", "jsonb_each", "jsonb_object_keys":
		cols := []colInfo{{"key", Type{b: tText}}, {"value", Type{b: tText}}}
		if n.name == "jsonb_each" {
			cols[1].t = Type{b: tJSONB}
		}
		if n.name == "jsonb_object_keys" {
			cols = []colInfo{{"jsonb_object_keys", Type{b: tText}}}
		}
		return &srfPlan{cols, func(x *xctx, e *env) ([][]Val, error) {
			v, err := args[0].f(x, e)
			if err != nil || v == nil {
				return nil, err
			}
			m, ok := v.(jsonVal).v.(map[string]any)
			if !ok {
				return nil, pgErr("22023", "cannot deconstruct a scalar")
			}
			keys := make([]string, 0)
			for k := range m {
				keys = append(keys, k)
			}
			sort.Strings(keys)
			var out [][]Val
			for _, k := range keys {
				switch n.name {
				case "jsonb_each_text":
					out = append(out, []Val{k, jsonToText(m[k])})
				case "jsonb_each":
					out = append(out, []Val{k, jsonVal{m[k]}})
				default:
					out = append(out, []Val{k})
				}
			}
			return out, nil
		}}, nil
	}
	return nil, pgErr("42883", "function "+n.name+" does not exist")
}
