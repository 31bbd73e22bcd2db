package pgfake

import (
	"fmt"
	"sort"
)

type retSpec struct {
	cols  []colInfo
	items []*cexpr
}

func (c *compiler) retList(k *compiler, items []selItem) (retSpec, error) {
	var r retSpec
	for _, it := range items {
		if st, ok := it.x.(*eStar); ok {
			for _, rel := range k.sc.rels {
				if st.table != "" && rel.alias != st.table {
					continue
				}
				if st.table == "" && rel.alias == "excluded" {
					continue
				}
				for i, ci := range rel.cols {
					r.cols = append(r.cols, ci)
					r.items = append(r.items, mkCol(0, rel.off+i, ci.t))
				}
			}
			continue
		}
		e, err := k.expr(it.x)
		if err != nil {
			return r, err
		}
		n := it.alias
		if n == "" {
			n = exprName(it.x)
		}
		r.items = append(r.items, e)
		r.cols = append(r.cols, colInfo{n, e.t})
	}
	return r, nil
}

func (r *retSpec) eval(x *xctx, e *env) ([]Val, error) {
	out := make([]Val, len(r.items))
	for i, it := range r.items {
		v, err := it.f(x, e)
		if err != nil {
			return nil, err
		}
		out[i] = v
	}
	return out, nil
}

func (c *compiler) target(schema, name string) (*table, error) {
	t := c.e.lookup(schema, name)
	if t == nil {
		if schema != "" {
			name = schema + "." + name
		}
		return nil, pgErr("42P01", fmt.Sprintf("relation %q does not exist", name))
	}
	return t, nil
}

// ---- INSERT ----

type insPlan struct {
	ctes  []*cteDef
	t     *table
	cols  []int
	src   plan
	vals  [][]*cexpr // VALUES rows (nil entry: DEFAULT)
	conf  *conflictClause
	arb   *uniqueIdx
	sets  []setC
	updW  *cexpr
	ret   retSpec
	hasRt bool
}

type setC struct {
	col int
	e   *cexpr // nil: DEFAULT
}

func (p *insPlan) columns() []colInfo { return p.ret.cols }

func (c *compiler) setCols(k *compiler, t *table, sets []setItem) ([]setC, error) {
	var out []setC
	for _, s := range sets {
		i, ok := t.idx[s.col]
		if !ok {
			return nil, pgErr("42703", fmt.Sprintf("column %q of relation %q does not exist", s.col, t.name))
		}
		for _, o := range out {
			if o.col == i {
				return nil, pgErr("42601", fmt.Sprintf("multiple assignments to same column %q", s.col))
			}
		}
		if s.x == nil {
			out = append(out, setC{i, nil})
			continue
		}
		if _, ok := s.x.(*eDefault); ok {
			out = append(out, setC{i, nil})
			continue
		}
		e, err := k.expr(s.x)
		if err != nil {
			return nil, err
		}
		out = append(out, setC{i, e})
	}
	return out, nil
}

func (c *compiler) insertPlan(n *insertStmt) (plan, error) {
	outer := c.sc
	defer func() { c.sc = outer }()
	p := &insPlan{}
	var err error
	if p.ctes, err = c.withScope(n.with); err != nil {
		return nil, err
	}
	if p.t, err = c.target(n.schema, n.table); err != nil {
		return nil, err
	}
	t := p.t
	if n.cols == nil {
		for i := range t.cols {
			p.cols = append(p.cols, i)
		}
	}
	for _, cn := range n.cols {
		i, ok := t.idx[cn]
		if !ok {
			return nil, pgErr("42703", fmt.Sprintf("column %q of relation %q does not exist", cn, t.name))
		}
		for _, o := range p.cols {
			if o == i {
				return nil, pgErr("42701", fmt.Sprintf("column %q specified more than once", cn))
			}
		}
		p.cols = append(p.cols, i)
	}
	switch {
	case n.sel == nil:
		p.cols = nil
		p.vals = [][]*cexpr{nil}
	case n.sel.values != nil && len(n.sel.with) == 0 && n.sel.setop == "" && n.sel.limit == nil && len(n.sel.orderBy) == 0:
		k := c.sub(&scope{up: c.sc})
		for _, row := range n.sel.values {
			if len(row) > len(p.cols) {
				return nil, pgErr("42601", "INSERT has more expressions than target columns")
			}
			if len(row) < len(p.cols) {
				if n.cols != nil {
					return nil, pgErr("42601", "INSERT has more target columns than expressions")
				}
				p.cols = p.cols[:len(row)]
			}
			var r []*cexpr
			for i, x := range row {
				if _, ok := x.(*eDefault); ok {
					r = append(r, nil)
					continue
				}
				e, err := k.expr(x)
				if err != nil {
					return nil, err
				}
				if err := assignable(e.t, t.cols[p.cols[i]]); err != nil {
					return nil, err
				}
				r = append(r, e)
			}
			p.vals = append(p.vals, r)
		}
		if k.nparams > c.nparams {
			c.nparams = k.nparams
		}
	default:
		k := &compiler{e: c.e, sc: c.sc}
		if p.src, err = k.selectPlan(n.sel); err != nil {
			return nil, err
		}
		if k.nparams > c.nparams {
			c.nparams = k.nparams
		}
		cs := p.src.columns()
		if len(cs) > len(p.cols) {
			return nil, pgErr("42601", "INSERT has more expressions than target columns")
		}
		if len(cs) < len(p.cols) {
			if n.cols != nil {
				return nil, pgErr("42601", "INSERT has more target columns than expressions")
			}
			p.cols = p.cols[:len(cs)]
		}
		for i, ci := range cs {
			if err := assignable(ci.t, t.cols[p.cols[i]]); err != nil {
				return nil, err
			}
		}
	}
	sc := &scope{up: c.sc}
	k := c.sub(sc)
	sc.addRel(tblRel(t, n.alias))
	if n.conflict != nil {
		p.conf = n.conflict
		if len(n.conflict.exprs) > 0 || n.conflict.constraint != "" {
			for _, u := range t.uniques {
				if n.conflict.constraint != "" {
					if u.con && u.name == n.conflict.constraint {
						p.arb = u
					}
					continue
				}
				if u.cols == nil || len(n.conflict.cols) != len(n.conflict.exprs) || len(u.cols) != len(n.conflict.cols) {
					continue
				}
				if (u.where != nil) && n.conflict.where == nil {
					continue
				}
				want := map[string]bool{}
				for _, x := range n.conflict.cols {
					want[x] = true
				}
				ok := true
				for _, i := range u.cols {
					if !want[t.cols[i].name] {
						ok = false
					}
				}
				if ok && (p.arb == nil || u.where == nil) {
					p.arb = u
				}
			}
			if p.arb == nil {
				return nil, pgErr("42P10", "there is no unique or exclusion constraint matching the ON CONFLICT specification")
			}
		}
		if n.conflict.doUpdate {
			sc2 := &scope{up: c.sc}
			k2 := c.sub(sc2)
			sc2.addRel(tblRel(t, n.alias))
			sc2.addRel(tblRel(t, "excluded"))
			if p.sets, err = c.setCols(k2, t, n.conflict.sets); err != nil {
				return nil, err
			}
			if n.conflict.updWhere != nil {
				if p.updW, err = k2.boolean(n.conflict.updWhere); err != nil {
					return nil, err
				}
			}
			if k2.nparams > c.nparams {
				c.nparams = k2.nparams
			}
		}
	}
	if n.returning != nil {
		p.hasRt = true
		if p.ret, err = c.retList(k, n.returning); err != nil {
			return nil, err
		}
	}
	if k.nparams > c.nparams {
		c.nparams = k.nparams
	}
	return p, nil
}

// assignable rejects at compile time what PostgreSQL's assignment casts would reject.
func assignable(from Type, col *column) error {
	if from.b == tUnknown {
		return nil
	}
	_, err := assignVal(zeroOf(from), from, col)
	if pe, ok := err.(*PgError); ok && pe.Code == "42804" {
		return err
	}
	return nil
}

// zeroOf is a value of the right Go type, only to drive assignVal's type check.
func zeroOf(t Type) Val {
	if t.arr {
		return []Val{}
	}
	return nil
}

func (x *xctx) defaultOf(t *table, i int) (Val, error) {
	c := t.cols[i]
	if c.seq != nil {
		c.seq.n++
		return c.seq.n, nil
	}
	if c.defC == nil {
		return nil, nil
	}
	v, err := c.defC.f(x, &env{})
	if err != nil {
		return nil, err
	}
	return assignVal(v, c.defC.t, c)
}

// buildTuple makes a full tuple from the given columns' values.
func (x *xctx) buildTuple(t *table, cols []int, vals []Val, types []Type, isDef []bool) ([]Val, error) {
	tup := make([]Val, len(t.cols))
	set := make([]bool, len(t.cols))
	for i, ci := range cols {
		if isDef != nil && isDef[i] {
			continue
		}
		v, err := assignVal(vals[i], types[i], t.cols[ci])
		if err != nil {
			return nil, err
		}
		tup[ci] = v
		set[ci] = true
	}
	for i := range t.cols {
		if !set[i] {
			v, err := x.defaultOf(t, i)
			if err != nil {
				return nil, err
			}
			tup[i] = v
		}
	}
	return tup, nil
}

// insertTuple inserts tup. A nil row without error: skipped by a trigger.
func (x *xctx) insertTuple(t *table, tup []Val, conflict func(u *uniqueIdx, r *row) (bool, error)) (*row, error) {
	var err error
	if tup, err = x.before(t, "insert", nil, tup); err != nil || tup == nil {
		return nil, err
	}
	if err := x.e.checkRow(x, t, tup, nil); err != nil {
		return nil, err
	}
	for _, u := range t.uniques {
		r, err := x.e.uniqueConflict(x.tx, u, tup, nil)
		if err != nil {
			return nil, err
		}
		if r != nil {
			if conflict != nil {
				ok, err := conflict(u, r)
				if err != nil {
					return nil, err
				}
				if ok {
					return nil, nil
				}
			}
			return nil, x.e.uniqueError(t, u, tup)
		}
	}
	r := x.e.newRow(x.tx, t, tup)
	if len(t.fks) > 0 {
		if !x.noTrig {
			x.after = append(x.after, func() error { return x.e.checkFKs(x, t, tup, nil) })
		}
	}
	x.queueAfter(t, "insert", nil, tup)
	return r, nil
}

func (p *insPlan) run(x *xctx, up *env) (*rowset, error) {
	if err := x.beginCTEs(p.ctes, up); err != nil {
		return nil, err
	}
	if len(p.ctes) > 0 {
		up = &env{up: up}
	}
	out := &rowset{cols: p.ret.cols, dml: true}
	one := func(vals []Val, types []Type, isDef []bool) error {
		tup, err := x.buildTuple(p.t, p.cols, vals, types, isDef)
		if err != nil {
			return err
		}
		var confl func(u *uniqueIdx, r *row) (bool, error)
		skipped := false
		var upd []Val
		if p.conf != nil {
			confl = func(u *uniqueIdx, r *row) (bool, error) {
				if p.arb != nil && u != p.arb {
					return false, nil
				}
				skipped = true
				if !p.conf.doUpdate {
					return true, nil
				}
				if err := x.e.lockRow(x.tx, r); err != nil {
					return false, err
				}
				old := x.e.visible(x.tx, r)
				if old == nil {
					return false, pgErr("40001", "could not serialize access due to concurrent update")
				}
				e := &env{tup: append(append([]Val{}, old...), tup...), up: up}
				if p.updW != nil {
					v, err := p.updW.f(x, e)
					if err != nil {
						return false, err
					}
					if v != true {
						return true, nil
					}
				}
				n, err := x.applySets(p.t, p.sets, old, e)
				if err != nil {
					return false, err
				}
				upd, err = x.updateRow2(p.t, r, old, n)
				return true, err
			}
		}
		r, err := x.insertTuple(p.t, tup, confl)
		if err != nil {
			return err
		}
		var res []Val
		switch {
		case r != nil:
			res = r.pend
		case skipped && upd != nil:
			res = upd
		default:
			return nil
		}
		out.n++
		if p.hasRt {
			v, err := p.ret.eval(x, &env{tup: res, up: up})
			if err != nil {
				return err
			}
			out.rows = append(out.rows, v)
		}
		return nil
	}
	if p.src != nil {
		rs, err := p.src.run(x, up)
		if err != nil {
			return nil, err
		}
		var types []Type
		for _, c := range p.src.columns() {
			types = append(types, c.t)
		}
		for _, r := range rs.rows {
			if err := one(r, types, nil); err != nil {
				return nil, err
			}
		}
		return out, nil
	}
	for _, row := range p.vals {
		vals := make([]Val, len(row))
		types := make([]Type, len(row))
		def := make([]bool, len(row))
		for i, ex := range row {
			if ex == nil {
				def[i] = true
				continue
			}
			v, err := ex.f(x, &env{up: up})
			if err != nil {
				return nil, err
			}
			vals[i], types[i] = v, ex.t
		}
		if err := one(vals, types, def); err != nil {
			return nil, err
		}
	}
	return out, nil
}

func (x *xctx) applySets(t *table, sets []setC, old []Val, e *env) ([]Val, error) {
	n := append([]Val{}, old...)
	for _, s := range sets {
		if s.e == nil {
			v, err := x.defaultOf(t, s.col)
			if err != nil {
				return nil, err
			}
			n[s.col] = v
			continue
		}
		v, err := s.e.f(x, e)
		if err != nil {
			return nil, err
		}
		if v, err = assignVal(v, s.e.t, t.cols[s.col]); err != nil {
			return nil, err
		}
		n[s.col] = v
	}
	return n, nil
}

// ---- UPDATE / DELETE ----

type modPlan struct {
	ctes  []*cteDef
	t     *table
	scan  *selPlan
	del   bool
	sets  []setC
	multi []multiC
	ret   retSpec
	hasRt bool
}

type multiC struct {
	cols []int
	sub  plan
}

func (p *modPlan) columns() []colInfo { return p.ret.cols }

func (c *compiler) modPlan(with []cte, schema, name, alias string, from []*fromItem, where Expr, returning []selItem, fill func(k *compiler, p *modPlan) error) (plan, error) {
	outer := c.sc
	defer func() { c.sc = outer }()
	p := &modPlan{}
	var err error
	if p.ctes, err = c.withScope(with); err != nil {
		return nil, err
	}
	if p.t, err = c.target(schema, name); err != nil {
		return nil, err
	}
	sc := &scope{up: c.sc}
	k := c.sub(sc)
	p.scan = &selPlan{e: c.e}
	if err := k.fromItem(p.scan, &fromItem{schema: schema, table: name, alias: alias}, "inner", nil); err != nil {
		return nil, err
	}
	p.scan.steps[0].tbl, p.scan.steps[0].cte = p.t, nil
	if err := k.from(p.scan, from); err != nil {
		return nil, err
	}
	if err := k.where(p.scan, where); err != nil {
		return nil, err
	}
	p.scan.width = sc.width
	if fill != nil {
		if err := fill(k, p); err != nil {
			return nil, err
		}
	}
	if returning != nil {
		p.hasRt = true
		if p.ret, err = c.retList(k, returning); err != nil {
			return nil, err
		}
	}
	if k.nparams > c.nparams {
		c.nparams = k.nparams
	}
	return p, nil
}

func (c *compiler) updatePlan(n *updateStmt) (plan, error) {
	return c.modPlan(n.with, n.schema, n.table, n.alias, n.from, n.where, n.returning, func(k *compiler, p *modPlan) error {
		var err error
		if p.sets, err = c.setCols(k, p.t, n.sets); err != nil {
			return err
		}
		for _, s := range p.sets {
			if s.e != nil {
				if err := assignable(s.e.t, p.t.cols[s.col]); err != nil {
					return err
				}
			}
		}
		for _, m := range n.multi {
			sub, ok := m.x.(*eSub)
			if !ok {
				return pgErr("0A000", "pgfake: multi-column assignment needs a subquery")
			}
			sp, err := k.subselect(sub.sel)
			if err != nil {
				return err
			}
			mc := multiC{sub: sp}
			for _, cn := range m.cols {
				i, ok := p.t.idx[cn]
				if !ok {
					return pgErr("42703", fmt.Sprintf("column %q of relation %q does not exist", cn, p.t.name))
				}
				mc.cols = append(mc.cols, i)
			}
			p.multi = append(p.multi, mc)
		}
		return nil
	})
}

func (c *compiler) deletePlan(n *deleteStmt) (plan, error) {
	return c.modPlan(n.with, n.schema, n.table, n.alias, n.using, n.where, n.returning, func(k *compiler, p *modPlan) error {
		p.del = true
		return nil
	})
}

func (p *modPlan) run(x *xctx, up *env) (*rowset, error) {
	if err := x.beginCTEs(p.ctes, up); err != nil {
		return nil, err
	}
	if len(p.ctes) > 0 {
		up = &env{up: up}
	}
	out := &rowset{cols: p.ret.cols, dml: true}
	var hits []refRow
	seen := map[*row]bool{}
	err := p.scan.scan(x, up, func(tup []Val, refs []*row) (bool, error) {
		if seen[refs[0]] {
			return true, nil
		}
		seen[refs[0]] = true
		hits = append(hits, refRow{append([]Val{}, tup...), append([]*row{}, refs...)})
		return true, nil
	})
	if err != nil {
		return nil, err
	}
	for _, h := range hits {
		if err := x.e.lockRow(x.tx, h.refs[0]); err != nil {
			return nil, err
		}
	}
	w := len(p.t.cols)
	for _, h := range hits {
		r := h.refs[0]
		old := append([]Val{}, h.tup[:w]...)
		res := old
		if p.del {
			if err := x.deleteRow(p.t, r, old); err != nil {
				return nil, err
			}
		} else {
			e := &env{tup: h.tup, up: up}
			n, err := x.applySets(p.t, p.sets, old, e)
			if err != nil {
				return nil, err
			}
			for _, m := range p.multi {
				rs, err := m.sub.run(x, e)
				if err != nil {
					return nil, err
				}
				if len(rs.rows) > 1 {
					return nil, pgErr("21000", "more than one row returned by a subquery used as an expression")
				}
				for i, ci := range m.cols {
					var v Val
					if len(rs.rows) == 1 {
						v = rs.rows[0][i]
					}
					if v, err = assignVal(v, m.sub.columns()[i].t, p.t.cols[ci]); err != nil {
						return nil, err
					}
					n[ci] = v
				}
			}
			if res, err = x.updateRow2(p.t, r, old, n); err != nil {
				return nil, err
			}
			if res == nil {
				continue
			}
		}
		out.n++
		if p.hasRt {
			full := append(append([]Val{}, res...), h.tup[w:]...)
			v, err := p.ret.eval(x, &env{tup: full, up: up})
			if err != nil {
				return nil, err
			}
			out.rows = append(out.rows, v)
		}
	}
	return out, nil
}

func (x *xctx) updateRow(t *table, r *row, old, n []Val) error {
	if err := x.e.lockRow(x.tx, r); err != nil {
		return err
	}
	_, err := x.updateRow2(t, r, old, n)
	return err
}

// updateRow2 stores the new version of a row already locked; it returns the version stored.
func (x *xctx) updateRow2(t *table, r *row, old, n []Val) ([]Val, error) {
	var err error
	if n, err = x.before(t, "update", old, n); err != nil || n == nil {
		return nil, err
	}
	if err := x.e.checkRow(x, t, n, old); err != nil {
		return nil, err
	}
	for _, u := range t.uniques {
		ko, oko := u.key(old)
		kn, okn := u.key(n)
		if oko == okn && ko == kn {
			continue
		}
		c, err := x.e.uniqueConflict(x.tx, u, n, r)
		if err != nil {
			return nil, err
		}
		if c != nil {
			return nil, x.e.uniqueError(t, u, n)
		}
	}
	for _, f := range t.refBy {
		changed := false
		for _, c := range f.refCols {
			if keyOf(old[c]) != keyOf(n[c]) {
				changed = true
			}
		}
		if changed {
			if err := x.e.fkOnParentDelete(x, t, old); err != nil && !x.noTrig {
				return nil, err
			}
		}
	}
	x.e.setPend(x.tx, r, n)
	if len(t.fks) > 0 {
		if !x.noTrig {
			x.after = append(x.after, func() error { return x.e.checkFKs(x, t, n, old) })
		}
	}
	x.queueAfter(t, "update", old, n)
	return n, nil
}

func (x *xctx) deleteRow(t *table, r *row, old []Val) error {
	if err := x.e.lockRow(x.tx, r); err != nil {
		return err
	}
	if v, err := x.before(t, "delete", old, nil); err != nil || v == nil {
		return err
	}
	x.e.setPend(x.tx, r, nil)
	if err := x.e.fkOnParentDelete(x, t, old); err != nil && !x.noTrig {
		return err
	}
	x.queueAfter(t, "delete", old, nil)
	return nil
}

// ---- triggers ----

func (t *table) trigFor(before bool, ev string, old, n []Val) []*trigger {
	var out []*trigger
	for _, tr := range t.triggers {
		if tr.before != before || !tr.events[ev] {
			continue
		}
		out = append(out, tr)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].name < out[j].name })
	return out
}

// before runs the BEFORE ROW triggers; nil result: skip the row.
func (x *xctx) before(t *table, ev string, old, n []Val) ([]Val, error) {
	cur := n
	if ev == "delete" {
		cur = old
	}
	if x.noTrig {
		return cur, nil
	}
	for _, tr := range t.trigFor(true, ev, old, n) {
		res, err := x.callTrigger(t, tr, ev, old, n)
		if err != nil {
			return nil, err
		}
		if res == nil {
			return nil, nil
		}
		if ev != "delete" {
			n, cur = res, res
		}
	}
	return cur, nil
}

func (x *xctx) queueAfter(t *table, ev string, old, n []Val) {
	if x.noTrig {
		return
	}
	for _, tr := range t.trigFor(false, ev, old, n) {
		tr := tr
		x.after = append(x.after, func() error {
			_, err := x.callTrigger(t, tr, ev, old, n)
			return err
		})
	}
}

// runPlan runs a statement and then its after-row work.
func (x *xctx) runPlan(p plan, up *env) (*rowset, error) {
	saved := x.after
	x.after = nil
	defer func() { x.after = saved }()
	rs, err := p.run(x, up)
	if err != nil {
		return nil, err
	}
	for len(x.after) > 0 {
		q := x.after
		x.after = nil
		for _, f := range q {
			if err := f(); err != nil {
				return nil, err
			}
		}
	}
	return rs, nil
}
