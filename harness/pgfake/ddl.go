package pgfake

import (
	"fmt"
	"strings"
)

// catSnap is a copy of the catalog, restored when a transaction that ran DDL rolls back.
type catSnap struct {
	schemas map[string]bool
	tables  map[string]*table
	funcs   map[string]*function
	copies  map[*table]table
	rows    map[*row][3]any
	cols    map[*column]column
	uniq    map[*uniqueIdx]uniqueIdx
	fks     map[*fkCon]fkCon
}

func (e *Engine) snapCatalog() *catSnap {
	s := &catSnap{map[string]bool{}, map[string]*table{}, map[string]*function{}, map[*table]table{}, map[*row][3]any{}, map[*column]column{}, map[*uniqueIdx]uniqueIdx{}, map[*fkCon]fkCon{}}
	for k, v := range e.schemas {
		s.schemas[k] = v
	}
	for k, v := range e.funcs {
		s.funcs[k] = v
	}
	for k, t := range e.tables {
		s.tables[k] = t
		c := *t
		c.cols = append([]*column{}, t.cols...)
		c.rows = append([]*row{}, t.rows...)
		c.uniques = append([]*uniqueIdx{}, t.uniques...)
		c.checks = append([]*checkCon{}, t.checks...)
		c.fks = append([]*fkCon{}, t.fks...)
		c.refBy = append([]*fkCon{}, t.refBy...)
		c.triggers = append([]*trigger{}, t.triggers...)
		c.indexes = map[string]bool{}
		for k := range t.indexes {
			c.indexes[k] = true
		}
		s.copies[t] = c
		for _, r := range t.rows {
			s.rows[r] = [3]any{r.com, r.pend, r.dirty}
		}
		for _, x := range t.cols {
			s.cols[x] = *x
		}
		for _, u := range t.uniques {
			s.uniq[u] = *u
		}
		for _, f := range t.fks {
			s.fks[f] = *f
		}
	}
	return s
}

func (e *Engine) restoreCatalog(s *catSnap) {
	e.schemas, e.tables, e.funcs = s.schemas, s.tables, s.funcs
	for t, c := range s.copies {
		*t = c
		for _, x := range t.cols {
			seq := x.seq
			*x = s.cols[x]
			x.seq = seq
		}
		for _, u := range t.uniques {
			*u = s.uniq[u]
		}
		for _, f := range t.fks {
			*f = s.fks[f]
		}
		rows := t.rows[:0:0]
		for _, r := range t.rows {
			v := s.rows[r]
			if c, ok := v[0].([]Val); ok && c != nil {
				r.com = c
				rows = append(rows, r)
			}
		}
		t.rows = rows
		t.reindexCols()
		t.rebuild()
	}
	e.version++
}

func (t *table) uniqueName(base string) string {
	n := base
	for i := 1; ; i++ {
		used := false
		for _, u := range t.uniques {
			if u.name == n {
				used = true
			}
		}
		for _, c := range t.checks {
			if c.name == n {
				used = true
			}
		}
		for _, f := range t.fks {
			if f.name == n {
				used = true
			}
		}
		if !used {
			return n
		}
		n = fmt.Sprintf("%s%d", base, i)
	}
}

// recompile rebuilds a table's compiled expressions after a schema change.
func (e *Engine) recompile(t *table) error {
	t.reindexCols()
	for _, c := range t.cols {
		c.defC = nil
		if c.def != nil {
			k := &compiler{e: e}
			x, err := k.expr(c.def)
			if err != nil {
				return err
			}
			c.defC = x
		}
	}
	sc := func() *compiler {
		s := &scope{}
		s.addRel(tblRel(t, ""))
		return &compiler{e: e, sc: s}
	}
	for _, k := range t.checks {
		x, err := sc().boolean(k.x)
		if err != nil {
			return err
		}
		k.c = x
	}
	for _, u := range t.uniques {
		u.keys, u.whereC = nil, nil
		for _, ex := range u.exprs {
			x, err := sc().expr(ex)
			if err != nil {
				return err
			}
			u.keys = append(u.keys, x)
		}
		if u.where != nil {
			x, err := sc().boolean(u.where)
			if err != nil {
				return err
			}
			u.whereC = x
		}
	}
	return nil
}

func (t *table) colIdx(names []string) ([]int, error) {
	var out []int
	for _, n := range names {
		i := -1
		for j, c := range t.cols {
			if c.name == n {
				i = j
			}
		}
		if i < 0 {
			return nil, pgErr("42703", fmt.Sprintf("column %q does not exist", n))
		}
		out = append(out, i)
	}
	return out, nil
}

func (e *Engine) addUnique(t *table, name string, cols []string, con, primary bool) error {
	ix, err := t.colIdx(cols)
	if err != nil {
		return err
	}
	if name == "" {
		if primary {
			name = t.name + "_pkey"
		} else {
			name = t.uniqueName(t.name + "_" + strings.Join(cols, "_") + "_key")
		}
	}
	for _, u := range t.uniques {
		if u.name == name {
			return pgErr("42P07", fmt.Sprintf("relation %q already exists", name))
		}
	}
	if primary {
		for _, i := range ix {
			t.cols[i].notNull = true
		}
	}
	t.uniques = append(t.uniques, &uniqueIdx{name: name, cols: ix, con: con, primary: primary})
	return nil
}

func (e *Engine) addFK(t *table, f *fkSpec, name string) error {
	p := e.lookup(f.schema, f.table)
	if p == nil && f.table == t.name && (f.schema == "" || f.schema == t.schema) {
		p = t
	}
	if p == nil {
		return pgErr("42P01", fmt.Sprintf("relation %q does not exist", f.table))
	}
	cols, err := t.colIdx(f.cols)
	if err != nil {
		return err
	}
	rc := f.refCols
	if len(rc) == 0 {
		for _, u := range p.uniques {
			if u.primary {
				for _, i := range u.cols {
					rc = append(rc, p.cols[i].name)
				}
			}
		}
	}
	rcols, err := p.colIdx(rc)
	if err != nil {
		return err
	}
	ok := false
	for _, u := range p.uniques {
		if len(u.cols) == len(rcols) && u.where == nil {
			m := true
			for i := range rcols {
				if u.cols[i] != rcols[i] {
					m = false
				}
			}
			ok = ok || m
		}
	}
	if !ok {
		return pgErr("42830", fmt.Sprintf("there is no unique constraint matching given keys for referenced table %q", p.name))
	}
	if name == "" {
		name = t.uniqueName(t.name + "_" + strings.Join(f.cols, "_") + "_fkey")
	}
	fk := &fkCon{name: name, child: t, cols: cols, colNames: f.cols, parent: p, refCols: rcols, onDelete: f.onDelete}
	t.fks = append(t.fks, fk)
	p.refBy = append(p.refBy, fk)
	return nil
}

func (e *Engine) addColumn(t *table, cs colSpec) *column {
	c := &column{name: cs.name, typ: cs.typ, notNull: cs.notNull, def: cs.def}
	if cs.serial {
		c.seq = &sequence{}
	}
	t.cols = append(t.cols, c)
	t.reindexCols()
	return c
}

func (e *Engine) colConstraints(t *table, cs colSpec) error {
	if cs.pk {
		if err := e.addUnique(t, "", []string{cs.name}, true, true); err != nil {
			return err
		}
	}
	if cs.unique {
		if err := e.addUnique(t, "", []string{cs.name}, true, false); err != nil {
			return err
		}
	}
	if cs.check != nil {
		n := cs.checkName
		if n == "" {
			n = t.uniqueName(t.name + "_" + cs.name + "_check")
		}
		t.checks = append(t.checks, &checkCon{name: n, x: cs.check})
	}
	if cs.ref != nil {
		if err := e.addFK(t, cs.ref, ""); err != nil {
			return err
		}
	}
	return nil
}

func (e *Engine) addCon(t *table, k tblConstraint) error {
	switch k.kind {
	case "pk":
		return e.addUnique(t, k.name, k.cols, true, true)
	case "unique":
		return e.addUnique(t, k.name, k.cols, true, false)
	case "check":
		n := k.name
		if n == "" {
			n = t.uniqueName(t.name + "_check")
		}
		t.checks = append(t.checks, &checkCon{name: n, x: k.check})
	case "fk":
		return e.addFK(t, k.fk, k.name)
	}
	return nil
}

// verify checks the existing rows against the constraints, as ALTER TABLE and CREATE UNIQUE INDEX do.
func (e *Engine) verify(x *xctx, t *table) error {
	t.rebuild()
	for _, r := range t.rows {
		v := e.visible(x.tx, r)
		if v == nil {
			continue
		}
		if err := e.checkRow(x, t, v, nil); err != nil {
			if pe, ok := err.(*PgError); ok && pe.Code == "23502" {
				return &PgError{Code: "23502", Msg: fmt.Sprintf("column %q of relation %q contains null values", pe.Column, t.name), Table: t.name}
			}
			return err
		}
		for _, u := range t.uniques {
			c, err := e.uniqueConflict(x.tx, u, v, r)
			if err != nil {
				return err
			}
			if c != nil {
				return &PgError{Code: "23505", Msg: fmt.Sprintf("could not create unique index %q", u.name), Table: t.name, Constraint: u.name}
			}
		}
		if err := e.checkFKs(x, t, v, nil); err != nil {
			return err
		}
	}
	return nil
}

func (e *Engine) ddl(x *xctx, s Stmt) (string, error) {
	if x.tx.cat == nil {
		x.tx.cat = e.snapCatalog()
	}
	e.version++
	defer func() { e.version++ }()
	switch n := s.(type) {
	case *createSchema:
		if e.schemas[n.name] {
			if n.ine {
				return "CREATE SCHEMA", nil
			}
			return "", pgErr("42P06", fmt.Sprintf("schema %q already exists", n.name))
		}
		e.schemas[n.name] = true
		return "CREATE SCHEMA", nil
	case *dropSchema:
		if !e.schemas[n.name] {
			if n.ie {
				return "DROP SCHEMA", nil
			}
			return "", pgErr("3F000", fmt.Sprintf("schema %q does not exist", n.name))
		}
		for k, t := range e.tables {
			if t.schema == n.name {
				if !n.cascade {
					return "", pgErr("2BP01", fmt.Sprintf("cannot drop schema %s because other objects depend on it", n.name))
				}
				e.dropTable(k)
			}
		}
		for k := range e.funcs {
			if strings.HasPrefix(k, n.name+".") {
				if !n.cascade {
					return "", pgErr("2BP01", fmt.Sprintf("cannot drop schema %s because other objects depend on it", n.name))
				}
				delete(e.funcs, k)
			}
		}
		delete(e.schemas, n.name)
		return "DROP SCHEMA", nil
	case *createTable:
		sc := n.schema
		if sc == "" {
			sc = "public"
		}
		if !e.schemas[sc] {
			return "", pgErr("3F000", fmt.Sprintf("schema %q does not exist", sc))
		}
		full := sc + "." + n.name
		if e.tables[full] != nil {
			if n.ine {
				return "CREATE TABLE", nil
			}
			return "", pgErr("42P07", fmt.Sprintf("relation %q already exists", n.name))
		}
		t := &table{schema: sc, name: n.name, indexes: map[string]bool{}}
		e.tables[full] = t
		err := func() error {
			for _, c := range n.cols {
				if _, dup := t.idx[c.name]; dup {
					return pgErr("42701", fmt.Sprintf("column %q specified more than once", c.name))
				}
				e.addColumn(t, c)
			}
			for _, c := range n.cols {
				if err := e.colConstraints(t, c); err != nil {
					return err
				}
			}
			for _, k := range n.cons {
				if err := e.addCon(t, k); err != nil {
					return err
				}
			}
			return e.recompile(t)
		}()
		if err != nil {
			e.dropTable(full)
			return "", err
		}
		t.rebuild()
		return "CREATE TABLE", nil
	case *createIndex:
		t := e.lookup(n.schema, n.table)
		if t == nil {
			return "", pgErr("42P01", fmt.Sprintf("relation %q does not exist", n.table))
		}
		if n.name != "" {
			for _, o := range e.tables {
				if o.schema == t.schema && o.indexes[n.name] {
					if n.ine {
						return "CREATE INDEX", nil
					}
					return "", pgErr("42P07", fmt.Sprintf("relation %q already exists", n.name))
				}
			}
		}
		// resolve the expressions even if the index is not unique
		s := &scope{}
		s.addRel(tblRel(t, ""))
		k := &compiler{e: e, sc: s}
		plain := true
		var names []string
		for _, ex := range n.exprs {
			if _, err := k.expr(ex); err != nil {
				return "", err
			}
			if c, ok := ex.(*eCol); ok {
				names = append(names, c.parts[len(c.parts)-1])
			} else {
				plain = false
			}
		}
		if n.where != nil {
			if _, err := k.boolean(n.where); err != nil {
				return "", err
			}
		}
		name := n.name
		if name == "" {
			name = fmt.Sprintf("%s_idx%d", t.name, len(t.indexes))
		}
		t.indexes[name] = true
		if n.unique {
			u := &uniqueIdx{name: name, where: n.where}
			if plain {
				ix, err := t.colIdx(names)
				if err != nil {
					return "", err
				}
				u.cols = ix
			} else {
				u.exprs = n.exprs
			}
			t.uniques = append(t.uniques, u)
			if err := e.recompile(t); err != nil {
				return "", err
			}
			if err := e.verify(x, t); err != nil {
				return "", err
			}
		}
		return "CREATE INDEX", nil
	case *createFunction:
		return "CREATE FUNCTION", e.createFunction(n)
	case *createTrigger:
		t := e.lookup(n.schema, n.table)
		if t == nil {
			return "", pgErr("42P01", fmt.Sprintf("relation %q does not exist", n.table))
		}
		if e.findFunc(n.fn) == nil {
			return "", pgErr("42883", fmt.Sprintf("function %s() does not exist", n.fn))
		}
		for _, tr := range t.triggers {
			if tr.name == n.name {
				return "", pgErr("42710", fmt.Sprintf("trigger %q for relation %q already exists", n.name, t.name))
			}
		}
		if !n.forEachRow {
			return "", pgErr("0A000", "pgfake: statement triggers")
		}
		tr := &trigger{name: n.name, before: n.before, events: map[string]bool{}, updOf: n.updateOf, fn: n.fn, when: n.when}
		if n.when != nil || len(n.updateOf) > 0 {
			return "", pgErr("0A000", "pgfake: conditional triggers")
		}
		for _, ev := range n.events {
			tr.events[ev] = true
		}
		t.triggers = append(t.triggers, tr)
		return "CREATE TRIGGER", nil
	case *dropStmt:
		for _, nm := range n.names {
			if err := e.dropObj(n, nm[0], nm[1]); err != nil {
				return "", err
			}
		}
		return "DROP " + strings.ToUpper(n.kind), nil
	case *alterTable:
		t := e.lookup(n.schema, n.name)
		if t == nil {
			if n.ie {
				return "ALTER TABLE", nil
			}
			return "", pgErr("42P01", fmt.Sprintf("relation %q does not exist", n.name))
		}
		for _, a := range n.actions {
			if err := e.alter(x, t, a); err != nil {
				return "", err
			}
		}
		return "ALTER TABLE", nil
	}
	return "", pgErr("0A000", fmt.Sprintf("pgfake: %T", s))
}

func (e *Engine) dropTable(full string) {
	t := e.tables[full]
	delete(e.tables, full)
	for _, f := range t.fks {
		f.parent.refBy = rmFK(f.parent.refBy, f)
	}
	for _, f := range t.refBy {
		f.child.fks = rmFK(f.child.fks, f)
	}
}

func rmFK(l []*fkCon, f *fkCon) []*fkCon {
	var out []*fkCon
	for _, x := range l {
		if x != f {
			out = append(out, x)
		}
	}
	return out
}

func (e *Engine) dropObj(n *dropStmt, schema, name string) error {
	switch n.kind {
	case "table":
		t := e.lookup(schema, name)
		if t == nil {
			if n.ie {
				return nil
			}
			return pgErr("42P01", fmt.Sprintf("table %q does not exist", name))
		}
		for _, f := range t.refBy {
			if f.child != t && !n.cascade {
				return pgErr("2BP01", fmt.Sprintf("cannot drop table %s because other objects depend on it", name))
			}
		}
		e.dropTable(t.full())
	case "index":
		sc := schema
		if sc == "" {
			sc = "public"
		}
		for _, t := range e.tables {
			if t.schema == sc && t.indexes[name] {
				delete(t.indexes, name)
				for i, u := range t.uniques {
					if u.name == name {
						t.uniques = append(append([]*uniqueIdx{}, t.uniques[:i]...), t.uniques[i+1:]...)
						break
					}
				}
				return nil
			}
		}
		if !n.ie {
			return pgErr("42704", fmt.Sprintf("index %q does not exist", name))
		}
	case "function":
		fn := name
		if schema != "" {
			fn = schema + "." + name
		}
		if e.findFunc(fn) == nil {
			if n.ie {
				return nil
			}
			return pgErr("42883", fmt.Sprintf("function %s does not exist", name))
		}
		for _, t := range e.tables {
			for _, tr := range t.triggers {
				if e.funcKey(tr.fn) == e.funcKey(fn) {
					if !n.cascade {
						return pgErr("2BP01", fmt.Sprintf("cannot drop function %s because other objects depend on it", name))
					}
				}
			}
		}
		if n.cascade {
			for _, t := range e.tables {
				var keep []*trigger
				for _, tr := range t.triggers {
					if e.funcKey(tr.fn) != e.funcKey(fn) {
						keep = append(keep, tr)
					}
				}
				t.triggers = keep
			}
		}
		delete(e.funcs, e.funcKey(fn))
	case "trigger":
		sc, tn := "", n.onTable
		if i := strings.IndexByte(tn, '.'); i >= 0 {
			sc, tn = tn[:i], tn[i+1:]
		}
		t := e.lookup(sc, tn)
		if t == nil {
			if n.ie {
				return nil
			}
			return pgErr("42P01", fmt.Sprintf("relation %q does not exist", n.onTable))
		}
		for i, tr := range t.triggers {
			if tr.name == name {
				t.triggers = append(append([]*trigger{}, t.triggers[:i]...), t.triggers[i+1:]...)
				return nil
			}
		}
		if !n.ie {
			return pgErr("42704", fmt.Sprintf("trigger %q for table %q does not exist", name, n.onTable))
		}
	}
	return nil
}

// eachTuple rewrites every version of every row of t.
func (t *table) eachTuple(f func(v []Val) ([]Val, error)) error {
	for _, r := range t.rows {
		if r.com != nil {
			v, err := f(r.com)
			if err != nil {
				return err
			}
			r.com = v
		}
		if r.dirty && r.pend != nil {
			v, err := f(r.pend)
			if err != nil {
				return err
			}
			r.pend = v
		}
		r.hist = nil
	}
	return nil
}

func (e *Engine) alter(x *xctx, t *table, a alterAction) error {
	ci := -1
	if i, ok := t.idx[a.name]; ok {
		ci = i
	}
	needCol := func() error {
		if ci < 0 {
			return pgErr("42703", fmt.Sprintf("column %q of relation %q does not exist", a.name, t.name))
		}
		return nil
	}
	switch a.op {
	case "noop":
		return nil
	case "addcol":
		if _, ok := t.idx[a.col.name]; ok {
			if a.ine {
				return nil
			}
			return pgErr("42701", fmt.Sprintf("column %q of relation %q already exists", a.col.name, t.name))
		}
		e.addColumn(t, a.col)
		if err := e.colConstraints(t, a.col); err != nil {
			return err
		}
		if err := e.recompile(t); err != nil {
			return err
		}
		i := len(t.cols) - 1
		if err := t.eachTuple(func(v []Val) ([]Val, error) {
			d, err := x.defaultOf(t, i)
			return append(append([]Val{}, v...), d), err
		}); err != nil {
			return err
		}
		return e.verify(x, t)
	case "dropcol":
		if ci < 0 {
			if a.ine {
				return nil
			}
			return needCol()
		}
		keepU := t.uniques[:0:0]
		for _, u := range t.uniques {
			uses := false
			for _, c := range u.cols {
				if c == ci {
					uses = true
				}
			}
			if !uses {
				n := *u
				n.cols = shift(u.cols, ci)
				*u = n
				keepU = append(keepU, u)
			}
		}
		t.uniques = keepU
		keepF := t.fks[:0:0]
		for _, f := range t.fks {
			uses := false
			for _, c := range f.cols {
				if c == ci {
					uses = true
				}
			}
			if uses {
				f.parent.refBy = rmFK(f.parent.refBy, f)
				continue
			}
			f.cols = shift(f.cols, ci)
			keepF = append(keepF, f)
		}
		t.fks = keepF
		for _, f := range t.refBy {
			f.refCols = shift(f.refCols, ci)
		}
		keepC := t.checks[:0:0]
		for _, k := range t.checks {
			if !mentions(k.x, a.name) {
				keepC = append(keepC, k)
			}
		}
		t.checks = keepC
		t.cols = append(append([]*column{}, t.cols[:ci]...), t.cols[ci+1:]...)
		if err := t.eachTuple(func(v []Val) ([]Val, error) {
			return append(append([]Val{}, v[:ci]...), v[ci+1:]...), nil
		}); err != nil {
			return err
		}
		if err := e.recompile(t); err != nil {
			return err
		}
		t.rebuild()
		return nil
	case "altertype":
		if err := needCol(); err != nil {
			return err
		}
		c := t.cols[ci]
		var u *cexpr
		if a.using != nil {
			s := &scope{}
			s.addRel(tblRel(t, ""))
			k := &compiler{e: e, sc: s}
			ex, err := k.expr(a.using)
			if err != nil {
				return err
			}
			u = ex
		}
		from := c.typ
		c.typ = a.typ
		if err := t.eachTuple(func(v []Val) ([]Val, error) {
			n := append([]Val{}, v...)
			val, ft := v[ci], from
			if u != nil {
				nv, err := u.f(x, &env{tup: v})
				if err != nil {
					return nil, err
				}
				val, ft = nv, u.t
			}
			nv, err := assignVal(val, ft, c)
			n[ci] = nv
			return n, err
		}); err != nil {
			return err
		}
		if err := e.recompile(t); err != nil {
			return err
		}
		return e.verify(x, t)
	case "setdef", "dropdef":
		if err := needCol(); err != nil {
			return err
		}
		t.cols[ci].def = a.def
		t.cols[ci].seq = nil
		return e.recompile(t)
	case "setnn":
		if err := needCol(); err != nil {
			return err
		}
		t.cols[ci].notNull = true
		return e.verify(x, t)
	case "dropnn":
		if err := needCol(); err != nil {
			return err
		}
		t.cols[ci].notNull = false
		return nil
	case "addcon":
		if err := e.addCon(t, a.con); err != nil {
			return err
		}
		if err := e.recompile(t); err != nil {
			return err
		}
		return e.verify(x, t)
	case "dropcon":
		for i, u := range t.uniques {
			if u.con && u.name == a.name {
				for _, f := range append([]*fkCon{}, t.refBy...) {
					if len(f.refCols) == len(u.cols) && f.refCols[0] == u.cols[0] {
						if !a.cascade {
							return pgErr("2BP01", fmt.Sprintf("cannot drop constraint %s on table %s because other objects depend on it", a.name, t.name))
						}
						t.refBy = rmFK(t.refBy, f)
						f.child.fks = rmFK(f.child.fks, f)
					}
				}
				t.uniques = append(append([]*uniqueIdx{}, t.uniques[:i]...), t.uniques[i+1:]...)
				return nil
			}
		}
		for i, k := range t.checks {
			if k.name == a.name {
				t.checks = append(append([]*checkCon{}, t.checks[:i]...), t.checks[i+1:]...)
				return nil
			}
		}
		for _, f := range t.fks {
			if f.name == a.name {
				t.fks = rmFK(t.fks, f)
				f.parent.refBy = rmFK(f.parent.refBy, f)
				return nil
			}
		}
		if a.ine {
			return nil
		}
		return pgErr("42704", fmt.Sprintf("constraint %q of relation %q does not exist", a.name, t.name))
	case "renamecol":
		if err := needCol(); err != nil {
			return err
		}
		t.cols[ci].name = a.name2
		return e.recompile(t)
	}
	return pgErr("0A000", "pgfake: ALTER TABLE "+a.op)
}

func shift(l []int, gone int) []int {
	var out []int
	for _, c := range l {
		if c > gone {
			c--
		}
		out = append(out, c)
	}
	return out
}

func mentions(x Expr, col string) bool {
	return strings.Contains(fmt.Sprintf("%#v", dump(x)), "{"+col+"}")
}

// dump renders the column names of an expression.
func dump(x Expr) string {
	switch n := x.(type) {
	case *eCol:
		return "{" + n.parts[len(n.parts)-1] + "}"
	case *eBin:
		return dump(n.l) + dump(n.r)
	case *eUn:
		return dump(n.x)
	case *eIn:
		s := dump(n.x)
		for _, y := range n.list {
			s += dump(y)
		}
		return s
	case *eCast:
		return dump(n.x)
	case *eIsNull:
		return dump(n.x)
	case *eAny:
		return dump(n.x)
	case *eBetween:
		return dump(n.x)
	case *eFunc:
		s := ""
		for _, y := range n.args {
			s += dump(y)
		}
		return s
	}
	return ""
}
