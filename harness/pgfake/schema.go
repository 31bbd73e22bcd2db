package pgfake

import (
	"fmt"
	"sort"
	"strings"
)

// Col is a column of a table.
type Col struct {
	Name, Type          string
	NotNull, HasDefault bool
}

// Columns returns the columns of a table ("schema.name").
func (e *Engine) Columns(full string) []Col {
	e.mu.Lock()
	defer e.mu.Unlock()
	t := e.tables[full]
	if t == nil {
		return nil
	}
	var out []Col
	for _, c := range t.cols {
		out = append(out, Col{c.name, c.typ.name(), c.notNull, c.def != nil || c.seq != nil})
	}
	return out
}

// Tables returns the names of all tables.
func (e *Engine) Tables() []string {
	e.mu.Lock()
	defer e.mu.Unlock()
	var out []string
	for n := range e.tables {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

// Schema describes the schema, one line for each of its parts, sorted.
func (e *Engine) Schema() []string {
	e.mu.Lock()
	defer e.mu.Unlock()
	var out []string
	add := func(f string, a ...any) { out = append(out, fmt.Sprintf(f, a...)) }
	for n := range e.schemas {
		add("schema %s", n)
	}
	for n, f := range e.funcs {
		add("function %s: %s", n, strings.Join(strings.Fields(f.src), " "))
	}
	for n, t := range e.tables {
		add("table %s", n)
		for _, c := range t.cols {
			add("table %s column %s %s(%d,%d,%v) not null %v default %v", n, c.name, c.typ.name(), c.typ.mod, c.typ.scale, c.typ.char, c.notNull, c.def != nil || c.seq != nil)
		}
		for _, u := range t.uniques {
			var cs []string
			for _, i := range u.cols {
				cs = append(cs, t.cols[i].name)
			}
			add("table %s unique %s %v where %v primary %v", n, u.name, cs, u.where != nil, u.primary)
		}
		for _, f := range t.fks {
			add("table %s foreign key %s %v -> %s", n, f.name, f.colNames, f.parent.full())
		}
		for _, k := range t.checks {
			add("table %s check %s", n, k.name)
		}
		for _, g := range t.triggers {
			add("table %s trigger %s before %v %v %s", n, g.name, g.before, g.events, g.fn)
		}
		for i := range t.indexes {
			add("table %s index %s", n, i)
		}
	}
	sort.Strings(out)
	return out
}

// Failures returns how often statements failed with each SQLSTATE, and examples.
func (e *Engine) Failures() (map[string]int, map[string][]string) {
	e.failMu.Lock()
	defer e.failMu.Unlock()
	n, x := map[string]int{}, map[string][]string{}
	for k, v := range e.failN {
		n[k] = v
	}
	for k, v := range e.failX {
		x[k] = append([]string{}, v...)
	}
	return n, x
}

func (e *Engine) failed(p *PgError) {
	e.failMu.Lock()
	defer e.failMu.Unlock()
	if e.failN == nil {
		e.failN, e.failX = map[string]int{}, map[string][]string{}
	}
	e.failN[p.Code]++
	if len(e.failX[p.Code]) < 5 {
		e.failX[p.Code] = append(e.failX[p.Code], p.Msg)
	}
}
