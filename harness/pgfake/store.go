package pgfake

import (
	"errors"
	"fmt"
	"sort"
	"strings"
	"sync"
	"time"
)

type column struct {
	name    string
	typ     Type
	notNull bool
	def     Expr
	defC    *cexpr
	seq     *sequence
}

type sequence struct{ n int64 }

type histVer struct {
	until int64 // commit sequence at which this version was replaced
	tup   []Val
}

type row struct {
	id    int64
	t     *table
	com   []Val // committed version, nil: none
	pend  []Val // owner's version (valid if dirty)
	dirty bool
	owner *Tx
	since int64 // commit seq of com
	hist  []histVer
}

type uniqueIdx struct {
	name    string
	cols    []int // plain columns, or nil
	exprs   []Expr
	where   Expr
	keys    []*cexpr
	whereC  *cexpr
	con     bool // constraint rather than index
	primary bool
	m       map[string][]*row
}

type checkCon struct {
	name string
	x    Expr
	c    *cexpr
}

type fkCon struct {
	name     string
	child    *table
	cols     []int
	colNames []string
	parent   *table
	refCols  []int
	onDelete string
}

type trigger struct {
	name   string
	before bool
	events map[string]bool
	updOf  []string
	fn     string
	when   Expr
}

type table struct {
	schema, name string
	cols         []*column
	idx          map[string]int
	rows         []*row
	uniques      []*uniqueIdx
	checks       []*checkCon
	fks          []*fkCon
	refBy        []*fkCon
	triggers     []*trigger
	hcols        []int // hash-indexed columns
	hidx         map[int]map[string][]*row
	indexes      map[string]bool
	nLive        int
}

func (t *table) full() string { return t.schema + "." + t.name }

func (t *table) reindexCols() {
	t.idx = map[string]int{}
	for i, c := range t.cols {
		t.idx[c.name] = i
	}
}

// Tx is a transaction.
type Tx struct {
	id      int64
	sess    *session
	undo    []undoEnt
	touched []*row
	seen    map[*row]bool
	rr      bool
	snap    int64 // rr snapshot
	snapSet bool
	done    bool
	waitFor *Tx
	cat     *catSnap
	start   time.Time
}

type undoEnt struct {
	r     *row
	pend  []Val
	dirty bool
	fresh bool // row created by this entry
}

type waitErr struct {
	on *Tx
}

func (w *waitErr) Error() string { return "wait" }

// Change is one row change of a committed transaction.
type Change struct {
	Table  string // schema.table
	RowID  int64
	Before map[string]any // nil: insert
	After  map[string]any // nil: delete
}

// Commit is one committed transaction with its changes in first-touch order.
type Commit struct {
	Seq     int64
	TxID    int64
	ConnID  int64
	App     string
	Changes []Change
}

// Engine is the database.
type Engine struct {
	mu       sync.Mutex
	cond     *sync.Cond
	schemas  map[string]bool
	tables   map[string]*table
	funcs    map[string]*function
	txSeq    int64
	rowSeq   int64
	comSeq   int64
	version  int64 // schema version
	sessSeq  int64
	sessions map[int64]*session
	plans    map[string]*stmtPlan
	plansVer int64
	rrActive int

	observers []func(*Commit)
	failMu    sync.Mutex
	failN     map[string]int
	failX     map[string][]string
	// Stats
	Statements int64
	Commits    int64
	Rollbacks  int64
	Waits      int64
	Deadlocks  int64
	Unsupported map[string]int
	hook       func(*StmtInfo) *Action
	stmtSeq    int64
	txWrites   int64
	Clock      func() time.Time
	closed     bool
}

// NewEngine makes an empty database.
func NewEngine() *Engine {
	e := &Engine{schemas: map[string]bool{"public": true}, tables: map[string]*table{}, funcs: map[string]*function{}, sessions: map[int64]*session{}, plans: map[string]*stmtPlan{}, Unsupported: map[string]int{}}
	e.cond = sync.NewCond(&e.mu)
	return e
}

// Observe registers a monitor called, under the engine's lock, at every commit that changed rows.
func (e *Engine) Observe(f func(*Commit)) {
	e.mu.Lock()
	e.observers = append(e.observers, f)
	e.mu.Unlock()
}

func (e *Engine) nowUTC() time.Time {
	t := time.Now()
	if e.Clock != nil {
		t = e.Clock()
	}
	return t.UTC().Round(time.Microsecond)
}

func (e *Engine) newTx(s *session) *Tx {
	e.txSeq++
	return &Tx{id: e.txSeq, sess: s, seen: map[*row]bool{}, start: e.nowUTC()}
}

func (e *Engine) lookup(schema, name string) *table {
	if schema != "" {
		return e.tables[schema+"."+name]
	}
	for _, s := range []string{"public", "blnk"} {
		// the service's connection string selects search_path public; unqualified names resolve there
		if t := e.tables[s+"."+name]; t != nil && s == "public" {
			return t
		}
	}
	return nil
}

// visible returns the version of r that tx sees, or nil.
func (e *Engine) visible(tx *Tx, r *row) []Val {
	if r.owner == tx && r.dirty {
		return r.pend
	}
	if tx.rr {
		if r.com != nil && r.since <= tx.snap {
			return r.com
		}
		for i := len(r.hist) - 1; i >= 0; i-- {
			h := r.hist[i]
			// hist entries: version valid until h.until; find the one valid at snap
			if tx.snap < h.until && (i == 0 || r.hist[i-1].until <= tx.snap) {
				return h.tup
			}
		}
		return nil
	}
	return r.com
}

func (t *table) addIdx(r *row, tup []Val) {
	for _, c := range t.hcols {
		k := keyOf(tup[c])
		m := t.hidx[c]
		l := m[k]
		found := false
		for _, x := range l {
			if x == r {
				found = true
				break
			}
		}
		if !found {
			m[k] = append(l, r)
		}
	}
	for _, u := range t.uniques {
		k, ok := u.key(tup)
		if !ok {
			continue
		}
		l := u.m[k]
		found := false
		for _, x := range l {
			if x == r {
				found = true
			}
		}
		if !found {
			u.m[k] = append(l, r)
		}
	}
}

func rmRow(m map[string][]*row, k string, r *row) {
	l := m[k]
	for i, x := range l {
		if x == r {
			n := append(append([]*row{}, l[:i]...), l[i+1:]...)
			if len(n) == 0 {
				delete(m, k)
			} else {
				m[k] = n
			}
			return
		}
	}
}

// dropIdx removes r's index entries for version tup that no surviving version shares.
func (t *table) dropIdx(r *row, tup []Val, keep ...[]Val) {
	for _, c := range t.hcols {
		k := keyOf(tup[c])
		used := false
		for _, kp := range keep {
			if kp != nil && keyOf(kp[c]) == k {
				used = true
			}
		}
		if !used {
			rmRow(t.hidx[c], k, r)
		}
	}
	for _, u := range t.uniques {
		k, ok := u.key(tup)
		if !ok {
			continue
		}
		used := false
		for _, kp := range keep {
			if kp != nil {
				if k2, ok := u.key(kp); ok && k2 == k {
					used = true
				}
			}
		}
		if !used {
			rmRow(u.m, k, r)
		}
	}
}

func (u *uniqueIdx) key(tup []Val) (string, bool) {
	if u.whereC != nil {
		v, err := u.whereC.f(nil, &env{tup: tup})
		if err != nil || v != true {
			return "", false
		}
	}
	var b strings.Builder
	if u.cols != nil {
		if len(u.cols) == 1 {
			v := tup[u.cols[0]]
			if v == nil {
				return "", false
			}
			return keyOf(v), true
		}
		for _, c := range u.cols {
			if tup[c] == nil {
				return "", false
			}
			k := keyOf(tup[c])
			fmt.Fprintf(&b, "%d:%s", len(k), k)
		}
		return b.String(), true
	}
	for _, x := range u.keys {
		v, err := x.f(nil, &env{tup: tup})
		if err != nil || v == nil {
			return "", false
		}
		k := keyOf(v)
		fmt.Fprintf(&b, "%d:%s", len(k), k)
	}
	return b.String(), true
}

func (t *table) rebuild() {
	t.hidx = map[int]map[string][]*row{}
	seen := map[int]bool{}
	t.hcols = nil
	add := func(c int) {
		if !seen[c] {
			seen[c] = true
			t.hcols = append(t.hcols, c)
			t.hidx[c] = map[string][]*row{}
		}
	}
	for n := range t.idx {
		if strings.HasSuffix(n, "_id") || n == "reference" || n == "source" || n == "destination" || n == "parent_transaction" || n == "indicator" || n == "id" || n == "key" || n == "status" {
			add(t.idx[n])
		}
	}
	for _, u := range t.uniques {
		u.m = map[string][]*row{}
	}
	sort.Ints(t.hcols)
	for _, r := range t.rows {
		if r.com != nil {
			t.addIdx(r, r.com)
		}
		if r.dirty && r.pend != nil {
			t.addIdx(r, r.pend)
		}
	}
}

// lockRow acquires the row lock for tx (or reports who holds it).
func (e *Engine) lockRow(tx *Tx, r *row) error {
	if r.owner != nil && r.owner != tx {
		return &waitErr{r.owner}
	}
	if tx.rr && r.owner == nil && r.since > tx.snap {
		return pgErr("40001", "could not serialize access due to concurrent update")
	}
	if r.owner == nil {
		r.owner = tx
		r.dirty = false
		r.pend = nil
	}
	if !tx.seen[r] {
		tx.seen[r] = true
		tx.touched = append(tx.touched, r)
	}
	return nil
}

func (e *Engine) setPend(tx *Tx, r *row, tup []Val) {
	tx.undo = append(tx.undo, undoEnt{r: r, pend: r.pend, dirty: r.dirty})
	old := r.pend
	wasDirty := r.dirty
	r.pend, r.dirty = tup, true
	if wasDirty && old != nil {
		r.t.dropIdx(r, old, r.com, tup)
	}
	if tup != nil {
		r.t.addIdx(r, tup)
	}
}

func (e *Engine) newRow(tx *Tx, t *table, tup []Val) *row {
	e.rowSeq++
	r := &row{id: e.rowSeq, t: t, owner: tx, pend: tup, dirty: true}
	t.rows = append(t.rows, r)
	t.addIdx(r, tup)
	tx.seen[r] = true
	tx.touched = append(tx.touched, r)
	tx.undo = append(tx.undo, undoEnt{r: r, fresh: true})
	return r
}

func (t *table) removeRow(r *row) {
	for i := len(t.rows) - 1; i >= 0; i-- {
		if t.rows[i] == r {
			t.rows = append(t.rows[:i], t.rows[i+1:]...)
			return
		}
	}
}

func (e *Engine) undoTo(tx *Tx, mark int) {
	for i := len(tx.undo) - 1; i >= mark; i-- {
		u := tx.undo[i]
		r := u.r
		if u.fresh {
			if r.pend != nil {
				r.t.dropIdx(r, r.pend)
			}
			r.owner, r.dirty, r.pend = nil, false, nil
			r.t.removeRow(r)
			delete(tx.seen, r)
			for j, x := range tx.touched {
				if x == r {
					tx.touched = append(tx.touched[:j], tx.touched[j+1:]...)
					break
				}
			}
			continue
		}
		if r.dirty && r.pend != nil {
			keep := [][]Val{r.com}
			if u.dirty {
				keep = append(keep, u.pend)
			}
			r.t.dropIdx(r, r.pend, keep...)
		}
		r.pend, r.dirty = u.pend, u.dirty
		if r.dirty && r.pend != nil {
			r.t.addIdx(r, r.pend)
		}
	}
	tx.undo = tx.undo[:mark]
}

func tupMap(t *table, tup []Val) map[string]any {
	if tup == nil {
		return nil
	}
	m := make(map[string]any, len(tup))
	for i, c := range t.cols {
		m[c.name] = export(tup[i], c.typ)
	}
	return m
}

func (e *Engine) finish(tx *Tx, commit bool) {
	if tx.done {
		return
	}
	if !commit {
		e.undoTo(tx, 0)
		if tx.cat != nil {
			e.restoreCatalog(tx.cat)
		}
		e.Rollbacks++
	}
	var ch []Change
	if commit {
		e.Commits++
		e.comSeq++
	}
	for _, r := range tx.touched {
		if r.owner != tx {
			continue
		}
		if commit && r.dirty {
			old := r.com
			if old != nil && r.pend != nil && sameTup(old, r.pend) {
				// UPDATE without change: still a new version
			}
			if len(e.observers) > 0 && (old != nil || r.pend != nil) {
				ch = append(ch, Change{Table: r.t.full(), RowID: r.id, Before: tupMap(r.t, old), After: tupMap(r.t, r.pend)})
			}
			if e.rrActive > 0 {
				r.hist = append(r.hist, histVer{e.comSeq, old})
			} else {
				r.hist = nil
			}
			if old != nil {
				r.t.dropIdx(r, old, r.pend)
			}
			r.com = r.pend
			r.since = e.comSeq
			if r.com == nil && e.rrActive == 0 {
				r.t.removeRow(r)
			}
		}
		r.owner, r.pend, r.dirty = nil, nil, false
	}
	tx.done = true
	if tx.rr && tx.snapSet {
		e.rrActive--
	}
	tx.undo, tx.touched, tx.seen = nil, nil, nil
	if commit && len(ch) > 0 {
		c := &Commit{Seq: e.comSeq, TxID: tx.id, Changes: ch}
		if tx.sess != nil {
			c.ConnID = tx.sess.id
			c.App = tx.sess.app
		}
		for _, o := range e.observers {
			o(c)
		}
	}
	e.cond.Broadcast()
}

func sameTup(a, b []Val) bool {
	for i := range a {
		if keyOf(a[i]) != keyOf(b[i]) {
			return false
		}
	}
	return true
}

func (e *Engine) wouldDeadlock(tx *Tx, on *Tx) bool {
	for h, n := on, 0; h != nil && n < 10000; h, n = h.waitFor, n+1 {
		if h == tx {
			return true
		}
	}
	return false
}

// uniqueConflict looks for a row other than self with the same key. Returns the conflicting row.
func (e *Engine) uniqueConflict(tx *Tx, u *uniqueIdx, tup []Val, self *row) (*row, error) {
	k, ok := u.key(tup)
	if !ok {
		return nil, nil
	}
	for _, r := range u.m[k] {
		if r == self {
			continue
		}
		has := func(v []Val) bool {
			if v == nil {
				return false
			}
			k2, ok := u.key(v)
			return ok && k2 == k
		}
		if r.owner == tx && r.dirty {
			if has(r.pend) {
				return r, nil
			}
			continue
		}
		if r.owner != nil && r.owner != tx && r.dirty {
			if has(r.com) || has(r.pend) {
				if has(r.com) && r.pend != nil && has(r.pend) {
					return r, nil // key not changed by the other transaction
				}
				return nil, &waitErr{r.owner}
			}
			continue
		}
		if has(r.com) {
			return r, nil
		}
	}
	return nil, nil
}

func (e *Engine) uniqueError(t *table, u *uniqueIdx, tup []Val) error {
	var cs, vs []string
	for _, c := range u.cols {
		cs = append(cs, t.cols[c].name)
		vs = append(vs, textOf(tup[c], t.cols[c].typ))
	}
	return &PgError{Code: "23505", Msg: fmt.Sprintf("duplicate key value violates unique constraint %q", u.name),
		Detail: fmt.Sprintf("Key (%s)=(%s) already exists.", strings.Join(cs, ", "), strings.Join(vs, ", ")), Schema: t.schema, Table: t.name, Constraint: u.name}
}

// checkRow evaluates not-null, check, and foreign key constraints on a new version.
func (e *Engine) checkRow(x *xctx, t *table, tup []Val, old []Val) error {
	for i, c := range t.cols {
		if c.notNull && tup[i] == nil {
			return &PgError{Code: "23502", Msg: fmt.Sprintf("null value in column %q of relation %q violates not-null constraint", c.name, t.name), Schema: t.schema, Table: t.name, Column: c.name}
		}
	}
	for _, k := range t.checks {
		v, err := k.c.f(x, &env{tup: tup})
		if err != nil {
			return err
		}
		if v == false {
			return &PgError{Code: "23514", Msg: fmt.Sprintf("new row for relation %q violates check constraint %q", t.name, k.name), Schema: t.schema, Table: t.name, Constraint: k.name}
		}
	}
	return nil
}

func (e *Engine) checkFKs(x *xctx, t *table, tup []Val, old []Val) error {
	for _, f := range t.fks {
		null := false
		same := old != nil
		for _, c := range f.cols {
			if tup[c] == nil {
				null = true
			}
			if same && keyOf(tup[c]) != keyOf(old[c]) {
				same = false
			}
		}
		if null || same {
			continue
		}
		found := false
		for _, r := range f.parent.candidates(f.refCols[0], tup[f.cols[0]]) {
			v := r.com
			if r.owner == x.tx && r.dirty {
				v = r.pend
			} else if r.owner != nil && r.dirty && r.pend == nil {
				return &waitErr{r.owner} // being deleted
			}
			if v == nil {
				continue
			}
			ok := true
			for i, c := range f.refCols {
				if keyOf(v[c]) != keyOf(tup[f.cols[i]]) {
					ok = false
				}
			}
			if ok {
				found = true
				break
			}
		}
		if !found {
			return &PgError{Code: "23503", Msg: fmt.Sprintf("insert or update on table %q violates foreign key constraint %q", t.name, f.name),
				Detail: fmt.Sprintf("Key (%s)=(%s) is not present in table %q.", strings.Join(f.colNames, ", "), textOf(tup[f.cols[0]], t.cols[f.cols[0]].typ), f.parent.name),
				Schema: t.schema, Table: t.name, Constraint: f.name}
		}
	}
	return nil
}

func (t *table) candidates(col int, v Val) []*row {
	if m, ok := t.hidx[col]; ok {
		l := m[keyOf(v)]
		if len(l) > 1 {
			l = append([]*row{}, l...)
			sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
		}
		return l
	}
	return t.rows
}

// fkOnParentDelete handles children of a deleted parent row.
func (e *Engine) fkOnParentDelete(x *xctx, t *table, old []Val) error {
	for _, f := range t.refBy {
		rows := append([]*row{}, f.child.candidates(f.cols[0], old[f.refCols[0]])...)
		for _, r := range rows {
			v := e.visible(x.tx, r)
			if r.owner != nil && r.owner != x.tx && r.dirty && r.com == nil {
				return &waitErr{r.owner}
			}
			if v == nil {
				continue
			}
			match := true
			for i, c := range f.cols {
				if v[c] == nil || keyOf(v[c]) != keyOf(old[f.refCols[i]]) {
					match = false
				}
			}
			if !match {
				continue
			}
			switch f.onDelete {
			case "cascade":
				if err := x.deleteRow(f.child, r, v); err != nil {
					return err
				}
			case "setnull":
				n := append([]Val{}, v...)
				for _, c := range f.cols {
					n[c] = nil
				}
				if err := x.updateRow(f.child, r, v, n); err != nil {
					return err
				}
			default:
				return &PgError{Code: "23503", Msg: fmt.Sprintf("update or delete on table %q violates foreign key constraint %q on table %q", t.name, f.name, f.child.name), Schema: f.child.schema, Table: f.child.name, Constraint: f.name}
			}
		}
	}
	return nil
}

var errCancelled = pgErr("57014", "canceling statement due to user request")

func isWait(err error) (*waitErr, bool) {
	var w *waitErr
	ok := errors.As(err, &w)
	return w, ok
}
