package rig

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/blnkfinance/blnk/internal/verifx/pgfake"
	"github.com/shopspring/decimal"
)

// Audit is the online monitor: it sees every database commit, keeps its own model of the ledger and compares.
type Audit struct {
	mu   sync.Mutex
	r    *Rig
	Txns map[string]*Row // by transaction id
	Ord  []*Row
	Bals map[string]*Bal
	Kids map[string][]*Row
	Refs map[string][]*Row
	Log  []Finding
	// Overdraft tells what a debit may do: unlimited, or down to -limit (nil: zero). Unset: nothing checked.
	Overdraft func(t *Row) (unlimited bool, limit *big.Int)
	// Watch sees each commit after the model was brought up to date.
	Watch   func(*pgfake.Commit)
	Commits int64
	Posts   int64
	// Tail keeps the last commits, described, for traces.
	tail []string
	said [2]int64
}

// Row is one recorded transaction.
type Row struct {
	ID, Parent, Src, Dst, Ref, Cur, Status, Desc, Hash string
	Amt                                              *big.Int
	Meta                                             map[string]any
	Seq                                              int64
	App                                              string
	Raw                                              map[string]any
	Effect                                           string // none, post, hold, commit, void
}

// Bal is one balance as the model has it.
type Bal struct {
	ID, Cur, Indicator, Ledger string
	C, D, IC, ID_              *big.Int // settled credit, debit; inflight credit, debit
	Raw                        map[string]any
	N                          int64
}

// Finding is one monitor report.
type Finding struct {
	Class  string // doubleentry, fold, inflight, reference, overdraft, immutable, version
	Key    string
	Detail string
	Trace  []string
}

// BI converts an exported database value to an integer.
func BI(v any) *big.Int {
	switch x := v.(type) {
	case nil:
		return new(big.Int)
	case int64:
		return big.NewInt(x)
	case int:
		return big.NewInt(int64(x))
	case decimal.Decimal:
		return x.BigInt()
	case string:
		d, err := decimal.NewFromString(x)
		if err == nil {
			return d.BigInt()
		}
	}
	return new(big.Int)
}

// Str converts an exported database value to a string.
func Str(v any) string {
	switch x := v.(type) {
	case nil:
		return ""
	case string:
		return x
	case time.Time:
		return x.UTC().Format(time.RFC3339Nano)
	}
	return fmt.Sprint(v)
}

// NewAudit attaches a monitor to the rig's database.
func NewAudit(r *Rig) *Audit {
	a := &Audit{r: r, Txns: map[string]*Row{}, Bals: map[string]*Bal{}, Kids: map[string][]*Row{}, Refs: map[string][]*Row{}}
	r.Eng.Observe(a.commit)
	return a
}

func (a *Audit) report(class, key, f string, x ...any) {
	if len(a.Log) > 300 {
		return
	}
	t := a.tail
	if len(t) > 12 {
		t = t[len(t)-12:]
	}
	a.Log = append(a.Log, Finding{class, key, fmt.Sprintf(f, x...), append([]string{}, t...)})
}

func newRow(m map[string]any) *Row {
	t := &Row{ID: Str(m["transaction_id"]), Parent: Str(m["parent_transaction"]), Src: Str(m["source"]), Dst: Str(m["destination"]), Ref: Str(m["reference"]), Cur: Str(m["currency"]), Status: Str(m["status"]), Desc: Str(m["description"]), Hash: Str(m["hash"]), Amt: BI(m["precise_amount"]), Raw: m}
	t.Meta, _ = m["meta_data"].(map[string]any)
	return t
}

func (b *Bal) key() string { return b.ID }

func (a *Audit) bal(id string) *Bal {
	b := a.Bals[id]
	if b == nil {
		b = &Bal{ID: id, C: new(big.Int), D: new(big.Int), IC: new(big.Int), ID_: new(big.Int)}
		a.Bals[id] = b
	}
	return b
}

// fold applies one recorded transaction to the model, the independent statement of what each record means.
func (a *Audit) fold(t *Row) {
	p := a.Txns[t.Parent]
	switch t.Status {
	case "QUEUED", "REJECTED", "SCHEDULED":
		t.Effect = "none"
		return
	case "INFLIGHT":
		t.Effect = "hold"
		a.bal(t.Src).ID_.Add(a.bal(t.Src).ID_, t.Amt)
		a.bal(t.Dst).IC.Add(a.bal(t.Dst).IC, t.Amt)
	case "VOID":
		t.Effect = "void"
		a.bal(t.Src).ID_.Sub(a.bal(t.Src).ID_, t.Amt)
		a.bal(t.Dst).IC.Sub(a.bal(t.Dst).IC, t.Amt)
	case "APPLIED":
		t.Effect = "post"
		if p != nil && p.Status == "INFLIGHT" && p.Src == t.Src && p.Dst == t.Dst {
			t.Effect = "commit"
			a.bal(t.Src).ID_.Sub(a.bal(t.Src).ID_, t.Amt)
			a.bal(t.Dst).IC.Sub(a.bal(t.Dst).IC, t.Amt)
		}
		a.bal(t.Src).D.Add(a.bal(t.Src).D, t.Amt)
		a.bal(t.Dst).C.Add(a.bal(t.Dst).C, t.Amt)
	default:
		a.report("doubleentry", "status", "transaction %s recorded with status %q", t.ID, t.Status)
		return
	}
	a.Posts++
	if t.Amt.Sign() <= 0 {
		a.report("doubleentry", "nonpositive", "transaction %s %s recorded with amount %s", t.ID, t.Status, t.Amt)
	}
	if t.Effect == "commit" || t.Effect == "void" {
		a.settle(p, t)
	}
}

func (a *Audit) settle(p, t *Row) {
	if p == nil {
		a.report("inflight", "orphan", "%s %s (%s) has no recorded parent %q", t.Effect, t.ID, t.Amt, t.Parent)
		return
	}
	if p.Status != "INFLIGHT" {
		a.report("inflight", "parent", "%s %s settles %s whose status is %s", t.Effect, t.ID, p.ID, p.Status)
		return
	}
	if p.Src != t.Src || p.Dst != t.Dst || p.Cur != t.Cur {
		a.report("inflight", "parties", "%s %s has other parties or currency than its hold %s", t.Effect, t.ID, p.ID)
	}
	done := new(big.Int)
	voids := 0
	for _, k := range a.Kids[p.ID] {
		if k.Effect == "commit" || k.Effect == "void" || k == t {
			done.Add(done, k.Amt)
		}
		if k.Effect == "void" && k != t {
			voids++
		}
	}
	if voids > 0 {
		a.report("inflight", "after-void", "%s %s of %s after it was voided", t.Effect, t.ID, p.ID)
	}
	switch done.Cmp(p.Amt) {
	case 1:
		a.report("inflight", "over", "hold %s of %s has %s committed or voided after %s %s", p.ID, p.Amt, done, t.Effect, t.ID)
	case -1:
		if t.Effect == "void" {
			a.report("inflight", "short-void", "void %s of hold %s leaves %s of %s neither committed nor released", t.ID, p.ID, new(big.Int).Sub(p.Amt, done), p.Amt)
		}
	}
}

var frozen = []string{"transaction_id", "source", "destination", "reference", "amount", "precise_amount", "precision", "currency", "status", "hash", "created_at", "description", "scheduled_for"}

func same(x, y any) bool {
	dx, ok1 := x.(decimal.Decimal)
	dy, ok2 := y.(decimal.Decimal)
	if ok1 && ok2 {
		return dx.Equal(dy)
	}
	tx, ok1 := x.(time.Time)
	ty, ok2 := y.(time.Time)
	if ok1 && ok2 {
		return tx.Equal(ty)
	}
	return fmt.Sprint(x) == fmt.Sprint(y)
}

func (a *Audit) commit(c *pgfake.Commit) {
	a.mu.Lock()
	defer a.mu.Unlock()
	if c.App == "harness" { // the harness ages rows; the service's own commits are never skipped
		return
	}
	var ins []*Row
	var touched []string
	var desc []string
	money := false
	for i := range c.Changes {
		ch := &c.Changes[i]
		switch ch.Table {
		case "blnk.transactions":
			switch {
			case ch.Before == nil && ch.After != nil:
				t := newRow(ch.After)
				t.Seq, t.App = c.Seq, c.App
				ins = append(ins, t)
				desc = append(desc, fmt.Sprintf("txn %s %s %s %s->%s ref=%s parent=%s", short(t.ID), t.Status, t.Amt, short(t.Src), short(t.Dst), t.Ref, short(t.Parent)))
			case ch.After == nil:
				a.report("immutable", "delete", "transaction %s was deleted by %s", Str(ch.Before["transaction_id"]), c.App)
			default:
				for _, f := range frozen {
					if !same(ch.Before[f], ch.After[f]) {
						a.report("immutable", "column:"+f, "transaction %s: %s changed from %v to %v by %s", Str(ch.Before["transaction_id"]), f, ch.Before[f], ch.After[f], c.App)
					}
				}
				if t := a.Txns[Str(ch.After["transaction_id"])]; t != nil {
					t.Raw = ch.After
					t.Meta, _ = ch.After["meta_data"].(map[string]any)
				}
			}
		case "blnk.balances":
			id := ""
			if ch.After != nil {
				id = Str(ch.After["balance_id"])
			}
			switch {
			case ch.After == nil:
				a.report("doubleentry", "balance-deleted", "balance %s was deleted by %s", Str(ch.Before["balance_id"]), c.App)
			case ch.Before == nil:
				b := a.bal(id)
				b.Cur, b.Indicator, b.Ledger = Str(ch.After["currency"]), Str(ch.After["indicator"]), Str(ch.After["ledger_id"])
				b.Raw = ch.After
				touched = append(touched, id)
			default:
				b := a.bal(id)
				if !same(ch.Before["currency"], ch.After["currency"]) {
					a.report("doubleentry", "currency", "balance %s changed its currency from %v to %v", id, ch.Before["currency"], ch.After["currency"])
				}
				if b.Raw != nil {
					for _, f := range []string{"balance", "credit_balance", "debit_balance", "inflight_balance", "inflight_credit_balance", "inflight_debit_balance"} {
						if !same(ch.Before[f], ch.After[f]) {
							money = true
							v0, v1 := BI(ch.Before["version"]), BI(ch.After["version"])
							if v1.Cmp(v0) <= 0 {
								a.report("version", "stale", "balance %s: %s went from %v to %v while version went from %s to %s", id, f, ch.Before[f], ch.After[f], v0, v1)
							}
							break
						}
					}
				}
				b.Raw = ch.After
				touched = append(touched, id)
			}
		case "blnk.transaction_journal", "blnk.balance_snapshots":
			if ch.Before != nil {
				a.report("immutable", ch.Table, "%s row %v was altered by %s", ch.Table, ch.Before, c.App)
			}
		}
	}
	a.Commits++
	if len(ins) == 0 && len(touched) == 0 {
		if a.Watch != nil {
			a.Watch(c)
		}
		return
	}
	_ = money
	desc = append(desc, fmt.Sprintf("%d balance rows", len(touched)))
	a.tail = append(a.tail, fmt.Sprintf("#%d %s: %s", c.Seq, c.App, strings.Join(desc, "; ")))
	if len(a.tail) > 60 {
		a.tail = a.tail[30:]
	}
	moved := map[string]bool{}
	for _, id := range touched {
		moved[id] = true
	}
	for _, t := range ins {
		if a.Txns[t.ID] != nil {
			a.report("reference", "same-id", "transaction id %s recorded twice", t.ID)
		}
		a.Txns[t.ID] = t
		a.Ord = append(a.Ord, t)
		if t.Parent != "" {
			a.Kids[t.Parent] = append(a.Kids[t.Parent], t)
		}
		a.Refs[t.Ref] = append(a.Refs[t.Ref], t)
		if n := len(a.Refs[t.Ref]); n > 1 && t.Ref != "" {
			a.report("reference", "twice", "reference %q recorded %d times (%s)", t.Ref, n, t.ID)
		}
		a.fold(t)
		// funds are checked in recording order: a later row of the same commit may be allowed to overdraw
		if b := a.Bals[t.Src]; a.Overdraft != nil && b != nil && (t.Effect == "post" || t.Effect == "hold") {
			if free, lim := a.Overdraft(t); !free {
				av := new(big.Int).Sub(new(big.Int).Sub(b.C, b.D), b.ID_)
				if lim != nil {
					av.Add(av, lim)
				}
				if av.Sign() < 0 {
					a.report("overdraft", "overdrawn", "%s %s of %s (ref %s) left its source %s with credit %s, debit %s, held %s; limit %v", t.Effect, t.ID, t.Amt, t.Ref, b.ID, b.C, b.D, b.ID_, lim)
				}
			}
		}
		if t.Effect != "none" {
			moved[t.Src], moved[t.Dst] = true, true
		}
	}
	ids := make([]string, 0, len(moved))
	for id := range moved {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		a.compare(id, c, ins)
	}
	for _, t := range ins {
		if t.Effect == "post" || t.Effect == "hold" {
			b := a.Bals[t.Src]
			db := a.Bals[t.Dst]
			for _, x := range []*Bal{b, db} {
				if x != nil && x.Raw != nil && x.Cur != t.Cur {
					a.report("doubleentry", "currency-mix", "transaction %s in %s moved balance %s kept in %s", t.ID, t.Cur, x.ID, x.Cur)
				}
			}
		}
	}
	// per-currency sums over the stored rows
	if len(touched) > 0 {
		sum := map[string]*[3]big.Int{}
		for _, b := range a.Bals {
			if b.Raw == nil {
				continue
			}
			s := sum[b.Cur]
			if s == nil {
				s = &[3]big.Int{}
				sum[b.Cur] = s
			}
			s[0].Add(&s[0], BI(b.Raw["balance"]))
			s[1].Add(&s[1], BI(b.Raw["inflight_balance"]))
			s[2].Add(&s[2], BI(b.Raw["credit_balance"]))
			s[2].Sub(&s[2], BI(b.Raw["debit_balance"]))
		}
		for cur, s := range sum {
			if s[0].Sign() != 0 || s[1].Sign() != 0 || s[2].Sign() != 0 {
				a.report("doubleentry", "sum", "after commit %d by %s the %s balances sum to %s (inflight %s, credits less debits %s): %s", c.Seq, c.App, cur, &s[0], &s[1], &s[2], strings.Join(desc, "; "))
			}
		}
	}
	if a.Watch != nil {
		a.Watch(c)
	}
}

func short(s string) string {
	if len(s) > 14 {
		return s[:14]
	}
	return s
}

func (a *Audit) compare(id string, c *pgfake.Commit, ins []*Row) {
	b := a.Bals[id]
	if b == nil || b.Raw == nil {
		a.report("doubleentry", "missing-balance", "commit %d moved balance %s that is not recorded", c.Seq, id)
		return
	}
	b.N++
	bad := false
	chk := func(class, f string, want *big.Int) {
		if got := BI(b.Raw[f]); got.Cmp(want) != 0 {
			bad = true
			a.report(class, f, "after commit %d by %s balance %s (%s) stores %s=%s, its history makes it %s", c.Seq, c.App, id, b.Indicator, f, got, want)
		}
	}
	if d, ok := b.Raw["balance"].(decimal.Decimal); ok && !d.IsInteger() {
		a.report("doubleentry", "fraction", "balance %s stores %s", id, d)
	}
	got := func(f string) *big.Int { return BI(b.Raw[f]) }
	if new(big.Int).Sub(got("credit_balance"), got("debit_balance")).Cmp(got("balance")) != 0 {
		a.report("doubleentry", "difference", "after commit %d by %s balance %s stores balance=%s credit=%s debit=%s", c.Seq, c.App, id, got("balance"), got("credit_balance"), got("debit_balance"))
	}
	if new(big.Int).Sub(got("inflight_credit_balance"), got("inflight_debit_balance")).Cmp(got("inflight_balance")) != 0 {
		a.report("doubleentry", "inflight-difference", "after commit %d by %s balance %s stores inflight=%s inflight credit=%s inflight debit=%s", c.Seq, c.App, id, got("inflight_balance"), got("inflight_credit_balance"), got("inflight_debit_balance"))
	}
	chk("fold", "credit_balance", b.C)
	chk("fold", "debit_balance", b.D)
	chk("fold", "inflight_credit_balance", b.IC)
	chk("fold", "inflight_debit_balance", b.ID_)
	if bad {
		// carry on from what is stored so that one fault is reported once
		b.C, b.D, b.IC, b.ID_ = got("credit_balance"), got("debit_balance"), got("inflight_credit_balance"), got("inflight_debit_balance")
	}
}

// With runs f under the monitor's lock.
func (a *Audit) With(f func()) {
	a.mu.Lock()
	defer a.mu.Unlock()
	f()
}

// Findings of the given classes (all when none given).
func (a *Audit) Findings(classes ...string) []Finding {
	a.mu.Lock()
	defer a.mu.Unlock()
	var out []Finding
	for _, f := range a.Log {
		ok := len(classes) == 0
		for _, c := range classes {
			ok = ok || c == f.Class
		}
		if ok {
			out = append(out, f)
		}
	}
	return out
}

// Txn returns the model's record of a transaction.
func (a *Audit) Txn(id string) *Row {
	a.mu.Lock()
	defer a.mu.Unlock()
	return a.Txns[id]
}

// ByRef returns the records under a reference.
func (a *Audit) ByRef(ref string) []*Row {
	a.mu.Lock()
	defer a.mu.Unlock()
	return append([]*Row{}, a.Refs[ref]...)
}

// Children returns the recorded children of a transaction.
func (a *Audit) Children(id string) []*Row {
	a.mu.Lock()
	defer a.mu.Unlock()
	return append([]*Row{}, a.Kids[id]...)
}

// Stored returns a copy of a balance as stored: settled credit, debit and inflight credit, debit.
func (a *Audit) Stored(id string) (c, d, ic, id_ *big.Int) {
	a.mu.Lock()
	defer a.mu.Unlock()
	b := a.Bals[id]
	if b == nil || b.Raw == nil {
		return new(big.Int), new(big.Int), new(big.Int), new(big.Int)
	}
	return BI(b.Raw["credit_balance"]), BI(b.Raw["debit_balance"]), BI(b.Raw["inflight_credit_balance"]), BI(b.Raw["inflight_debit_balance"])
}

// Net is the stored settled balance.
func (a *Audit) Net(id string) *big.Int {
	c, d, _, _ := a.Stored(id)
	return c.Sub(c, d)
}

// ByIndicator finds a balance by its @indicator and currency.
func (a *Audit) ByIndicator(ind, cur string) string {
	a.mu.Lock()
	defer a.mu.Unlock()
	for id, b := range a.Bals {
		if b.Indicator == ind && b.Cur == cur && b.Raw != nil {
			return id
		}
	}
	return ""
}

// Snapshot of every balance's stored money, for before/after comparison.
func (a *Audit) Snapshot() map[string]string {
	a.mu.Lock()
	defer a.mu.Unlock()
	m := map[string]string{}
	for id, b := range a.Bals {
		if b.Raw != nil {
			m[id] = fmt.Sprintf("%s/%s/%s/%s", BI(b.Raw["credit_balance"]), BI(b.Raw["debit_balance"]), BI(b.Raw["inflight_credit_balance"]), BI(b.Raw["inflight_debit_balance"]))
		}
	}
	return m
}

// Diff lists the balances whose money differs between two snapshots (a missing one counts as zero).
func Diff(x, y map[string]string) []string {
	const z = "0/0/0/0"
	var out []string
	seen := map[string]bool{}
	for _, m := range []map[string]string{x, y} {
		for id := range m {
			if seen[id] {
				continue
			}
			seen[id] = true
			p, q := x[id], y[id]
			if p == "" {
				p = z
			}
			if q == "" {
				q = z
			}
			if p != q {
				out = append(out, id+": "+p+" -> "+q)
			}
		}
	}
	sort.Strings(out)
	return out
}

// Settle moves the monitor's findings of the given classes into the check as violations.
func (a *Audit) Settle(tag string, classes ...string) int {
	fs := a.Findings(classes...)
	for _, f := range fs {
		a.r.C.Violate(f.Class+"/"+f.Key, "["+tag+"] "+f.Detail, f.Trace)
	}
	a.mu.Lock()
	a.r.C.Add("commits_checked", a.Commits-a.said[0])
	a.r.C.Add("postings_folded", a.Posts-a.said[1])
	a.said = [2]int64{a.Commits, a.Posts}
	a.mu.Unlock()
	return len(fs)
}
