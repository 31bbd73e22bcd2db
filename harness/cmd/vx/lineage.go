package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/blnkfinance/blnk/internal/verifx/pgfake"
	"github.com/blnkfinance/blnk/internal/verifx/rig"
)

func init() {
	checks["P20"] = func(c *rig.Check) { lineage(c, false) }
	checks["P21"] = func(c *rig.Check) { lineage(c, true) }
}

const providerKey = "BLNK_LINEAGE_PROVIDER"

// lbal is a balance of the workload.
type lbal struct {
	id, ident, cur, strat string
	tracked               bool
}

type lmap struct {
	provider, shadow string
}

// ltask is the lineage of one posting.
type ltask struct {
	t                  *rig.Row
	prov               string
	src, dst           *lbal
	status             string
	attempts           int
	avail              map[string]*big.Int // what each mapped provider of the source had left
	maps               []lmap
	srcKnew            bool // the source had this provider when the work began
	rows               []*rig.Row
	judged             bool
	doneAt             int64
	commits, voids     *big.Int
	raced, interrupted bool
	errs               []string
	blocked            int // attempts that failed while a credit of its source lay with a dead worker
	row                int64
}

// lin is the monitor of one world.
type lin struct {
	w        *rig.World
	c        *rig.Check
	tag      string
	exact    bool
	p21      bool
	kills    bool
	dead     map[string]bool
	bals     map[string]*lbal
	byCur    map[string][]*lbal
	seen     int
	tasks    map[string]*ltask
	order    []*ltask
	maps     map[string][]lmap
	posted   map[string][2]*big.Int // shadow: debit, credit
	held     map[string]*big.Int    // shadow: releases held
	shadowOf map[string]string      // identity/provider/currency -> shadow
	ownerOf  map[string]string
	claimed  map[int64]time.Time
	holders  map[int64]string
	events   int64
	faulting atomic.Bool
	problems []string
	off      *atomic.Int64
}

func (l *lin) bad(key, f string, x ...any) { // called inside the audit lock
	if len(l.problems) < 40 {
		l.problems = append(l.problems, key+"\x00"+fmt.Sprintf(f, x...))
	}
}

func (l *lin) flush() {
	var ps []string
	l.w.R.Audit.With(func() { ps, l.problems = l.problems, nil })
	for _, p := range ps {
		k, d, _ := strings.Cut(p, "\x00")
		if l.p21 && (k == "transfer-named-provider" || k == "partial-commit") {
			continue // how much is drawn is P20's business
		}
		l.c.Violate(k, "["+l.tag+"] "+d, nil)
	}
}

func (l *lin) post(sh string) [2]*big.Int {
	p, ok := l.posted[sh]
	if !ok {
		p = [2]*big.Int{new(big.Int), new(big.Int)}
		l.posted[sh] = p
	}
	return p
}

func (l *lin) left(sh string) *big.Int {
	p := l.post(sh)
	return new(big.Int).Sub(p[0], p[1])
}

// free is what a provider has left that no hold has taken already.
func (l *lin) free(sh string) *big.Int {
	return new(big.Int).Sub(l.left(sh), orZero(l.held[sh]))
}

func metaStr(t *rig.Row, k string) string { s, _ := t.Meta[k].(string); return s }

// watch follows every commit. It runs under the audit's lock.
func (l *lin) watch(k *pgfake.Commit) {
	if k.App == "harness" {
		return
	}
	rows := l.w.R.Audit.Ord[l.seen:]
	l.seen = len(l.w.R.Audit.Ord)
	out := map[string]int{}
	for _, ch := range k.Changes {
		if ch.Table == "blnk.lineage_outbox" && ch.Before == nil {
			out[rig.Str(ch.After["transaction_id"])]++
		}
	}
	for _, t := range rows {
		typ := metaStr(t, "_lineage_type")
		l.events++
		if typ != "" {
			l.shadowRow(typ, t)
			continue
		}
		src, dst := l.bals[t.Src], l.bals[t.Dst]
		prov := metaStr(t, providerKey)
		need := (t.Effect == "post" || t.Effect == "hold") && t.Amt.Sign() > 0 &&
			(src != nil && src.tracked || prov != "" && dst != nil && dst.tracked)
		n := out[t.ID]
		delete(out, t.ID)
		if need && n != 1 {
			l.bad("task-missing/"+t.Effect, "posting %s (%s %s, parent %q, %s -> %s, provider %q) was written with %d lineage tasks", t.ID, t.Status, t.Ref, t.Parent, t.Src, t.Dst, prov, n)
		}
		if !need && n != 0 {
			l.bad("task-extra/"+t.Effect, "row %s (%s, %s, parent %q, %s -> %s, provider %q) needs no lineage and was written with %d tasks", t.ID, t.Status, t.Effect, t.Parent, t.Src, t.Dst, prov, n)
		}
		if n > 0 {
			x := &ltask{t: t, prov: prov, src: src, dst: dst, status: "pending", commits: new(big.Int), voids: new(big.Int)}
			l.tasks[t.ID] = x
			l.order = append(l.order, x)
		}
		if p := l.tasks[t.Parent]; p != nil && p.t.Effect == "hold" {
			switch t.Effect {
			case "commit":
				p.commits.Add(p.commits, t.Amt)
			case "void":
				p.voids.Add(p.voids, t.Amt)
			}
		}
	}
	for id, n := range out {
		if !strings.Contains(id, "_shadow_") {
			l.bad("task-alone", "%d lineage tasks were written for %s without its posting", n, id)
		}
	}
	for _, ch := range k.Changes {
		switch ch.Table {
		case "blnk.lineage_outbox":
			l.outbox(k, ch)
		case "blnk.lineage_mappings":
			if ch.Before == nil {
				b := rig.Str(ch.After["balance_id"])
				l.maps[b] = append(l.maps[b], lmap{rig.Str(ch.After["provider"]), rig.Str(ch.After["shadow_balance_id"])})
			}
		}
	}
}

func (l *lin) begin(x *ltask) {
	if x.avail != nil {
		return
	}
	x.avail = map[string]*big.Int{}
	if x.src != nil {
		x.maps = append([]lmap{}, l.maps[x.src.id]...)
		for _, m := range x.maps {
			x.avail[m.shadow] = l.free(m.shadow)
			x.srcKnew = x.srcKnew || m.provider == x.prov
		}
	}
}

func (l *lin) shadowRow(typ string, t *rig.Row) {
	x := l.tasks[metaStr(t, "_shadow_for")]
	prov := metaStr(t, "_provider")
	sh := t.Src
	if typ == "release" {
		sh = t.Dst
	}
	if typ == "release" && x != nil && (t.Effect == "post" || t.Effect == "hold") {
		l.begin(x) // before this release counts
	}
	p := l.post(sh)
	h := l.held[sh]
	if h == nil {
		h = new(big.Int)
		l.held[sh] = h
	}
	switch t.Effect {
	case "post", "commit":
		i := 0
		if typ == "release" {
			i = 1
			if t.Effect == "commit" {
				h.Sub(h, t.Amt)
			}
		}
		p[i].Add(p[i], t.Amt)
	case "hold":
		if typ == "release" {
			h.Add(h, t.Amt)
		}
	case "void":
		if typ == "release" {
			h.Sub(h, t.Amt)
		}
	}
	if left := l.free(sh); left.Sign() < 0 {
		l.bad("overdrawn", "after %s (%s %s of %s) provider %s of shadow %s has %s left that no hold has taken", t.ID, typ, t.Status, t.Amt, prov, sh, left)
	}
	if t.Effect != "post" && t.Effect != "hold" {
		return
	}
	if x == nil {
		l.bad("stray", "lineage row %s (%s) is for %q, which has no task", t.ID, typ, metaStr(t, "_shadow_for"))
		return
	}
	x.rows = append(x.rows, t)
	if (t.Effect == "hold") != (x.t.Effect == "hold") {
		l.bad("hold-differs", "lineage row %s (%s) is %s while its posting %s is %s", t.ID, typ, t.Status, x.t.ID, x.t.Status)
	}
	own := x.dst
	if typ == "release" {
		own = x.src
	}
	if own == nil || !own.tracked {
		l.bad("owner", "lineage row %s (%s) is for a balance that tracks nothing", t.ID, typ)
		return
	}
	k := own.ident + "/" + prov + "/" + own.cur
	if was := l.shadowOf[k]; was != "" && was != sh {
		l.bad("shadow-moved", "provider %s of identity %s in %s is kept in %s and in %s", prov, own.ident, own.cur, was, sh)
	}
	if was := l.ownerOf[sh]; was != "" && was != k {
		l.bad("shadow-shared", "shadow %s keeps both %s and %s", sh, was, k)
	}
	l.shadowOf[k], l.ownerOf[sh] = sh, k
	if t.Cur != own.cur {
		l.bad("currency", "lineage row %s is in %s, its balance in %s", t.ID, t.Cur, own.cur)
	}
}

func (l *lin) outbox(k *pgfake.Commit, ch pgfake.Change) {
	if ch.After == nil {
		l.bad("task-deleted", "a lineage task for %v was deleted", ch.Before["transaction_id"])
		return
	}
	st := rig.Str(ch.After["status"])
	x := l.tasks[rig.Str(ch.After["transaction_id"])]
	att := int(rig.BI(ch.After["attempts"]).Int64())
	max := int(rig.BI(ch.After["max_attempts"]).Int64())
	if att > max {
		l.bad("attempts", "the task for %v was attempted %d times, at most %d were allowed", ch.After["transaction_id"], att, max)
	}
	if st == "failed" && att < max {
		l.bad("gave-up", "the task for %v failed after %d of %d attempts", ch.After["transaction_id"], att, max)
	}
	if ch.Before != nil {
		was := rig.Str(ch.Before["status"])
		if was == "completed" || was == "failed" {
			l.bad("reopened", "the task for %v went from %s to %s", ch.After["transaction_id"], was, st)
		}
		now := time.Now().Add(time.Duration(l.off.Load()))
		if st == "processing" {
			if until, held := l.claimed[ch.RowID]; held && was == "processing" && now.Before(until) {
				l.bad("claimed-twice", "the task for %v was claimed by %s while %s held it until %s", ch.After["transaction_id"], k.App, l.holders[ch.RowID], until)
			}
			if was == "processing" && x != nil {
				x.interrupted = true
			}
			l.claimed[ch.RowID] = now.Add(25 * time.Second)
			l.holders[ch.RowID] = k.App
		} else {
			if by := l.holders[ch.RowID]; by != k.App && was == "processing" && l.exact {
				l.bad("finished-by-other", "the task for %v was claimed by %s and marked %s by %s", ch.After["transaction_id"], by, st, k.App)
			}
			delete(l.claimed, ch.RowID)
			delete(l.holders, ch.RowID)
		}
	}
	if x != nil {
		x.row = ch.RowID
		if st == "completed" {
			l.begin(x)
		}
		if att > x.attempts {
			x.errs = append(x.errs, rig.Str(ch.After["last_error"]))
			for _, y := range l.order { // a credit of its source is not done yet
				if y != x && x.src != nil && y.dst == x.src && y.prov != "" && y.status == "processing" && l.dead[l.holders[y.row]] {
					x.blocked++
					break
				}
			}
		}
		x.status, x.attempts = st, att
		x.doneAt = l.events
	}
}

// open counts the tasks that are not done.
func (l *lin) open() int {
	n := 0
	l.w.R.Audit.With(func() {
		for _, x := range l.order {
			if x.status == "pending" || x.status == "processing" {
				n++
			}
		}
	})
	return n
}

// calm waits until all lineage work is done.
func (l *lin) calm(d time.Duration) bool {
	if len(l.w.W) > 0 {
		if err := l.w.R.Drain(d, false); err != nil {
			l.c.Broken("[%s] %v", l.tag, err)
			return false
		}
	}
	if !rig.Eventually(d, func() bool { return l.open() == 0 && l.w.R.Eng.Idle() }) {
		l.w.R.Audit.With(func() {
			for _, x := range l.order {
				if x.status == "pending" || x.status == "processing" {
					l.bad("stuck", "the lineage task of %s is still %s after %s, attempts %d", x.t.ID, x.status, d, x.attempts)
					break
				}
			}
		})
		l.flush()
		return false
	}
	return true
}

// allocate is the specification of each strategy.
func allocate(strat string, maps []lmap, avail map[string]*big.Int, amount *big.Int) (want map[string]*big.Int, total *big.Int) {
	want, total = map[string]*big.Int{}, new(big.Int)
	sum := new(big.Int)
	var ms []lmap
	for _, m := range maps {
		if avail[m.shadow].Sign() > 0 {
			ms = append(ms, m)
			sum.Add(sum, avail[m.shadow])
		}
	}
	total.Set(amount)
	if total.Cmp(sum) > 0 {
		total.Set(sum)
	}
	if strat == "PROPORTIONAL" {
		for _, m := range ms { // to within a unit for each provider
			q := new(big.Int).Mul(total, avail[m.shadow])
			want[m.shadow] = q.Div(q, sum)
		}
		return
	}
	if strat == "LIFO" {
		for i, j := 0, len(ms)-1; i < j; i, j = i+1, j-1 {
			ms[i], ms[j] = ms[j], ms[i]
		}
	}
	rest := new(big.Int).Set(total)
	for _, m := range ms {
		q := new(big.Int).Set(avail[m.shadow])
		if q.Cmp(rest) > 0 {
			q.Set(rest)
		}
		want[m.shadow] = q
		rest.Sub(rest, q)
	}
	return
}

// judge checks the tasks that are done.
func (l *lin) judge() {
	l.w.R.Audit.With(func() {
		for _, x := range l.order {
			if x.judged || x.status == "pending" || x.status == "processing" {
				continue
			}
			x.judged = true
			l.judgeOne(x)
		}
	})
	l.flush()
}

func (l *lin) judgeOne(x *ltask) {
	if x.status == "failed" {
		key := "failed"
		if l.kills && len(x.rows) == 0 && x.blocked == x.attempts {
			key = "starved-behind-dead-worker"
		}
		l.bad(key, "the lineage task of %s (%s, %s -> %s, provider %q) was given up after %d attempts (%s); it recorded %s", x.t.ID, x.t.Status, x.t.Src, x.t.Dst, x.prov, x.attempts, strings.Join(x.errs, "; "), effText(x.rows))
		return
	}
	sum := map[string]*big.Int{}
	by := map[string]map[string]*big.Int{"credit": {}, "release": {}, "receive": {}}
	for _, t := range x.rows {
		typ := metaStr(t, "_lineage_type")
		sum[typ] = addb(sum[typ], t.Amt)
		k := metaStr(t, "_provider")
		if typ == "release" {
			k = t.Dst
		}
		if by[typ][k] != nil {
			l.bad("repeated/"+typ, "posting %s has two %s rows for %s", x.t.ID, typ, k)
		}
		by[typ][k] = addb(by[typ][k], t.Amt)
	}
	get := func(k string) *big.Int { return addb(nil, orZero(sum[k])) }
	strat := ""
	shape := ""
	if x.src != nil && x.src.tracked {
		strat = x.src.strat
		want, total := allocate(strat, x.maps, x.avail, x.t.Amt)
		got := get("release")
		if l.exact {
			if got.Cmp(total) != 0 {
				l.bad("covered", "posting %s of %s from %s (%s) drew %s of its providers, who had %s left: %s was to be covered", x.t.ID, x.t.Amt, x.t.Src, strat, got, l.availText(x), total)
			}
			for sh, q := range want {
				g := orZero(by["release"][sh])
				d := new(big.Int).Sub(g, q)
				tol := int64(0)
				if strat == "PROPORTIONAL" {
					tol = int64(len(want))
				}
				if d.CmpAbs(big.NewInt(tol)) > 0 {
					l.bad("order/"+strat, "posting %s of %s from %s (%s) drew %s from shadow %s, due was %s; left before: %s", x.t.ID, x.t.Amt, x.t.Src, strat, g, sh, q, l.availText(x))
					break
				}
			}
		}
		if got.Cmp(x.t.Amt) > 0 {
			l.bad("more-than-spent", "posting %s of %s drew %s from its providers", x.t.ID, x.t.Amt, got)
		}
		for sh := range by["release"] {
			if x.avail[sh] == nil {
				l.bad("foreign", "posting %s drew on shadow %s, which is not one of its source's", x.t.ID, sh)
			}
		}
		shape = fmt.Sprintf("%s/%dsources/partial%v", strat, min(len(by["release"]), 3), got.Cmp(x.t.Amt) < 0)
		// what is received is what was released
		if x.dst != nil && x.dst.tracked {
			if get("receive").Cmp(got) != 0 {
				l.bad("received", "posting %s released %s and %s was received", x.t.ID, got, get("receive"))
			}
			if len(by["receive"]) != len(by["release"]) {
				l.bad("received", "posting %s released from %d providers and %d were received", x.t.ID, len(by["release"]), len(by["receive"]))
			}
			for p, q := range by["receive"] {
				if r := by["release"][l.shadowOf[x.src.ident+"/"+p+"/"+x.src.cur]]; r == nil || r.Cmp(q) != 0 {
					l.bad("received", "posting %s received %s as from %s and released %s", x.t.ID, q, p, orZero(r))
				}
			}
		} else if get("receive").Sign() != 0 {
			l.bad("received", "posting %s received %s for a balance that tracks nothing", x.t.ID, get("receive"))
		}
	} else if get("release").Sign() != 0 {
		l.bad("released", "posting %s released %s from a balance that tracks nothing", x.t.ID, get("release"))
	}
	due := new(big.Int)
	if x.prov != "" && x.dst != nil && x.dst.tracked && (x.src == nil || !x.src.tracked) {
		due.Set(x.t.Amt)
		shape += "/credit"
	}
	if x.src != nil && x.src.tracked && get("credit").Sign() > 0 {
		// the provider was named and the source tracks its own: the money comes in twice
		if both := addb(get("credit"), get("receive")); both.Cmp(x.t.Amt) > 0 {
			l.bad("transfer-named-provider", "posting %s of %s between tracked balances, naming provider %s, attributed %s to its destination (%s credited, %s received)", x.t.ID, x.t.Amt, x.prov, both, get("credit"), get("receive"))
		}
	} else if get("credit").Cmp(due) != 0 {
		l.bad("credited", "posting %s of %s naming provider %q credited %s", x.t.ID, x.t.Amt, x.prov, get("credit"))
	}
	for p := range by["credit"] {
		if p != x.prov {
			l.bad("provider", "posting %s named provider %q and credited %q", x.t.ID, x.prov, p)
		}
	}
	l.c.Case(fmt.Sprintf("%s/%s", x.t.Effect, shape), len(x.rows) > 0)
	l.c.Add("tasks_judged", 1)
	l.c.Add("lineage_rows", int64(len(x.rows)))
}

func orZero(b *big.Int) *big.Int {
	if b == nil {
		return new(big.Int)
	}
	return b
}

func (l *lin) availText(x *ltask) string {
	var out []string
	for _, m := range x.maps {
		out = append(out, fmt.Sprintf("%s %s", m.provider, x.avail[m.shadow]))
	}
	return strings.Join(out, ", ")
}

// settled checks the holds that were settled: so must their shadows be.
func (l *lin) settled() {
	l.w.R.Audit.With(func() {
		for _, x := range l.order {
			if x.t.Effect != "hold" || x.status != "completed" {
				continue
			}
			rest := new(big.Int).Sub(x.t.Amt, x.commits)
			rest.Sub(rest, x.voids)
			for _, sh := range x.rows {
				done, gone := new(big.Int), new(big.Int)
				for _, k := range l.w.R.Audit.Ord {
					if k.Parent == sh.ID {
						switch k.Effect {
						case "commit":
							done.Add(done, k.Amt)
						case "void":
							gone.Add(gone, k.Amt)
						}
					}
				}
				key := ""
				switch {
				case rest.Sign() == 0 && x.voids.Sign() == 0:
					if done.Cmp(sh.Amt) != 0 {
						key = "not-committed"
					}
				case rest.Sign() == 0 && x.commits.Sign() == 0:
					if gone.Cmp(sh.Amt) != 0 {
						key = "not-voided"
					}
				case x.commits.Sign() == 0:
					if done.Sign()+gone.Sign() != 0 {
						key = "settled-early"
					}
				default: // committed in part
					want := new(big.Int).Mul(sh.Amt, x.commits)
					if want.Div(want, x.t.Amt).Cmp(done) != 0 {
						key = "partial-commit"
					}
				}
				if key != "" {
					l.bad(key, "hold %s of %s: %s committed, %s voided; its lineage row %s of %s: %s committed, %s voided", x.t.ID, x.t.Amt, x.commits, x.voids, sh.Ref, sh.Amt, done, gone)
				}
				l.c.Add("hold_rows_judged", 1)
			}
		}
	})
	l.flush()
}

// report compares what the API answers with the rows.
func (l *lin) report() {
	for id, b := range l.bals {
		if !b.tracked {
			continue
		}
		r := l.w.S[0].Do("GET", "/balances/"+id+"/lineage", nil)
		if !r.OK() {
			l.c.Violate("report", fmt.Sprintf("[%s] the lineage of %s: %s", l.tag, id, r), nil)
			continue
		}
		l.w.R.Audit.With(func() {
			got := map[string]string{}
			ps, _ := r.J["providers"].([]any)
			for _, p := range ps {
				m, _ := p.(map[string]any)
				got[rig.Str(m["provider"])] = fmt.Sprintf("%s/%s/%s", num(m["amount"]), num(m["spent"]), num(m["available"]))
			}
			if len(ps) != len(l.maps[id]) {
				l.bad("report", "the lineage of %s lists %d providers, %d sent it money", id, len(ps), len(l.maps[id]))
				return
			}
			total := new(big.Int)
			for _, m := range l.maps[id] {
				p := l.post(m.shadow)
				if want := fmt.Sprintf("%s/%s/%s", p[0], p[1], l.left(m.shadow)); got[m.provider] != want {
					l.bad("report", "the lineage of %s reports %s for %s, the rows come to %s", id, got[m.provider], m.provider, want)
				}
				if want := l.shadowOf[b.ident+"/"+m.provider+"/"+b.cur]; want != m.shadow {
					l.bad("mapping", "balance %s maps provider %s to %s, its money is kept in %s", id, m.provider, m.shadow, want)
				}
				total.Add(total, l.left(m.shadow))
			}
			if num(r.J["total_with_lineage"]).Cmp(total) != 0 {
				l.bad("report", "the lineage of %s totals %v, its providers %s", id, r.J["total_with_lineage"], total)
			}
			l.c.Add("reports_compared", 1)
		})
	}
	// every provider that credited a balance is on its list, and the aggregate is their sum
	l.w.R.Audit.With(func() {
		for _, x := range l.order {
			if x.status != "completed" {
				continue
			}
			for _, t := range x.rows {
				if typ := metaStr(t, "_lineage_type"); typ != "release" {
					ok := false
					for _, m := range l.maps[x.dst.id] {
						ok = ok || m.provider == metaStr(t, "_provider")
					}
					if !ok {
						l.bad("unmapped", "provider %q sent money to %s (posting %s) and is not among its providers", metaStr(t, "_provider"), x.dst.id, x.t.ID)
					}
				}
			}
		}
		agg := map[string]*big.Int{}
		for k, sh := range l.shadowOf {
			p := strings.Split(k, "/")
			key := p[0] + "/" + p[len(p)-1]
			agg[key] = addb(agg[key], l.left(sh))
		}
		aggOf := map[string]string{}
		for _, x := range l.order {
			for _, t := range x.rows {
				own, id := x.dst, t.Dst
				if metaStr(t, "_lineage_type") == "release" {
					own, id = x.src, t.Src
				}
				if own == nil {
					continue
				}
				k := own.ident + "/" + own.cur
				if was := aggOf[k]; was != "" && was != id {
					l.bad("aggregate", "identity and currency %s have two aggregates, %s and %s", k, was, id)
				}
				aggOf[k] = id
			}
		}
		for k, id := range aggOf {
			b := l.w.R.Audit.Bals[id]
			if b == nil || b.Raw == nil {
				continue
			}
			have := new(big.Int).Sub(rig.BI(b.Raw["credit_balance"]), rig.BI(b.Raw["debit_balance"]))
			if have.Cmp(orZero(agg[k])) != 0 {
				l.bad("aggregate", "the aggregate of %s stands at %s, its providers at %s", k, have, orZero(agg[k]))
			}
			l.c.Add("aggregates_compared", 1)
		}
	})
	l.flush()
}

var lineageProviders = []string{"stripe", "pay pal", "bank_a", "Ünïcødé"}

// linOp is one thing to do.
func (l *lin) op(rng *rand.Rand, mode string) {
	w := l.w
	cur := []string{"USD", "EUR"}[rng.Intn(2)]
	var tr, un []*lbal
	for _, b := range l.byCur[cur] {
		if b.tracked {
			tr = append(tr, b)
		} else {
			un = append(un, b)
		}
	}
	sync := len(w.W) == 0 || rng.Intn(3) > 0
	body := M{"currency": cur, "precision": 100, "description": "l", "allow_overdraft": true, "reference": rig.Ref("l")}
	amt := 1 + rng.Int63n([]int64{3, 10, 500, 5000}[rng.Intn(4)])
	if rng.Intn(15) == 0 {
		body["precise_amount"] = new(big.Int).Add(big2("90071992547409931"), big.NewInt(amt))
	} else {
		body["precise_amount"] = amt
	}
	if sync {
		body["skip_queue"] = true
	}
	prov := lineageProviders[rng.Intn(len(lineageProviders))]
	src, dst := tr[rng.Intn(len(tr))], tr[rng.Intn(len(tr))]
	if rng.Intn(5) == 0 && mode != "quietholds" {
		body["inflight"] = true
	}
	switch k := rng.Intn(12); {
	case k < 5:
		body["source"], body["destination"] = "@world", dst.id
		if rng.Intn(3) == 0 {
			body["source"] = un[rng.Intn(len(un))].id
		}
		if rng.Intn(6) > 0 {
			body["meta_data"] = M{providerKey: prov}
		}
	case k < 8:
		body["source"], body["destination"] = src.id, un[rng.Intn(len(un))].id
		if rng.Intn(3) == 0 {
			body["destination"] = "@world"
		}
		if rng.Intn(5) == 0 {
			body["meta_data"] = M{providerKey: prov}
		}
	case k < 10:
		if src == dst {
			return
		}
		body["source"], body["destination"] = src.id, dst.id
		if rng.Intn(8) == 0 {
			body["meta_data"] = M{providerKey: prov}
		}
	case k == 10: // a batch
		body["source"], body["destination"] = "@world", dst.id
		body["meta_data"] = M{providerKey: prov}
		b2 := merge1(body, M{"reference": rig.Ref("l"), "source": src.id, "destination": un[0].id})
		delete(b2, "meta_data")
		w.Srv(rng).Do("POST", "/transactions/bulk", M{"transactions": []M{body, b2}, "inflight": body["inflight"] == true, "atomic": rng.Intn(2) == 0, "skip_queue": sync})
		return
	default: // a split
		body["source"] = "@world"
		body["destinations"] = []M{{"identifier": dst.id, "distribution": "60%"}, {"identifier": un[0].id, "distribution": "left"}}
		body["meta_data"] = M{providerKey: prov}
	}
	w.Srv(rng).Do("POST", "/transactions", body)
}

// settleSome settles holds, or refunds postings.
func (l *lin) settleSome(rng *rand.Rand, n int) {
	var holds, posts []*ltask
	l.w.R.Audit.With(func() {
		for _, x := range l.order {
			switch {
			case x.t.Effect == "hold" && x.commits.Sign() == 0 && x.voids.Sign() == 0:
				holds = append(holds, x)
			case x.t.Effect == "post":
				posts = append(posts, x)
			}
		}
	})
	for i := 0; i < n; i++ {
		if rng.Intn(4) == 0 && len(posts) > 0 {
			l.w.Srv(rng).Do("POST", "/refund-transaction/"+posts[rng.Intn(len(posts))].t.ID, M{"skip_queue": true})
			continue
		}
		if len(holds) == 0 {
			return
		}
		x := holds[rng.Intn(len(holds))]
		b := M{"skip_queue": true, "status": "commit"}
		switch rng.Intn(7) {
		case 0, 1, 2:
			b["status"] = "void"
		case 3:
			b["precise_amount"] = new(big.Int).Add(big.NewInt(1), new(big.Int).Rand(rng, x.t.Amt))
		}
		l.w.Srv(rng).Do("PUT", "/transactions/inflight/"+x.t.ID, b)
	}
}

func lineage(c *rig.Check, faults bool) {
	c.Rule = "every commit is followed: a posting that affects tracked balances must carry its one task, tasks are claimed by one holder, and what each finished task recorded is compared with an independent allocation over what the providers had left at that moment; distinct_nontrivial counts (effect, strategy, sources drawn, partial, credit) kinds"
	c.Assume = append(c.Assume, "the database clock is advanced past the lease after a kill instead of waiting for it")
	n := c.Pick(9, 200)
	f := func(tag string, servers, workers int, mode string, n int) func() {
		return func() { lineageWorld(c, tag, servers, workers, mode, n, c.Seed*7+int64(len(tag))) }
	}
	if !faults {
		all(
			f("fifo", 1, 0, "exact", n),
			f("queued", 1, 1, "exact", n),
			f("race", 2, 1, "race", n),
			f("plain", 1, 0, "quietholds", n+2),
		)
		return
	}
	all(
		f("errors", 1, 0, "errors", n),
		f("cuts", 1, 1, "cuts", n),
		f("kills", 2, 0, "kills", n),
		f("tasks", 3, 1, "race", n),
	)
}

func lineageWorld(c *rig.Check, tag string, servers, workers int, mode string, n int, seed int64) {
	w := boot(c, tag, nil, servers, workers)
	if w == nil {
		return
	}
	defer w.R.Close()
	rng := rand.New(rand.NewSource(seed))
	l := &lin{w: w, c: c, tag: tag, dead: map[string]bool{}, kills: mode == "kills", p21: mode == "errors" || mode == "cuts" || mode == "kills" || tag == "tasks", exact: mode == "exact" || mode == "quietholds",
		bals: map[string]*lbal{}, byCur: map[string][]*lbal{}, tasks: map[string]*ltask{}, maps: map[string][]lmap{},
		posted: map[string][2]*big.Int{}, held: map[string]*big.Int{}, shadowOf: map[string]string{}, ownerOf: map[string]string{},
		claimed: map[int64]time.Time{}, holders: map[int64]string{}, off: &atomic.Int64{}}
	strats := []string{"FIFO", "LIFO", "PROPORTIONAL", "FIFO", "PROPORTIONAL"}
	people := []M{
		{"identity_type": "individual", "first_name": "Ann", "last_name": "Lee"},
		{"identity_type": "individual", "first_name": "Ann", "last_name": "Lee"},
		{"identity_type": "organization", "organization_name": "Acme Corp"},
		{"identity_type": "individual", "first_name": "Mono"},
		{"identity_type": "individual", "first_name": "Zoë", "last_name": "O'Hara"},
	}
	for i, p := range people {
		r := w.S[0].Do("POST", "/identities", merge1(p, M{"email_address": "a@b.co", "phone_number": "+15555555555", "category": "c"}))
		id := r.S("identity_id")
		if id == "" {
			c.Broken("[%s] identity: %s", tag, r)
			return
		}
		for j, cur := range []string{"USD", "EUR", "USD"} {
			if j == 2 && i != 2 {
				continue
			}
			b := &lbal{ident: id, cur: cur, strat: strats[i], tracked: true}
			b.id = w.S[0].Do("POST", "/balances", M{"ledger_id": w.Ledger, "currency": cur, "identity_id": id, "track_fund_lineage": true, "allocation_strategy": b.strat}).S("balance_id")
			l.bals[b.id] = b
			l.byCur[cur] = append(l.byCur[cur], b)
		}
	}
	for _, cur := range []string{"USD", "EUR"} {
		for i := 0; i < 2; i++ {
			b := &lbal{id: w.S[0].Balance(w.Ledger, cur), cur: cur}
			l.bals[b.id] = b
			l.byCur[cur] = append(l.byCur[cur], b)
		}
	}
	w.R.Audit.With(func() { l.seen = len(w.R.Audit.Ord); w.R.Audit.Watch = l.watch })
	defer w.R.Audit.With(func() { w.R.Audit.Watch = nil })
	off := l.off
	w.R.Eng.Clock = func() time.Time { return time.Now().Add(time.Duration(off.Load())) }
	if l.exact && mode != "quietholds" {
		for i := 0; i < c.Pick(2, 12); i++ {
			if !l.drill(rng, i) {
				return
			}
		}
	}
	for ph := 0; ph < n && c.Violations() < 8; ph++ {
		stop := l.disturb(rng, mode, ph, off)
		ops := 14
		if l.exact {
			for i := 0; i < ops; i++ {
				l.op(rng, mode)
			}
		} else {
			var wg sync.WaitGroup
			for g := 0; g < 4; g++ {
				wg.Add(1)
				r := rand.New(rand.NewSource(seed*100 + int64(ph*10+g)))
				go func() {
					defer wg.Done()
					for i := 0; i < 5; i++ {
						l.op(r, mode)
						if r.Intn(3) == 0 {
							l.settleSome(r, 1)
						}
					}
				}()
			}
			wg.Wait()
		}
		stop()
		if !l.calm(60 * time.Second) {
			return
		}
		l.judge()
		if l.exact && mode != "quietholds" {
			l.settleSome(rng, 4)
			if !l.calm(60 * time.Second) {
				return
			}
			l.judge()
		}
	}
	if l.kills {
		l.behind(rng)
	}
	l.settled()
	l.report()
	crashes(c, w, tag)
	c.Add("commits_followed", l.events)
	if l.exact {
		var ks []string
		for k := range l.shadowOf {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		c.Sample(M{"world": tag, "providers": len(ks), "tasks": len(l.order)})
	}
}

// drill has providers come in one right after the other, with small and nearly equal shares, and draws on them.
func (l *lin) drill(rng *rand.Rand, i int) bool {
	w := l.w
	cur := []string{"USD", "EUR"}[i%2]
	body := M{"currency": cur, "precision": 100, "description": "l", "allow_overdraft": true, "skip_queue": true}
	var bs []*lbal
	for k, strat := range []string{"FIFO", "LIFO", "PROPORTIONAL"} {
		id := w.S[0].Do("POST", "/identities", M{"identity_type": "individual", "first_name": fmt.Sprintf("D%d%d", i, k), "email_address": "a@b.co", "phone_number": "+15555555555", "category": "c"}).S("identity_id")
		b := &lbal{ident: id, cur: cur, strat: strat, tracked: true}
		b.id = w.S[0].Do("POST", "/balances", M{"ledger_id": w.Ledger, "currency": cur, "identity_id": id, "track_fund_lineage": true, "allocation_strategy": strat}).S("balance_id")
		w.R.Audit.With(func() { l.bals[b.id] = b })
		l.byCur[cur] = append(l.byCur[cur], b)
		bs = append(bs, b)
	}
	shares := [][]int64{{5, 5, 1}, {7, 7, 7}, {1, 9, 2, 1}, {3, 1, 1, 1}}[rng.Intn(4)]
	if i == 0 {
		shares = []int64{5, 5, 1}
	}
	sum := int64(0)
	provs := append([]string{}, lineageProviders...)
	rng.Shuffle(len(provs), func(a, b int) { provs[a], provs[b] = provs[b], provs[a] })
	for k, s := range shares {
		sum += s
		for _, b := range bs {
			w.S[0].Do("POST", "/transactions", merge1(body, M{"reference": rig.Ref("l"), "source": "@world", "destination": b.id, "precise_amount": s, "meta_data": M{providerKey: provs[k]}}))
		}
	}
	if !l.calm(60 * time.Second) {
		return false
	}
	l.judge()
	for k, part := range []int64{sum - 1 - rng.Int63n(2), 1, 3} {
		for _, b := range bs {
			w.S[0].Do("POST", "/transactions", merge1(body, M{"reference": rig.Ref("l"), "source": b.id, "destination": "@world", "precise_amount": part}))
		}
		if k != 1 && !l.calm(60*time.Second) {
			return false
		}
	}
	l.judge()
	l.c.Add("drills", 1)
	return true
}

// behind has a worker die while it holds the first credit of a balance, and a debit of that balance wait for it.
func (l *lin) behind(rng *rand.Rand) {
	w := l.w
	var b *lbal
	for _, x := range l.byCur["EUR"] {
		if x.tracked {
			b = x
		}
	}
	id := w.S[0].Do("POST", "/balances", M{"ledger_id": w.Ledger, "currency": "EUR", "identity_id": b.ident, "track_fund_lineage": true}).S("balance_id")
	nb := &lbal{id: id, ident: b.ident, cur: "EUR", strat: "FIFO", tracked: true}
	w.R.Audit.With(func() { l.bals[id] = nb })
	var hit atomic.Pointer[rig.Proc]
	var mine atomic.Bool
	w.R.Eng.SetHook(func(s *stmt) *action {
		if !mine.Load() || !strings.HasPrefix(s.App, "start") || s.Table != "blnk.transactions" && s.Table != "blnk.balances" || hit.Load() != nil {
			return nil
		}
		for _, p := range w.S {
			if p.Name == s.App {
				hit.Store(p)
				w.R.Audit.With(func() { l.dead[p.Name] = true })
				p.Cmd.Process.Kill()
				return &action{Cut: "before"}
			}
		}
		return nil
	})
	defer w.R.Eng.SetHook(nil)
	body := M{"currency": "EUR", "precision": 100, "description": "l", "precise_amount": 500, "skip_queue": true, "allow_overdraft": true}
	if r := w.S[0].Do("POST", "/transactions", merge1(body, M{"reference": rig.Ref("l"), "source": "@world", "destination": id, "meta_data": M{providerKey: "stripe"}})); !r.OK() {
		l.c.Broken("[%s] %s", l.tag, r)
		return
	}
	mine.Store(true)
	if !rig.Eventually(10*time.Second, func() bool { return hit.Load() != nil }) {
		return
	}
	victim := hit.Load()
	w.R.Eng.SetHook(nil)
	victim.Kill()
	w.R.Eng.CloseSessions(victim.Name)
	dropLocks(w)
	for i := range w.S {
		if w.S[i] != victim {
			w.S[i].Do("POST", "/transactions", merge1(body, M{"reference": rig.Ref("l"), "source": id, "destination": "@world", "precise_amount": 300}))
		}
	}
	rig.Eventually(12*time.Second, func() bool {
		n := 0
		w.R.Audit.With(func() {
			for _, x := range l.order {
				if x.src == nb && x.status == "failed" {
					n++
				}
			}
		})
		return n > 0
	})
	l.off.Add(int64(40 * time.Second))
	p, err := w.R.Start("start", nil)
	if err != nil {
		l.c.Broken("[%s] %v", l.tag, err)
		return
	}
	for i := range w.S {
		if w.S[i] == victim {
			w.S[i] = p
		}
	}
	if l.calm(60 * time.Second) {
		l.judge()
	}
}

// disturb injects faults into the lineage work of one phase.
func (l *lin) disturb(rng *rand.Rand, mode string, ph int, off *atomic.Int64) func() {
	w := l.w
	none := func() {}
	if ph%3 == 0 {
		return none
	}
	var mu sync.Mutex
	frng := rand.New(rand.NewSource(rng.Int63()))
	left := 3                       // fewer than it takes to exhaust a task's attempts
	working := func(s *stmt) bool { // lineage work, and not the claim or the mark that ends it
		return strings.HasPrefix(s.App, "start") && s.Kind != "begin" && !strings.Contains(s.Table, "lineage_outbox")
	}
	switch mode {
	case "errors", "cuts":
		w.R.Eng.SetHook(func(s *stmt) *action {
			if !working(s) {
				return nil
			}
			mu.Lock()
			defer mu.Unlock()
			if left <= 0 || frng.Intn(25) > 0 {
				return nil
			}
			left--
			l.c.Add("faults", 1)
			if mode == "cuts" {
				return &action{Cut: []string{"before", "after"}[frng.Intn(2)]}
			}
			return &action{Err: pgErr([]string{"40001", "57014", "53300", "XX000"}[frng.Intn(4)], "injected")}
		})
		return func() {
			rig.Eventually(3*time.Second, func() bool { mu.Lock(); defer mu.Unlock(); return left <= 0 })
			w.R.Eng.SetHook(nil)
		}
	case "kills":
		return func() {
			// in the midst of the lineage work
			var hit atomic.Bool
			at := int64(5 + frng.Intn(160))
			var k atomic.Int64
			victim := w.S[frng.Intn(len(w.S))]
			w.R.Eng.SetHook(func(s *stmt) *action {
				if s.App != victim.Name || !working(s) || k.Add(1) != at {
					return nil
				}
				hit.Store(true)
				w.R.Audit.With(func() { l.dead[victim.Name] = true })
				victim.Cmd.Process.Kill()
				return &action{Cut: []string{"before", "after"}[frng.Intn(2)]}
			})
			rig.Eventually(4*time.Second, func() bool { return hit.Load() || l.open() == 0 })
			w.R.Eng.SetHook(nil)
			if !hit.Load() {
				return
			}
			l.c.Add("kills", 1)
			victim.Kill()
			w.R.Eng.CloseSessions(victim.Name)
			dropLocks(w)
			// the others finish what they hold before the clock moves
			rig.Eventually(5*time.Second, func() bool {
				n := 0
				w.R.Audit.With(func() {
					for _, by := range l.holders {
						if by != victim.Name {
							n++
						}
					}
				})
				return n == 0
			})
			off.Add(int64(40 * time.Second))
			for i := range w.S {
				if w.S[i] == victim {
					p, err := w.R.Start("start", nil)
					if err != nil {
						l.c.Broken("[%s] %v", l.tag, err)
						return
					}
					w.S[i] = p
				}
			}
		}
	}
	return none
}
