package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/blnkfinance/blnk/internal/verifx/pgfake"
	"github.com/blnkfinance/blnk/internal/verifx/rig"
)

func init() { checks["P28"] = p28 }

// mon is a balance monitor as the checker last set it.
type mon struct {
	id, bal, field, op string
	val, prec          string
	thr                *big.Int
}

func (m *mon) key() string { return m.id + " " + m.field + " " + m.op + " " + m.thr.String() }

func (m *mon) holds(v *big.Int) bool {
	k := v.Cmp(m.thr)
	switch m.op {
	case ">":
		return k > 0
	case ">=":
		return k >= 0
	case "<":
		return k < 0
	case "<=":
		return k <= 0
	case "=":
		return k == 0
	}
	return k != 0
}

var monFields = []string{"balance", "credit_balance", "debit_balance", "inflight_balance", "inflight_credit_balance", "inflight_debit_balance"}

// decimalOf writes thr/prec as a number a float64 keeps exactly as written.
func decimalOf(thr *big.Int, prec int64) (string, bool) {
	q := new(big.Rat).SetFrac(thr, big.NewInt(prec))
	f, _ := q.Float64()
	s := strconv.FormatFloat(f, 'f', -1, 64)
	back, ok := new(big.Rat).SetString(s)
	return s, ok && back.Cmp(q) == 0
}

// p28: monitors notify of exactly the postings after which their condition holds.
func p28(c *rig.Check) {
	c.Rule = "monitors of every field and operator with thresholds at, one above and one below what the balances come to (up to 30 digits, decimals floats round) are created, changed, moved and deleted through several servers; after every committed posting each monitor is evaluated exactly on the values committed, and the notifications received are counted per monitor and condition against that; distinct_nontrivial counts (field, operator, distance from the threshold, kind of posting, size) kinds"
	fs := []func(){
		func() { p28run(c, "sync", 1, true, nil, c.Pick(8, 60)) },
		func() { p28run(c, "mixed", 2, false, nil, c.Pick(6, 50)) },
		func() {
			p28run(c, "hot-lane", 3, false, rig.Cfg{"queue": M{"enable_hot_lane": true, "hot_pair_lock_contention_threshold": 1}, "transaction": M{"enable_queued_checks": true}}, c.Pick(5, 50))
		},
	}
	all(fs...)
}

type p28w struct {
	*rig.World
	c    *rig.Check
	tag  string
	rng  *rand.Rand
	mu   sync.Mutex
	mons map[string]*mon
	unit map[string]*big.Int
	want map[string]int // by key
	free map[string]bool
	ev   int // evaluations
	why  map[string][]string
}

func p28run(c *rig.Check, tag string, seed int64, seq bool, cfg rig.Cfg, rounds int) {
	base := boot(c, tag, cfg, 2, 1)
	if base == nil {
		return
	}
	defer base.R.Close()
	w := &p28w{World: base, c: c, tag: tag, rng: rand.New(rand.NewSource(c.Seed*1000 + seed)), mons: map[string]*mon{}, unit: map[string]*big.Int{}, want: map[string]int{}, free: map[string]bool{}, why: map[string][]string{}}
	if err := w.AddBalances("USD", 5, 100000); err != nil {
		c.Broken("%s: %v", tag, err)
		return
	}
	small := append([]string{}, w.Bals["USD"]...)
	if err := w.AddBalances("BIG", 3, 100000); err != nil {
		c.Broken("%s: %v", tag, err)
		return
	}
	large := append([]string{}, w.Bals["BIG"]...)
	for _, b := range small {
		w.unit[b] = big.NewInt(1)
	}
	for _, b := range large {
		w.unit[b] = big2("100000000000000000000000")
	}
	bals := append(append([]string{}, small...), large...)
	for _, b := range large {
		if err := w.FundBal(b, "BIG", new(big.Int).Mul(w.unit[b], big.NewInt(1000))); err != nil {
			c.Broken("%s: %v", tag, err)
			return
		}
	}
	w.R.Audit.With(func() { w.R.Audit.Watch = w.watch })
	defer w.R.Audit.With(func() { w.R.Audit.Watch = nil })
	for k := 0; k < rounds && c.Violations() == 0 && c.Elapsed() < time.Duration(c.Pick(60, 7000))*time.Second; k++ {
		for i := 2 + w.rng.Intn(5); i > 0; i-- {
			w.change(bals)
		}
		if seq {
			for i := 0; i < c.Pick(10, 12); i++ {
				w.post(w.rng, small, large)
				w.settleUp(fmt.Sprintf("posting %d", i))
			}
		} else {
			var wg sync.WaitGroup
			for j := 0; j < 4; j++ {
				rng := rand.New(rand.NewSource(w.rng.Int63()))
				wg.Add(1)
				go func() {
					defer wg.Done()
					for i := 0; i < c.Pick(8, 12); i++ {
						w.post(rng, small, large)
					}
				}()
			}
			wg.Wait()
			w.R.Drain(20*time.Second, false)
			w.settleUp("round")
		}
		if k%2 == 1 {
			w.storm(bals, small, large)
		}
	}
	w.R.Audit.With(func() { w.R.Audit.Watch = nil })
	w.R.Audit.Settle(tag, "doubleentry", "fold")
	crashes(c, base, tag)
	c.Add("evaluations", int64(w.ev))
	n := 0
	for _, v := range w.want {
		n += v
	}
	c.Add("notifications_due", int64(n))
	if n < 10 || w.ev < 2*n/3 {
		c.Broken("%s: only %d notifications were due in %d evaluations", tag, n, w.ev)
	}
}

func (w *p28w) srv() *rig.Proc { return w.S[w.rng.Intn(len(w.S))] }

func fieldOf(m map[string]any, f string) *big.Int {
	if m == nil || m[f] == nil {
		return new(big.Int)
	}
	return rig.BI(m[f])
}

// watch evaluates every monitor on what a commit made of its balance.
func (w *p28w) watch(k *pgfake.Commit) {
	for _, ch := range k.Changes {
		if ch.Table != "blnk.balances" || ch.After == nil || ch.Before == nil {
			continue
		}
		touched := false
		for _, f := range monFields {
			if fieldOf(ch.Before, f).Cmp(fieldOf(ch.After, f)) != 0 {
				touched = true
			}
		}
		if !touched {
			continue
		}
		id := rig.Str(ch.After["balance_id"])
		w.mu.Lock()
		for _, m := range w.mons {
			if m.bal != id {
				continue
			}
			v := fieldOf(ch.After, m.field)
			w.ev++
			d := new(big.Int).Sub(v, m.thr)
			dist := "far"
			if u := w.unit[id]; u != nil {
				if a := new(big.Int).Abs(d); a.Sign() == 0 {
					dist = "at"
				} else if a.Cmp(new(big.Int).Mul(u, big.NewInt(2))) <= 0 {
					dist = fmt.Sprint("near ", d.Sign())
				}
			}
			h := m.holds(v)
			w.c.Case(fmt.Sprintf("%s %s %s %v len %d moved %v app %.4s", m.field, m.op, dist, h, len(m.thr.String()), fieldOf(ch.Before, m.field).Cmp(v) != 0, k.App), dist != "far")
			if h {
				w.want[m.key()]++
			}
			if t := append(w.why[m.key()], fmt.Sprintf("%s→%v", v, h)); true {
				if len(t) > 12 {
					t = t[1:]
				}
				w.why[m.key()] = t
			}
		}
		w.mu.Unlock()
	}
}

// change creates, changes or deletes a monitor through some server.
func (w *p28w) change(bals []string) {
	w.mu.Lock()
	ids := make([]string, 0, len(w.mons))
	for id := range w.mons {
		ids = append(ids, id)
	}
	w.mu.Unlock()
	sort.Strings(ids)
	kind := w.rng.Intn(10)
	if len(ids) < 4 || kind < 4 && len(ids) < 40 {
		m := w.cond(pick(w.rng, bals), true)
		r := w.srv().Do("POST", "/balance-monitors", M{"balance_id": m.bal, "condition": m.body(), "description": "d"})
		m.id = r.S("monitor_id")
		if !r.OK() || m.id == "" {
			w.c.Violate("create", fmt.Sprintf("[%s] a monitor %s %s %s at precision %s is refused: %v", w.tag, m.field, m.op, m.val, m.prec, r), nil)
			return
		}
		w.mu.Lock()
		w.mons[m.id] = m
		w.mu.Unlock()
		w.reads(m)
		w.c.Add("monitors_created", 1)
		return
	}
	id := pick(w.rng, ids)
	if kind < 8 {
		w.mu.Lock()
		old := w.mons[id]
		w.mu.Unlock()
		bal := old.bal
		if w.rng.Intn(3) == 0 {
			bal = pick(w.rng, bals)
		}
		m := w.cond(bal, false)
		m.id = id
		r := w.srv().Do("PUT", "/balance-monitors/"+id, M{"balance_id": m.bal, "condition": m.body(), "description": "changed"})
		if !r.OK() {
			w.c.Violate("update", fmt.Sprintf("[%s] changing a monitor to %s %s %s at precision %s is refused: %v", w.tag, m.field, m.op, m.val, m.prec, r), nil)
			return
		}
		w.mu.Lock()
		w.mons[id] = m
		w.mu.Unlock()
		w.reads(m)
		w.c.Add("monitors_changed", 1)
		return
	}
	r := w.srv().Do("DELETE", "/balance-monitors/"+id, nil)
	if !r.OK() {
		w.c.Violate("delete", fmt.Sprintf("[%s] a monitor cannot be deleted: %v", w.tag, r), nil)
		return
	}
	w.mu.Lock()
	delete(w.mons, id)
	w.mu.Unlock()
	if g := w.srv().Do("GET", "/balance-monitors/"+id, nil); g.Code != 404 {
		w.c.Violate("delete", fmt.Sprintf("[%s] a deleted monitor is still there: %v", w.tag, g), nil)
	}
	w.c.Add("monitors_deleted", 1)
}

// reads: what was acknowledged is what is read.
func (w *p28w) reads(m *mon) {
	g := w.srv().Do("GET", "/balance-monitors/"+m.id, nil)
	v, _ := exact(g.Raw)
	o, _ := v.(map[string]any)
	cd, _ := o["condition"].(map[string]any)
	if cd == nil || o["balance_id"] != m.bal || cd["field"] != m.field || cd["operator"] != m.op || !sameNum(cd["precise_value"], m.thr) || !sameDec(cd["value"], m.val) || !sameDec(cd["precision"], m.prec) {
		w.c.Violate("read", fmt.Sprintf("[%s] a monitor set to %s %s %s × %s = %s on %s reads %v", w.tag, m.field, m.op, m.val, m.prec, m.thr, m.bal, g), nil)
	}
}

func sameNum(v any, n *big.Int) bool {
	q, ok := new(big.Rat).SetString(fmt.Sprint(v))
	return ok && q.IsInt() && q.Num().Cmp(n) == 0
}

func sameDec(v any, s string) bool {
	q, ok := new(big.Rat).SetString(fmt.Sprint(v))
	p, ok2 := new(big.Rat).SetString(s)
	return ok && ok2 && p.Cmp(q) == 0
}

func (m *mon) body() M {
	return M{"field": m.field, "operator": m.op, "value": json.Number(m.val), "precision": json.Number(m.prec)}
}

// cond makes a condition whose threshold is near what the field holds.
func (w *p28w) cond(bal string, create bool) *mon {
	for {
		m := &mon{bal: bal, field: pick(w.rng, monFields), op: pick(w.rng, []string{">", "<", ">=", "<=", "=", "!="})}
		var cur *big.Int
		w.R.Audit.With(func() { cur = fieldOf(w.R.Audit.Bals[bal].Raw, m.field) })
		d := int64(w.rng.Intn(9) - 4)
		if w.rng.Intn(6) == 0 {
			d = w.rng.Int63n(2000) - 1000
		}
		m.thr = new(big.Int).Add(cur, new(big.Int).Mul(w.unit[bal], big.NewInt(d)))
		if w.rng.Intn(12) == 0 {
			m.thr = new(big.Int).Mul(big.NewInt(w.rng.Int63n(2000)-1000), big2("10000000000000000000"))
		}
		prec := pick(w.rng, []int64{1, 10, 100, 100, 100, 1000, 100000000})
		val, ok := decimalOf(m.thr, prec)
		if !ok || create && m.thr.Sign() == 0 {
			continue
		}
		m.val, m.prec = val, fmt.Sprint(prec)
		return m
	}
}

// post makes one posting of some kind between monitored balances.
func (w *p28w) post(rng *rand.Rand, small, large []string) {
	l, cur := small, "USD"
	if rng.Intn(3) == 0 {
		l, cur = large, "BIG"
	}
	i := rng.Intn(len(l))
	j := (i + 1 + rng.Intn(len(l)-1)) % len(l)
	n := new(big.Int).Mul(w.unit[l[i]], big.NewInt(1+rng.Int63n(3)))
	kind := rng.Intn(8)
	m := M{"precise_amount": json.Number(n.String()), "precision": 100, "currency": cur, "reference": rig.Ref("p28"), "description": "d", "source": l[i], "destination": l[j], "allow_overdraft": true, "inflight": kind >= 4 && kind < 7, "skip_queue": rng.Intn(2) == 0}
	s := w.S[rng.Intn(len(w.S))]
	if kind == 7 {
		m["skip_queue"] = true
		delete(m, "destination")
		m["destinations"] = []M{{"identifier": l[j], "distribution": "50%"}, {"identifier": l[(j+1)%len(l)], "distribution": "left"}}
		if l[(j+1)%len(l)] == l[i] {
			return
		}
	}
	r := s.Txn(m)
	w.c.Add("postings", 1)
	if !r.OK() || kind < 5 || kind == 7 || m["skip_queue"] != true {
		return
	}
	act := M{"status": pick(rng, []string{"commit", "void"})}
	if act["status"] == "commit" && rng.Intn(3) == 0 {
		act["precise_amount"] = json.Number(w.unit[l[i]].String())
	}
	w.S[rng.Intn(len(w.S))].Do("PUT", "/transactions/inflight/"+r.S("transaction_id"), act)
	if rng.Intn(3) == 0 {
		w.S[rng.Intn(len(w.S))].Do("POST", "/refund-transaction/"+r.S("transaction_id"), nil)
	}
}

// got counts the notifications received, by monitor and condition.
func (w *p28w) got() map[string]int {
	out := map[string]int{}
	for _, h := range w.R.Hooks.All() {
		if h.J["event"] != "balance.monitor" {
			continue
		}
		v, err := exact(h.Body)
		o, _ := v.(map[string]any)
		d, _ := o["data"].(map[string]any)
		cd, _ := d["condition"].(map[string]any)
		if err != nil || cd == nil {
			out["? "+string(h.Body)]++
			continue
		}
		out[fmt.Sprint(d["monitor_id"], " ", cd["field"], " ", cd["operator"], " ", cd["precise_value"])]++
	}
	return out
}

// settleUp waits for the notifications that are due and compares.
func (w *p28w) settleUp(when string) {
	diff := func() string {
		g := w.got()
		w.mu.Lock()
		defer w.mu.Unlock()
		var out []string
		for k, n := range w.want {
			if g[k] < n && !w.free[k] {
				out = append(out, fmt.Sprintf("%s: %d due, %d came (values %s)", k, n, g[k], strings.Join(w.why[k], " ")))
			}
		}
		for k, n := range g {
			if n > w.want[k] && !w.free[k] {
				out = append(out, fmt.Sprintf("%s: %d due, %d came (values %s)", k, w.want[k], n, strings.Join(w.why[k], " ")))
			}
		}
		sort.Strings(out)
		return strings.Join(out, "; ")
	}
	d := ""
	if !rig.Eventually(12*time.Second, func() bool { d = diff(); return d == "" }) {
		w.c.Violate("notify", fmt.Sprintf("[%s] %s: %s", w.tag, when, cut(d, 1500)), nil)
	}
	w.c.Add("comparisons", 1)
}

// storm changes monitors while postings are made; only what follows is judged.
func (w *p28w) storm(bals, small, large []string) {
	stop := make(chan bool)
	var wg sync.WaitGroup
	for j := 0; j < 4; j++ {
		rng := rand.New(rand.NewSource(w.rng.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				select {
				case <-stop:
					return
				default:
					w.post(rng, small, large)
				}
			}
		}()
	}
	for i := 0; i < 12; i++ {
		w.change(bals)
	}
	close(stop)
	wg.Wait()
	w.R.Drain(20*time.Second, false)
	// what came or was due until all is quiet may be by the old or the new condition
	last := -1
	for k := 0; k < 40; k++ {
		n := 0
		for _, v := range w.got() {
			n += v
		}
		if n == last {
			break
		}
		last = n
		time.Sleep(400 * time.Millisecond)
	}
	g := w.got()
	w.mu.Lock()
	for k := range w.want {
		w.want[k] = g[k]
	}
	for k, n := range g {
		w.want[k] = n
	}
	w.mu.Unlock()
	w.c.Add("storms", 1)
}
