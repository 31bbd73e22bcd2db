package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/blnkfinance/blnk/internal/verifx/pgfake"
	"github.com/blnkfinance/blnk/internal/verifx/rig"
)

func init() {
	checks["P19"] = p19
}

// log19 records what the service writes.
type log19 struct {
	mu     sync.Mutex
	writes []string // table of every row changed
	txns   []string // transactions recorded, in order
}

func (l *log19) watch(k *pgfake.Commit) {
	if k.App == "harness" {
		return
	}
	l.mu.Lock()
	defer l.mu.Unlock()
	for _, ch := range k.Changes {
		op := "update of "
		if ch.Before == nil {
			op = "insert into "
			if ch.Table == "blnk.transactions" {
				l.txns = append(l.txns, rig.Str(ch.After["transaction_id"]))
				op = fmt.Sprintf("insert of %v %v for %v into ", ch.After["status"], ch.After["transaction_id"], ch.After["reference"])
			}
		} else if ch.After == nil {
			op = "delete from "
		}
		l.writes = append(l.writes, op+ch.Table+" by "+k.App)
	}
}

func (l *log19) reset() {
	l.mu.Lock()
	l.writes, l.txns = nil, nil
	l.mu.Unlock()
}

func (l *log19) take() (writes, txns []string) {
	l.mu.Lock()
	defer l.mu.Unlock()
	return append([]string{}, l.writes...), append([]string{}, l.txns...)
}

// op19 is one request, and what can be said about its outcome.
type op19 struct {
	kind, method, path string
	body               M
	sync               bool
	// members may see each other's effects in any order: only what each member
	// answers alone is predicted
	loose bool
	cur   string
	desc  string
}

// w19 is the state the generator draws from.
type w19 struct {
	*rig.World
	c       *rig.Check
	tag     string
	rng     *rand.Rand
	log     *log19
	refs    []string
	applied []string
	holds   []string
	odd     []string // other ids an action may address
	drain   bool
	asked   []string // references and ids of the calls made for real
}

func (w *w19) pick(l []string) string {
	if len(l) == 0 {
		return "txn_missing"
	}
	return l[w.rng.Intn(len(l))]
}

func (w *w19) side(cur string) string {
	switch w.rng.Intn(24) {
	case 0:
		return "@world"
	case 1:
		return "@fees"
	case 2:
		return "@" + rig.Ref("new")
	case 3:
		return "bln_missing"
	case 4: // the other currency
		for _, c := range w.Cur {
			if c != cur {
				return w.pick(w.Bals[c])
			}
		}
	}
	return w.pick(w.Bals[cur])
}

func (w *w19) amounts(b M, src string) {
	rng := w.rng
	b["precision"] = []int64{100, 100, 100, 1, 1000, 1000000}[rng.Intn(6)]
	a := new(big.Int)
	switch rng.Intn(20) {
	case 0:
		a = avail(w.World, src)
	case 1:
		a.Add(avail(w.World, src), big.NewInt(1))
	case 2:
		a = big2("123456789012345678901234567890")
	case 3:
		b["amount"] = []float64{0.01, 0.001, 12.345, 1.005, 99.99, 4.35}[rng.Intn(6)]
		return
	case 4:
		b["amount"] = float64(1 + rng.Intn(300))
		return
	case 5:
		b["amount"] = []float64{0, -1, 1e300}[rng.Intn(3)]
		return
	case 6:
		b["precise_amount"] = []any{0, -5, 1.5}[rng.Intn(3)]
		return
	default:
		a = big.NewInt(1 + rng.Int63n(900))
	}
	b["precise_amount"] = a
}

func (w *w19) ref() string {
	if w.rng.Intn(20) == 0 && len(w.refs) > 0 {
		return w.pick(w.refs)
	}
	r := rig.Ref("d")
	w.refs = append(w.refs, r)
	return r
}

func (w *w19) txn(cur string) M {
	rng := w.rng
	src := w.side(cur)
	dst := w.side(cur)
	b := M{"currency": cur, "description": "d", "reference": w.ref(), "source": src, "destination": dst}
	if rng.Intn(25) == 0 {
		b["destination"] = src
	}
	w.amounts(b, src)
	if rng.Intn(4) == 0 || src == "@world" {
		b["allow_overdraft"] = true
	}
	if rng.Intn(8) == 0 {
		b["overdraft_limit"] = float64(1 + rng.Intn(20))
	}
	if rng.Intn(4) == 0 {
		b["inflight"] = true
	}
	if rng.Intn(8) == 0 {
		b["effective_date"] = time.Now().UTC().Add(-time.Duration(rng.Intn(1000)) * time.Hour).Format(time.RFC3339)
	}
	if rng.Intn(40) == 0 {
		delete(b, []string{"currency", "reference", "description", "source", "destination"}[rng.Intn(5)])
	}
	return b
}

func (w *w19) split(cur string) M {
	rng := w.rng
	b := w.txn(cur)
	for _, k := range []string{"currency", "reference", "description", "source", "destination"} {
		if b[k] == nil {
			b[k] = M{"currency": cur, "reference": w.ref(), "description": "d", "source": w.side(cur), "destination": w.side(cur)}[k]
		}
	}
	n := 2 + rng.Intn(3)
	var ds []M
	left := 100
	for i := 0; i < n; i++ {
		d := M{"identifier": w.side(cur)}
		switch {
		case i == n-1 && rng.Intn(6) > 0:
			d["distribution"] = "left"
		case rng.Intn(3) == 0:
			d["precise_distribution"] = fmt.Sprint(rng.Intn(20))
		default:
			p := 1 + rng.Intn(left/2+1)
			left -= p
			d["distribution"] = fmt.Sprintf("%d%%", p)
		}
		ds = append(ds, d)
	}
	if rng.Intn(2) == 0 {
		delete(b, "destination")
		b["destinations"] = ds
	} else {
		delete(b, "source")
		b["sources"] = ds
	}
	return b
}

// gen draws one request.
func (w *w19) gen() *op19 {
	rng := w.rng
	cur := w.Cur[rng.Intn(len(w.Cur))]
	o := &op19{method: "POST", sync: !w.drain || rng.Intn(6) > 0, cur: cur}
	switch k := rng.Intn(20); {
	case k < 6:
		o.kind, o.path, o.body = "single", "/transactions", w.txn(cur)
	case k < 9:
		o.kind, o.path, o.body = "split", "/transactions", w.split(cur)
		o.loose = !o.sync
	case k < 13:
		o.kind, o.path = "bulk", "/transactions/bulk"
		var ts []M
		for i := 0; i < 1+rng.Intn(4); i++ {
			cc := cur
			if rng.Intn(3) == 0 {
				cc = w.Cur[rng.Intn(len(w.Cur))]
			}
			if rng.Intn(4) == 0 {
				ts = append(ts, w.split(cc))
			} else {
				ts = append(ts, w.txn(cc))
			}
			if i > 0 && rng.Intn(8) == 0 {
				ts[i]["reference"] = ts[i-1]["reference"]
			}
		}
		o.body = M{"transactions": ts, "atomic": rng.Intn(2) == 0, "inflight": rng.Intn(3) == 0}
		o.loose = !o.sync
	case k < 17:
		o.kind, o.method = "settle", "PUT"
		id := w.pick(w.holds)
		switch rng.Intn(8) {
		case 0:
			id = w.pick(w.applied)
		case 1:
			id = w.pick(w.odd)
		}
		o.path = "/transactions/inflight/" + id
		o.body = w.action(id)
		if rng.Intn(3) == 0 {
			o.body["status"] = "void"
		} else {
			o.body["status"] = "commit"
		}
	case k == 17:
		o.kind = "bulkvoid"
		if rng.Intn(2) == 0 {
			o.kind = "bulkcommit"
		}
		o.path = "/transactions/inflight/bulk/" + o.kind[4:]
		var ids []string
		var its []M
		seen := map[string]bool{}
		for i := 0; i < 1+rng.Intn(3); i++ {
			id := w.pick(w.holds)
			if rng.Intn(5) == 0 {
				id = w.pick(w.odd)
			}
			if seen[id] {
				continue
			}
			seen[id] = true
			ids = append(ids, id)
			its = append(its, merge1(w.action(id), M{"transaction_id": id}))
		}
		if o.kind == "bulkvoid" {
			o.body = M{"transaction_ids": ids}
		} else {
			o.body = M{"transactions": its}
		}
		o.loose = len(ids) > 1
	default:
		o.kind = "refund"
		id := w.pick(w.applied)
		if rng.Intn(4) == 0 {
			id = w.pick(append(append([]string{}, w.holds...), w.odd...))
		}
		o.path = "/refund-transaction/" + id
		o.body = M{}
	}
	if o.sync {
		o.body["skip_queue"] = true
	}
	o.desc = fmt.Sprintf("%s %s %s", o.method, o.path, jtext(o.body))
	return o
}

func (w *w19) action(id string) M {
	rng := w.rng
	b := M{}
	t := w.R.Audit.Txn(id)
	a := big.NewInt(1 + rng.Int63n(300))
	if t != nil && t.Amt != nil {
		a = new(big.Int).Add(big.NewInt(1), new(big.Int).Rand(rng, new(big.Int).Add(t.Amt, big.NewInt(3))))
	}
	switch rng.Intn(8) {
	case 0, 1:
	case 2:
		b["amount"] = float64(rng.Intn(5))
	case 3:
		b["amount"] = []float64{0.001, -1, 0.01, 1e15}[rng.Intn(4)]
	case 4:
		b["precise_amount"] = []any{0, -1}[rng.Intn(2)]
	default:
		b["precise_amount"] = a
	}
	return b
}

// quiet checks that the dry run left everything as it was. It tells whether
// anything else came in between, which makes the prediction void.
func (w *w19) quiet(o *op19, before map[string]bool, snap map[string]string) bool {
	ws, txns := w.log.take()
	calm := len(ws) == 0
	for _, id := range txns {
		if !w.named(id, w.asked) {
			w.c.Violate("unasked/"+o.kind, fmt.Sprintf("[%s] %s was recorded during a dry run and belongs to no call that was made for real: %s", w.tag, id, o.desc), nil)
		}
	}
	for i := 0; i < 2 && len(ws) > 0; i++ { // an earlier call's row may have come in between
		w.calm()
		snap = w.R.Audit.Snapshot()
		before = w.outside()
		w.log.reset()
		w.send(o, merge1(o.body, M{"dry_run": true}))
		time.Sleep(60 * time.Millisecond)
		ws, _ = w.log.take()
	}
	if len(ws) > 0 {
		w.c.Violate("writes/"+o.kind, fmt.Sprintf("[%s] a dry run wrote to the database (%s): %s", w.tag, strings.Join(ws, ", "), o.desc), nil)
	}
	if d := rig.Diff(snap, w.R.Audit.Snapshot()); len(d) > 0 {
		w.c.Violate("moves/"+o.kind, fmt.Sprintf("[%s] a dry run moved money (%s): %s", w.tag, strings.Join(d, ", "), o.desc), nil)
	}
	new := extra(before, w.outside())
	if len(new) > 0 {
		// an earlier call's webhook may have come in between: ask again, twice
		for i := 0; i < 2; i++ {
			rig.Eventually(3*time.Second, func() bool {
				a := w.outside()
				time.Sleep(120 * time.Millisecond)
				return len(extra(a, w.outside())) == 0
			})
			before = w.outside()
			w.send(o, merge1(o.body, M{"dry_run": true}))
			time.Sleep(60 * time.Millisecond)
			if new = extra(before, w.outside()); len(new) == 0 {
				return false
			}
		}
		w.c.Violate("outside/"+o.kind, fmt.Sprintf("[%s] a dry run left something outside the database (%s): %s", w.tag, strings.Join(new, ", "), o.desc), nil)
	}
	return calm
}

// calm waits until nothing has been written for a while.
func (w *w19) calm() {
	for i := 0; i < 40; i++ {
		a, _ := w.log.take()
		time.Sleep(80 * time.Millisecond)
		if b, _ := w.log.take(); len(a) == len(b) && w.R.Eng.Idle() {
			return
		}
	}
}

// outside lists the tasks there are, and counts the calls of the hook that runs first.
func (w *w19) outside() map[string]bool {
	m := map[string]bool{}
	for _, k := range w.R.MR.Keys() {
		if strings.HasPrefix(k, "asynq:{") && strings.Contains(k, "}:t:") {
			m[k] = true
		}
	}
	for i, h := range w.R.Hooks.All() {
		if strings.HasPrefix(h.Path, "/PRE_TRANSACTION") {
			m[fmt.Sprintf("call %d", i)] = true
		}
	}
	return m
}

func extra(before, after map[string]bool) []string {
	var out []string
	for k := range after {
		if !before[k] {
			out = append(out, k)
		}
	}
	return out
}

// locked waits for the lock of an earlier request to go.
func (w *w19) send(o *op19, body M) *rig.Resp {
	var r *rig.Resp
	for i := 0; i < 40; i++ {
		if r = w.S[0].Do(o.method, o.path, body); r.Code != 423 {
			break
		}
		time.Sleep(25 * time.Millisecond)
	}
	return r
}

func (w *w19) step(i int) bool {
	c := w.c
	o := w.gen()
	snap := w.R.Audit.Snapshot()
	before := w.outside()
	w.log.reset()
	dry := w.send(o, merge1(o.body, M{"dry_run": true}))
	if dry.Err != nil {
		c.Broken("[%s] %s: %v", w.tag, o.desc, dry.Err)
		return false
	}
	if w.rng.Intn(25) == 0 { // anything it leaves running has time to act
		time.Sleep(400 * time.Millisecond)
	}
	if !w.quiet(o, before, snap) {
		c.Add("overtaken", 1)
		return true
	}
	if w.rng.Intn(10) == 0 { // asking twice changes nothing
		again := w.send(o, merge1(o.body, M{"dry_run": true}))
		if again.Code != dry.Code || jtext(again.J) != jtext(dry.J) {
			c.Violate("unstable/"+o.kind, fmt.Sprintf("[%s] the same dry run answered %s and then %s: %s", w.tag, dry, again, o.desc), nil)
		}
	}
	w.log.reset()
	real := w.send(o, o.body)
	if real.Err != nil {
		c.Broken("[%s] %s: %v", w.tag, o.desc, real.Err)
		return false
	}
	if w.drain {
		if !o.sync {
			if err := w.R.Drain(40*time.Second, false); err != nil {
				c.Broken("[%s] %v", w.tag, err)
				return false
			}
		}
	}
	if !w.drain && (o.kind == "refund" || !o.sync) {
		w.calm()
	}
	after := w.R.Audit.Snapshot()
	_, txns := w.log.take() // so all that shows in the balances is among these
	var eff, rej []*rig.Row
	for _, id := range txns {
		t := w.R.Audit.Txn(id)
		if t == nil {
			continue
		}
		switch {
		case t.Status == "REJECTED":
			rej = append(rej, t)
		case t.Effect != "none":
			eff = append(eff, t)
		}
	}
	w.remember(o, real, txns, eff)
	mine := w.names(o)
	for _, id := range txns { // a queued call made earlier may end only now
		if w.named(id, mine) {
			continue
		}
		if !w.named(id, w.asked) {
			c.Violate("unasked/"+o.kind, fmt.Sprintf("[%s] %s was recorded and belongs to no call that was made for real; the last dry run was of %s", w.tag, id, o.desc), nil)
		}
		c.Add("overtaken", 1)
		w.asked = append(w.asked, mine...)
		w.calm()
		return true
	}
	w.asked = append(w.asked, mine...)
	predicted := dry.OK() && dry.J["would_apply"] == true
	happened := real.OK() && len(rej) == 0 && len(eff) > 0
	if strings.HasPrefix(o.kind, "bulk") && o.kind != "bulk" {
		happened = real.OK() && num(real.J["failed"]).Sign() == 0 && len(eff) > 0
	}
	code := ""
	if rj, ok := dry.J["rejection"].(map[string]any); ok {
		code = rig.Str(rj["code"])
	}
	if !dry.OK() {
		code = dry.ErrCode()
	}
	c.Case(fmt.Sprintf("%s/sync%v/predicted%v/%s/%d", o.kind, o.sync, predicted, code, min(len(eff), 3)), true)
	say := func(key, f string, x ...any) {
		c.Violate(key+"/"+o.kind, fmt.Sprintf("[%s] "+f, append([]any{w.tag}, x...)...)+fmt.Sprintf("; the dry run answered %s; the call answered %s, recorded %s and %d rejections; request %s", dry.Raw, real, effText(eff), len(rej), o.desc), nil)
	}
	if dry.OK() && dry.J["dry_run"] != true {
		say("not-a-preview", "a dry run answered something else")
		return true
	}
	if o.loose {
		w.looseCheck(o, dry, real, eff, rej, say)
		return true
	}
	if predicted != happened {
		if !o.sync && !predicted && w.partial(o) {
			w.c.Violate("queued-partial-parent", "a dry run of a queued action on a parent some of whose legs are settled already is refused, and the call settles the rest: "+o.desc, nil)
		} else if predicted {
			say("optimist", "predicted to apply, yet it failed")
		} else {
			say("pessimist", "predicted to fail, yet it applied")
		}
		return true
	}
	if !predicted {
		c.Add("agreed_failures", 1)
		return true
	}
	c.Add("agreed_successes", 1)
	w.compareBalances(o, dry, snap, after, say)
	// amounts and statuses
	res := []any{dry.J}
	if l, ok := dry.J["results"].([]any); ok {
		res = l
	}
	want, got := new(big.Int), new(big.Int)
	stat := map[string]bool{}
	for _, x := range res {
		m, _ := x.(map[string]any)
		want.Add(want, num(m["precise_amount"]))
		stat[rig.Str(m["status"])] = true
	}
	for _, t := range eff {
		got.Add(got, t.Amt)
		if !stat[t.Status] && !(o.kind == "refund" && len(eff) > 1) { // one status cannot tell of several legs
			say("status", "recorded as %s", t.Status)
			return true
		}
	}
	if want.Cmp(got) != 0 {
		say("amount", "predicted %s in all, recorded %s", want, got)
	}
	if lg, ok := dry.J["legs"].([]any); ok {
		var a, b []string
		for _, x := range lg {
			m, _ := x.(map[string]any)
			a = append(a, rig.Str(m["precise_amount"]))
		}
		for _, t := range eff {
			b = append(b, t.Amt.String())
		}
		sort.Strings(a)
		sort.Strings(b)
		if strings.Join(a, ",") != strings.Join(b, ",") {
			say("legs", "predicted legs of %v, recorded %v", a, b)
		}
	}
	return true
}

// names lists the references and ids a call mentions.
func (w *w19) names(o *op19) []string {
	var out []string
	add := func(x any) {
		if s, ok := x.(string); ok && s != "" {
			out = append(out, s)
		}
	}
	one := func(b M) {
		add(b["reference"])
		add(b["transaction_id"])
	}
	one(o.body)
	if ts, ok := o.body["transactions"].([]M); ok {
		for _, t := range ts {
			one(t)
		}
	}
	if ids, ok := o.body["transaction_ids"].([]string); ok {
		out = append(out, ids...)
	}
	if l := o.path[strings.LastIndex(o.path, "/")+1:]; strings.Contains(l, "_") {
		add(l)
	}
	return out
}

// named tells whether a transaction, or one it stems from, carries one of the names.
func (w *w19) named(id string, names []string) bool {
	for d := 0; d < 6 && id != ""; d++ {
		t := w.R.Audit.Txn(id)
		ref, parent := "", ""
		if t != nil {
			ref, parent = t.Ref, t.Parent
		}
		for _, n := range names {
			if n == id || n == parent || ref != "" && strings.HasPrefix(ref, n) {
				return true
			}
		}
		id = parent
	}
	return false
}

func effText(eff []*rig.Row) string {
	var out []string
	for _, t := range eff {
		out = append(out, fmt.Sprintf("%s %s %s->%s", t.Status, t.Amt, t.Src, t.Dst))
	}
	return "[" + strings.Join(out, "; ") + "]"
}

// compareBalances checks the predicted balances, which must be all that changed.
func (w *w19) compareBalances(o *op19, dry *rig.Resp, snap, now map[string]string, say func(string, string, ...any)) {
	l, _ := dry.J["balances"].([]any)
	if o.kind == "bulk" || o.kind == "bulkvoid" || o.kind == "bulkcommit" {
		if l == nil {
			if rs, ok := dry.J["results"].([]any); ok && len(rs) == 1 {
				l, _ = rs[0].(map[string]any)["balances"].([]any)
			}
		}
	}
	seen := map[string]bool{}
	for _, x := range l {
		m, _ := x.(map[string]any)
		id := rig.Str(m["balance_id"])
		if strings.HasPrefix(id, "@") {
			id = w.R.Audit.ByIndicator(id, rig.Str(m["currency"]))
		}
		if seen[id] {
			say("twice", "balance %s is predicted twice", id)
			return
		}
		seen[id] = true
		f := func(p string) string {
			return fmt.Sprintf("%s/%s/%s/%s", m[p+"_credit_balance"], m[p+"_debit_balance"], m[p+"_inflight_credit_balance"], m[p+"_inflight_debit_balance"])
		}
		was := snap[id]
		if was == "" {
			was = "0/0/0/0"
		}
		if f("current") != was {
			say("current", "balance %s stood at %s, reported %s", id, was, f("current"))
			return
		}
		if f("resulting") != now[id] {
			say("balances", "balance %s ended at %s, predicted %s", id, now[id], f("resulting"))
			return
		}
		net := new(big.Int).Sub(num(m["resulting_credit_balance"]), num(m["resulting_debit_balance"]))
		if num(m["resulting_balance"]).Cmp(net) != 0 {
			say("balances", "balance %s predicted at %v, its credits minus debits are %s", id, m["resulting_balance"], net)
			return
		}
		w.c.Add("balances_compared", 1)
	}
	for _, d := range rig.Diff(snap, now) {
		if id, _, _ := strings.Cut(d, ": "); !seen[id] {
			say("unforeseen", "balance %s changed and was not among those predicted", d)
			return
		}
	}
}

// looseCheck compares the members of a request that run in no fixed order.
func (w *w19) looseCheck(o *op19, dry, real *rig.Resp, eff, rej []*rig.Row, say func(string, string, ...any)) {
	switch o.kind {
	case "bulkvoid", "bulkcommit":
		if !dry.OK() || !real.OK() {
			if dry.OK() != real.OK() {
				say("loose", "one was refused")
			}
			return
		}
		a, _ := dry.J["results"].([]any)
		b, _ := real.J["results"].([]any)
		if len(a) != len(b) {
			say("loose", "%d items predicted, %d done", len(a), len(b))
			return
		}
		rel := map[string]*big.Int{}
		for _, t := range eff {
			k := t.Parent
			if p := w.R.Audit.Txn(t.Parent); p != nil && p.Parent != "" {
				rel[p.Parent] = addb(rel[p.Parent], t.Amt)
			}
			rel[k] = addb(rel[k], t.Amt)
		}
		for i := range a {
			m, _ := a[i].(map[string]any)
			k, _ := b[i].(map[string]any)
			id := rig.Str(k["transaction_id"])
			w.c.Add("items_compared", 1)
			ok := k["status"] != "failed" && rel[id] != nil
			if (m["would_apply"] == true) != ok {
				if ok && !o.sync && w.partial(o) {
					w.c.Violate("queued-partial-parent", "a dry run of a queued action on a parent some of whose legs are settled already is refused, and the call settles the rest: "+o.desc, nil)
					return
				}
				say("loose", "item %d (%s): predicted %v, answered %v, settled %v", i, id, m["would_apply"], k["status"], rel[id])
				return
			}
			if ok && num(m["precise_amount"]).Cmp(rel[id]) != 0 {
				say("loose", "item %d (%s): predicted %v, settled %v", i, id, m["precise_amount"], rel[id])
				return
			}
		}
	case "split", "bulk":
		// what may go either way is left alone; what cannot lack funds must match
		ts, ok := o.body["transactions"].([]M)
		if !ok {
			ts = []M{o.body}
		}
		free := true
		for _, t := range ts {
			if t["allow_overdraft"] != true || t["overdraft_limit"] != nil {
				free = false
			}
		}
		if !free {
			if !dry.OK() && real.OK() && len(eff) > 0 && len(ts) == 1 {
				say("pessimist", "predicted to fail, yet it applied")
			}
			return
		}
		p := dry.OK() && dry.J["would_apply"] == true
		h := real.OK() && len(rej) == 0 && len(eff) > 0
		if p != h {
			say("loose", "predicted %v, happened %v", p, h)
		}
	}
}

// partial tells whether a queued action names a hold of several legs, one of
// which was settled before.
func (w *w19) partial(o *op19) bool {
	for _, id := range w.names(o) {
		legs := 0
		for _, k := range w.R.Audit.Children(id) {
			if k.Effect == "hold" {
				legs++
			}
		}
		if legs > 1 {
			return true
		}
	}
	return false
}

func addb(a, b *big.Int) *big.Int {
	if a == nil {
		a = new(big.Int)
	}
	return new(big.Int).Add(a, b)
}

func (w *w19) remember(o *op19, real *rig.Resp, txns []string, eff []*rig.Row) {
	for _, t := range eff {
		switch t.Effect {
		case "hold":
			w.holds = append(w.holds, t.ID)
		case "post", "commit":
			w.applied = append(w.applied, t.ID)
		default:
			w.odd = append(w.odd, t.ID)
		}
	}
	if o.kind == "split" || o.kind == "bulk" || o.kind == "single" {
		for _, k := range []string{"transaction_id", "batch_id"} {
			if id := real.S(k); id != "" {
				if len(eff) > 0 && eff[0].Effect == "hold" {
					w.holds = append(w.holds, id)
				} else if o.kind != "single" {
					w.applied = append(w.applied, id)
				} else {
					w.odd = append(w.odd, id)
				}
			}
		}
	}
	for _, id := range txns {
		if t := w.R.Audit.Txn(id); t != nil && w.rng.Intn(8) == 0 {
			w.refs = append(w.refs, t.Ref)
		}
	}
	cut := func(l []string) []string {
		if len(l) > 40 {
			return l[len(l)-40:]
		}
		return l
	}
	w.holds, w.applied, w.odd, w.refs = cut(w.holds), cut(w.applied), cut(w.odd), cut(w.refs)
}

// p19: dry runs change nothing and predict the outcome.
func p19(c *rig.Check) {
	c.Rule = "every request is first sent as a dry run: no row, queue task, hook call or balance may change; then sent for real, and whether it applied, with which status, amounts and balances must be what was predicted; distinct_nontrivial counts (endpoint, queued or not, prediction, code, effects) kinds"
	c.Assume = append(c.Assume, "no other request runs between a dry run and the call it predicts")
	f := func(tag string, cfg rig.Cfg, workers, n int, seed int64) func() {
		return func() { p19run(c, tag, cfg, workers, n, seed) }
	}
	n := c.Pick(150, 6000)
	all(
		f("plain", nil, 1, n, c.Seed),
		f("plain2", rig.Cfg{"transaction": M{"batch_size": 2}}, 1, n, c.Seed+10),
		f("queued-checks", rig.Cfg{"transaction": M{"enable_queued_checks": true}}, 0, n, c.Seed+20),
		f("sync-only", nil, 0, n, c.Seed+30),
	)
}

func p19run(c *rig.Check, tag string, cfg rig.Cfg, workers, n int, seed int64) {
	full := rig.Cfg{"server": M{"secure": true, "secret_key": "master-secret-19"}}
	for k, v := range cfg {
		full[k] = v
	}
	b := boot(c, tag, full, 1, workers)
	if b == nil {
		return
	}
	defer b.R.Close()
	w := &w19{World: b, c: c, tag: tag, rng: rand.New(rand.NewSource(seed)), log: &log19{}, drain: workers > 0}
	for _, cur := range []string{"USD", "EUR"} {
		if err := w.AddBalances(cur, 4, 20000); err != nil {
			c.Broken("%v", err)
			return
		}
	}
	for _, typ := range []string{"PRE_TRANSACTION", "POST_TRANSACTION"} {
		r := w.S[0].Do("POST", "/hooks", M{"name": typ, "url": w.R.Hooks.Base("/" + typ), "type": typ, "active": true, "timeout": 5, "retry_count": 0})
		if !r.OK() {
			c.Broken("[%s] hook: %s", tag, r)
			return
		}
	}
	if !w.drain { // transfers that wait in the queue while others are asked about
		for i := 0; i < 12; i++ {
			q := w.RandReq(w.rng)
			q.Inflight = i%3 == 0
			w.Post(w.rng, q)
			w.asked = append(w.asked, q.Ref)
			if q.Inflight {
				w.holds = append(w.holds, q.ID)
			} else {
				w.odd = append(w.odd, q.ID)
			}
		}
	} else if err := w.R.Drain(20*time.Second, false); err != nil {
		c.Broken("[%s] %v", tag, err)
		return
	}
	w.R.Audit.With(func() { w.R.Audit.Watch = w.log.watch })
	w.calm()
	for i := 0; i < n && c.Violations() < 12; i++ {
		if !w.step(i) {
			return
		}
		if i%40 == 39 { // keep the balances from running dry
			for _, cur := range w.Cur {
				for _, id := range w.Bals[cur] {
					if avail(w.World, id).Sign() <= 0 {
						w.FundBal(id, cur, big.NewInt(1+w.rng.Int63n(20000)))
					}
				}
			}
			if w.drain {
				w.R.Drain(20*time.Second, false)
			}
		}
	}
	crashes(c, w.World, tag)
}

func jtext(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprint(v)
	}
	return string(b)
}
